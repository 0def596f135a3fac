package main

import (
	"math/big"
	"strings"
)

// Ctx is a path condition together with the rewriting state derived from it. All its constructors return
// terms equal to the requested one in every model of the path condition.
type Ctx struct {
	quick  bool // proofs from the relevant part of the path condition only
	pc     []*Term
	pcset  map[*Term]bool
	sub    map[*Term]*Term // oriented equalities and decided atoms
	lo, hi map[*Term]*big.Int
	memo   map[*Term]*Term
	proofs map[*Term]int8 // cache of prove at this version: 1 proved, -1 refuted, 2 unknown
	slv    *Solver
	dead   bool
	ways   map[*Term][2]*Term // names of joined paths: what holds on one and on the other
	depth  int
	shared bool
}

func newCtx(s *Solver) *Ctx {
	return &Ctx{pcset: map[*Term]bool{}, sub: map[*Term]*Term{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{},
		memo: map[*Term]*Term{}, proofs: map[*Term]int8{}, slv: s}
}

// clone shares the maps until one of the two assumes something (detach).
func (c *Ctx) clone() *Ctx {
	c.shared = true
	d := *c
	d.pc = c.pc[:len(c.pc):len(c.pc)]
	c.pc = d.pc
	return &d
}

func (c *Ctx) define(b, yes, no *Term) {
	w := map[*Term][2]*Term{b: {yes, no}}
	for k, v := range c.ways {
		w[k] = v
	}
	c.ways = w
}

func (c *Ctx) detach() {
	if !c.shared {
		return
	}
	c.shared = false
	o := *c
	c.pcset = make(map[*Term]bool, len(o.pcset)+8)
	for k, v := range o.pcset {
		c.pcset[k] = v
	}
	c.sub = make(map[*Term]*Term, len(o.sub)+8)
	for k, v := range o.sub {
		c.sub[k] = v
	}
	c.lo = make(map[*Term]*big.Int, len(o.lo)+8)
	for k, v := range o.lo {
		c.lo[k] = v
	}
	c.hi = make(map[*Term]*big.Int, len(o.hi)+8)
	for k, v := range o.hi {
		c.hi[k] = v
	}
	c.memo = map[*Term]*Term{}
	c.proofs = map[*Term]int8{}
	for k, v := range o.proofs {
		if v != 2 {
			c.proofs[k] = v
		}
	}
}

func (c *Ctx) atom(t *Term) *Term {
	if r, ok := c.sub[t]; ok {
		if r2, ok := c.sub[r]; ok && r2 != r {
			return r2
		}
		return r
	}
	return t
}

// N rebuilds a term with the rewriting state of this context.
func (c *Ctx) N(t *Term) *Term {
	if t.open {
		return t
	}
	switch t.op {
	case "iconst", "lit", "bconst", "forall":
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := c.rebuild(t)
	if r != t && r.op != "iconst" && r.op != "lit" && r.op != "bconst" {
		if _, ok := c.memo[r]; !ok && c.depth < 40 {
			c.depth++
			r = c.N(r)
			c.depth--
		}
	}
	c.memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term) *Term {
	switch t.op {
	case "poly":
		var out *Term = zero
		changed := false
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if c.N(a) != a {
					changed = true
				}
			}
		}
		if !changed {
			return t
		}
		var parts []*Term
		for _, m := range t.poly {
			p := BigT(m.coef)
			for _, a := range m.atoms {
				p = Mul(p, c.N(a))
			}
			parts = append(parts, p)
		}
		out = Add(parts...)
		return out
	}
	if len(t.args) == 0 {
		return c.atom(t)
	}
	if r, ok := c.sub[t]; ok {
		return r
	}
	a := make([]*Term, len(t.args))
	for i, x := range t.args {
		a[i] = c.N(x)
	}
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "le0":
		return c.le0(a[0])
	case "eq0":
		return c.EqInt(a[0], zero)
	case "eq":
		return c.Eq(a[0], a[1])
	case "len":
		return c.Len(a[0])
	case "llen":
		return c.LLen(a[0])
	case "at":
		return c.At(a[0], a[1])
	case "val":
		return c.Val(t.c.Int64(), a[0])
	case "mod":
		return c.Mod(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "cat":
		return c.Cat(a...)
	case "slice":
		return c.Slice(a[0], a[1], a[2])
	case "rep":
		return c.Rep(a[0], a[1])
	case "dig":
		return c.Dig(t.c.Int64(), a[0], a[1])
	case "min":
		return c.Min(t.c.Int64(), a[0])
	case "chr":
		return c.Chr(a[0])
	case "elem":
		return c.Elem(a[0], a[1])
	case "mklist":
		return mk("mklist", SList, nil, "", a...)
	case "uf":
		return c.App(t.s, t.sort, a...)
	}
	panic("rebuild " + t.op)
}

func (c *Ctx) le0(p *Term) *Term {
	t := Le0(p)
	if t.op != "le0" {
		return t
	}
	lo, hi := c.bounds(t.args[0])
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	return c.atom(t)
}
func (c *Ctx) Le(a, b *Term) *Term { return c.le0(Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(Add(Sub(a, b), one)) }

func pow(b, e int64) *big.Int {
	return new(big.Int).Exp(big.NewInt(b), big.NewInt(e), nil)
}

// bounds gives sound lower and upper bounds of an Int term (nil: none).
func (c *Ctx) bounds(t *Term) (lo, hi *big.Int) {
	if t.op == "iconst" {
		return t.c, t.c
	}
	if t.op == "poly" {
		lo, hi = new(big.Int), new(big.Int)
		for _, m := range t.poly {
			l, h := big.NewInt(1), big.NewInt(1)
			if len(m.atoms) == 1 {
				l, h = c.bounds(m.atoms[0])
			} else {
				for i := 0; i < len(m.atoms); i++ {
					a := m.atoms[i]
					al, ah := c.bounds(a)
					if i+1 < len(m.atoms) && m.atoms[i+1] == a { // square
						i++
						if al == nil || al.Sign() < 0 {
							al, ah = new(big.Int), nil
						} else {
							al = new(big.Int).Mul(al, al)
							if ah != nil {
								ah = new(big.Int).Mul(ah, ah)
							}
						}
					}
					if al == nil || al.Sign() < 0 || l == nil {
						l, h = nil, nil
						break
					}
					l = new(big.Int).Mul(l, al)
					if h != nil && ah != nil {
						h = new(big.Int).Mul(h, ah)
					} else {
						h = nil
					}
				}
			}
			if m.coef.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(l, m.coef))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(h, m.coef))
			} else {
				hi = nil
			}
		}
		if l, ok := c.lo[t]; ok && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h, ok := c.hi[t]; ok && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
		return
	}
	switch t.op {
	case "len", "llen":
		lo = new(big.Int)
		hi = maxLen
		if e := t.args[0]; e.op == "elem" && t.op == "len" && c.known(UF("nonempty", SBool, e.args[0])) &&
			c.N(Le(zero, e.args[1])) == True && c.N(Lt(e.args[1], c.LLen(e.args[0]))) == True {
			lo = big.NewInt(1)
		}
		if t.args[0].op == "min" {
			n := t.args[0].args[0]
			b := t.args[0].c.Int64()
			if b != 256 {
				lo = big.NewInt(1)
			}
			_, nh := c.bounds(n)
			if nh != nil && nh.Sign() >= 0 {
				hi = big.NewInt(digitsOf(b, nh))
			}
		}
	case "at":
		lo, hi = new(big.Int), big.NewInt(255)
		if c.isDigits(2, t.args[0]) {
			lo, hi = big.NewInt(48), big.NewInt(49)
		} else if c.isDigits(16, t.args[0]) {
			lo, hi = big.NewInt(48), big.NewInt(102)
		}
	case "val":
		lo = new(big.Int)
		_, lh := c.bounds(c.Len(t.args[0]))
		if lh != nil && lh.IsInt64() && lh.Int64() < 5000 {
			hi = new(big.Int).Sub(pow(t.c.Int64(), lh.Int64()), big.NewInt(1))
		}
	case "mod":
		if t.args[1].isConst() && t.args[1].c.Sign() > 0 {
			lo = new(big.Int)
			hi = new(big.Int).Sub(t.args[1].c, big.NewInt(1))
			if curveRHS(t) != nil || c.primeProduct(t) {
				lo = big.NewInt(1)
			}
		}
	case "div":
		if t.args[1].isConst() && t.args[1].c.Sign() > 0 {
			l, h := c.bounds(t.args[0])
			if l != nil {
				lo = floorDiv(l, t.args[1].c)
			}
			if h != nil {
				hi = floorDiv(h, t.args[1].c)
			}
		}
	case "ite":
		l1, h1 := c.bounds(t.args[1])
		l2, h2 := c.bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = minBig(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxBig(h1, h2)
		}
	case "uf":
		if b, ok := ufBounds[t.s]; ok {
			lo, hi = b[0], b[1]
		}
		if t.s == "modpow" || t.s == "modinv" {
			if m := t.args[len(t.args)-1]; m.isConst() {
				lo, hi = new(big.Int), new(big.Int).Sub(m.c, big.NewInt(1))
				if isRoot(t) != nil || t.s == "modinv" { // x^3+7 is never 0 modulo P; an inverse is never 0
					lo = big.NewInt(1)
				}
			}
		}
		if t.s == "indexof" || t.s == "lastindexof" {
			lo = big.NewInt(-1)
			_, h := c.bounds(c.LLen(t.args[0]))
			if h != nil {
				hi = new(big.Int).Sub(h, big.NewInt(1))
			}
		}
	}
	if l, ok := c.lo[t]; ok && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h, ok := c.hi[t]; ok && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return
}

// maxLen bounds the length of every string and slice (assumption: memory is finite).
var maxLen = pow(2, 47)

var ufBounds = map[string][2]*big.Int{}

func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean; b > 0 so this is floor
	return q
}
func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// digitsOf: number of digits of n >= 0 in base b (0 counts one digit, except in base 256 where it counts none).
func digitsOf(b int64, n *big.Int) int64 {
	if n.Sign() == 0 {
		if b == 256 {
			return 0
		}
		return 1
	}
	if b == 256 {
		return int64((n.BitLen() + 7) / 8)
	}
	return int64(len(n.Text(int(b))))
}

func bitsOf(b int64) int64 {
	switch b {
	case 2:
		return 1
	case 16:
		return 4
	case 256:
		return 8
	}
	return 0
}

func zeroDigit(b int64) *Term {
	if b == 256 {
		return zero
	}
	return Int(48)
}

// ---- sequences ----

func segs(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t == Empty {
		return nil
	}
	return []*Term{t}
}

var ufLen = map[string]int64{"sha256": 32, "ripemd160": 20, "sha512": 64, "sha1": 20, "md5": 16, "bytes_fixed": 0}

func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case "lit":
		return Int(int64(len(t.s)))
	case "cat":
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, c.Len(a))
		}
		return Add(ls...)
	case "slice":
		return Sub(t.args[2], t.args[1])
	case "rep":
		return t.args[1]
	case "dig":
		return t.args[1]
	case "chr":
		return one
	case "ite":
		a, b := c.Len(t.args[1]), c.Len(t.args[2])
		if a == b {
			return a
		}
		return c.Ite(t.args[0], a, b)
	case "min":
		b := t.c.Int64()
		lo, hi := c.bounds(t.args[0])
		if lo != nil && hi != nil && lo.Sign() >= 0 && digitsOf(b, lo) == digitsOf(b, hi) {
			return Int(digitsOf(b, lo))
		}
	case "uf":
		if n, ok := ufLen[t.s]; ok {
			return Int(n)
		}
		if t.s == "pbkdf2" {
			return t.args[3]
		}
		if t.s == "lowerhex" {
			return c.Len(t.args[0])
		}
	}
	return c.atom(mk("len", SInt, nil, "", t))
}

func (c *Ctx) LLen(t *Term) *Term {
	if t.op == "mklist" {
		return Int(int64(len(t.args)))
	}
	return c.atom(mk("llen", SInt, nil, "", t))
}

func (c *Ctx) Elem(l, i *Term) *Term {
	if l.op == "mklist" {
		if k, ok := i.int64(); ok && k >= 0 && int(k) < len(l.args) {
			return l.args[k]
		}
	}
	return c.atom(mk("elem", SSeq, nil, "", l, c.canonBits(i)))
}

func (c *Ctx) Rep(ch, n *Term) *Term {
	if k, ok := n.int64(); ok {
		if k <= 0 {
			return Empty
		}
		if b, ok := ch.int64(); ok && k <= 4096 {
			return Lit(strings.Repeat(string([]byte{byte(b)}), int(k)))
		}
	}
	return c.atom(mk("rep", SSeq, nil, "", ch, n))
}

func (c *Ctx) Chr(n *Term) *Term {
	if k, ok := n.int64(); ok && k >= 0 && k < 256 {
		return Lit(string([]byte{byte(k)}))
	}
	if n.op == "at" {
		return c.Slice(n.args[0], n.args[1], Add(n.args[1], one))
	}
	return c.atom(mk("chr", SSeq, nil, "", n))
}

func (c *Ctx) Cat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == "cat" {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t == Empty {
			return
		}
		if len(out) > 0 {
			if m := c.merge(out[len(out)-1], t); m != nil {
				out = out[:len(out)-1]
				for _, x := range m {
					// merged pieces cannot merge with each other again; only the first may merge leftwards
					if len(out) > 0 && x == m[0] && m[0] != t {
						if mm := c.merge(out[len(out)-1], x); mm != nil {
							out = out[:len(out)-1]
							out = append(out, mm...)
							continue
						}
					}
					out = append(out, x)
				}
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	if len(out) == 0 {
		return Empty
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.atom(mk("cat", SSeq, nil, "", out...))
}

// merge joins two adjacent segments; nil if they stay apart.
func (c *Ctx) merge(a, b *Term) []*Term {
	switch {
	case a.op == "lit" && b.op == "lit":
		return []*Term{Lit(a.s + b.s)}
	case a.op == "slice" && b.op == "slice" && a.args[0] == b.args[0] && a.args[2] == b.args[1]:
		return segs(c.Slice(a.args[0], a.args[1], b.args[2]))
	case a.op == "rep" && b.op == "rep" && a.args[0] == b.args[0]:
		return segs(c.Rep(a.args[0], Add(a.args[1], b.args[1])))
	case a.op == "lit" && b.op == "rep" && b.args[0].isConst():
		ch := byte(b.args[0].c.Int64())
		k := len(a.s)
		for k > 0 && a.s[k-1] == ch {
			k--
		}
		if k < len(a.s) {
			r := c.Rep(b.args[0], Add(b.args[1], Int(int64(len(a.s)-k))))
			if k == 0 {
				return segs(r)
			}
			return append([]*Term{Lit(a.s[:k])}, segs(r)...)
		}
	case a.op == "rep" && b.op == "lit" && a.args[0].isConst():
		ch := byte(a.args[0].c.Int64())
		k := 0
		for k < len(b.s) && b.s[k] == ch {
			k++
		}
		if k > 0 {
			r := c.Rep(a.args[0], Add(a.args[1], Int(int64(k))))
			if k == len(b.s) {
				return segs(r)
			}
			return append(append([]*Term{}, segs(r)...), Lit(b.s[k:]))
		}
	}
	// zero padding in front of digits
	if (b.op == "min" || b.op == "dig") && (a.op == "rep" || a.op == "lit") {
		base := b.c.Int64()
		z := zeroDigit(base)
		pre := a
		var keep []*Term
		if a.op == "lit" {
			zc := byte(z.c.Int64())
			k := len(a.s)
			for k > 0 && a.s[k-1] == zc {
				k--
			}
			if k == len(a.s) {
				return nil
			}
			if b.op == "dig" && base == 16 && k > 0 {
				return nil // do not pull literal zeros into digits behind other literals
			}
			if k > 0 {
				keep = []*Term{Lit(a.s[:k])}
			}
			pre = Lit(a.s[k:])
		} else if a.args[0] != z {
			return nil
		}
		if b.op == "min" {
			w := c.constOf(Add(c.Len(pre), c.Len(b)))
			if w != nil && w.IsInt64() && len(keep) == 0 {
				return segs(c.Dig(base, b.args[0], BigT(w)))
			}
			return nil
		}
		if a.op == "rep" || (bitsOf(base) > 0 && b.args[0].op != "val") {
			return append(keep, segs(c.digAtom(base, b.args[0], Add(c.Len(pre), b.args[1])))...)
		}
		return nil
	}
	// adjacent repackings of one underlying sequence
	if a.op == "dig" && b.op == "dig" && a.c.Cmp(b.c) == 0 && a.args[0].op == "val" && b.args[0].op == "val" &&
		a.args[0].c.Cmp(b.args[0].c) == 0 && a.args[0].c.Cmp(a.c) != 0 {
		b1, b2 := a.args[0].c.Int64(), a.c.Int64()
		ra, rb := a.args[0].args[0], b.args[0].args[0]
		if bitsOf(b1) > 0 && bitsOf(b2) > 0 &&
			scale(c.Len(ra), big.NewInt(bitsOf(b1))) == scale(a.args[1], big.NewInt(bitsOf(b2))) &&
			scale(c.Len(rb), big.NewInt(bitsOf(b1))) == scale(b.args[1], big.NewInt(bitsOf(b2))) {
			r := c.Cat(ra, rb)
			if len(segs(r)) < len(segs(ra))+len(segs(rb)) {
				return segs(c.repack(b1, b2, r, Add(a.args[1], b.args[1])))
			}
		}
	}
	return nil
}

// constOf returns the constant value of t if the path condition fixes it.
func (c *Ctx) constOf(t *Term) *big.Int {
	t = c.N(t)
	if t.isConst() {
		return t.c
	}
	lo, hi := c.bounds(t)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return lo
	}
	// candidates: constants the term is compared with on the path
	if c.slv == nil {
		return nil
	}
	key := mk("pin", SInt, nil, "", t)
	if r, ok := c.memo[key]; ok {
		if r.isConst() {
			return r.c
		}
		return nil
	}
	c.memo[key] = key
	v := c.slv.modelValue(c, t)
	if v == nil {
		return nil
	}
	if c.prove(eqInt0(Sub(t, BigT(v))), true) {
		c.memo[key] = BigT(v)
		return v
	}
	return nil
}

func (c *Ctx) Slice(s, lo, hi *Term) *Term {
	if lo == hi {
		return Empty
	}
	L := c.Len(s)
	if lo == zero && hi == L {
		return s
	}
	switch s.op {
	case "lit":
		l, ok1 := lo.int64()
		h, ok2 := hi.int64()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s.s) {
			return Lit(s.s[l:h])
		}
		if s.s != "" && strings.Count(s.s, s.s[:1]) == len(s.s) {
			return c.Rep(Int(int64(s.s[0])), Sub(hi, lo))
		}
	case "slice":
		return c.Slice(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	case "rep":
		return c.Rep(s.args[0], Sub(hi, lo))
	case "ite":
		return c.Ite(s.args[0], c.Slice(s.args[1], lo, hi), c.Slice(s.args[2], lo, hi))
	case "cat":
		if r := c.sliceCat(s, lo, hi); r != nil {
			return r
		}
	case "dig":
		if n := s.args[0]; n.op == "val" && n.c.Cmp(s.c) == 0 && c.Len(n.args[0]) == s.args[1] {
			// val is positional: the digits of a part are a part of the digits
			b := n.c.Int64()
			return c.Dig(b, c.Val(b, c.Slice(n.args[0], lo, hi)), Sub(hi, lo))
		}
		if n := s.args[0]; n.op == "val" && n.c.Cmp(s.c) != 0 {
			b1, b2 := n.c.Int64(), s.c.Int64()
			x1, x2 := bitsOf(b1), bitsOf(b2)
			if x1 > 0 && x2 > 0 && scale(c.Len(n.args[0]), big.NewInt(x1)) == scale(s.args[1], big.NewInt(x2)) {
				l, ok1 := divExact(scale(lo, big.NewInt(x2)), x1)
				h, ok2 := divExact(scale(hi, big.NewInt(x2)), x1)
				if ok1 && ok2 {
					return c.repack(b1, b2, c.Slice(n.args[0], l, h), Sub(hi, lo))
				}
			}
		}
	}
	return c.atom(mk("slice", SSeq, nil, "", s, lo, hi))
}

func (c *Ctx) sliceCat(s, lo, hi *Term) *Term {
	var out []*Term
	off := zero
	started := false
	for _, a := range s.args {
		la := c.Len(a)
		end := Add(off, la)
		if !started {
			if c.proveQuick(c.Le(end, lo)) {
				off = end
				continue
			}
			if !c.proveQuick(c.Le(off, lo)) {
				return nil
			}
			started = true
			if c.proveQuick(c.Le(hi, end)) {
				return c.Slice(a, Sub(lo, off), Sub(hi, off))
			}
			if !c.proveQuick(c.Le(end, hi)) || !c.proveQuick(c.Le(lo, end)) {
				return nil
			}
			out = append(out, c.Slice(a, Sub(lo, off), la))
			off = end
			continue
		}
		if c.proveQuick(c.Le(end, hi)) {
			out = append(out, a)
			off = end
			if end == hi {
				break
			}
			continue
		}
		if !c.proveQuick(c.Le(off, hi)) || !c.proveQuick(c.Le(hi, end)) {
			return nil
		}
		out = append(out, c.Slice(a, zero, Sub(hi, off)))
		off = end
		break
	}
	return c.Cat(out...)
}

func (c *Ctx) At(s, i *Term) *Term {
	switch s.op {
	case "lit":
		if k, ok := i.int64(); ok && k >= 0 && int(k) < len(s.s) {
			return Int(int64(s.s[k]))
		}
		// a table of digits
		if strings.HasPrefix("0123456789abcdef", s.s) && len(s.s) >= 2 {
			b := int64(16)
			switch {
			case len(s.s) == 2:
				b = 2
			case len(s.s) <= 10:
				b = 10
			}
			if c.proveQuick(c.Lt(i, Int(int64(len(s.s))))) && c.proveQuick(c.Le(zero, i)) {
				return c.At(c.Dig(b, i, one), zero)
			}
		}
	case "slice":
		return c.At(s.args[0], Add(s.args[1], i))
	case "rep":
		return s.args[0]
	case "chr":
		return s.args[0]
	case "cat":
		off := zero
		for _, a := range s.args {
			end := Add(off, c.Len(a))
			if c.proveQuick(c.Lt(i, end)) && c.proveQuick(c.Le(off, i)) {
				return c.At(a, Sub(i, off))
			}
			if !c.proveQuick(c.Le(end, i)) {
				break
			}
			off = end
		}
	case "ite":
		return c.Ite(s.args[0], c.At(s.args[1], i), c.At(s.args[2], i))
	case "dig":
		if s.args[1] == one {
			b := s.c.Int64()
			_, h := c.bounds(s.args[0])
			if b == 256 {
				return s.args[0]
			}
			if h != nil && h.Cmp(big.NewInt(10)) < 0 {
				return Add(s.args[0], Int(48))
			}
		}
		if b := s.c.Int64(); b == 256 && i == Sub(s.args[1], one) {
			return c.Mod(s.args[0], Int(256))
		}
		// a byte of a number given by two hexadecimal digits per byte
		if n := s.args[0]; s.c.Int64() == 256 && n.op == "val" && n.c.Int64() == 16 {
			w, ok1 := s.args[1].int64()
			k, ok2 := i.int64()
			if ok1 && ok2 && k >= 0 && k < w {
				if L, ok := c.Len(n.args[0]).int64(); ok && L == 2*w && c.isDigits(16, n.args[0]) {
					return c.Val(16, c.Slice(n.args[0], Int(2*k), Int(2*k+2)))
				}
			}
			// the same where the length is not known
			if !ok1 && ok2 && k >= 0 && c.isDigits(16, n.args[0]) {
				two := big.NewInt(2)
				if c.proveQuick(c.EqInt(c.Len(n.args[0]), scale(s.args[1], two))) && c.proveQuick(c.Lt(i, s.args[1])) {
					return c.Val(16, c.Slice(n.args[0], Int(2*k), Int(2*k+2)))
				}
			}
		}
	}
	return c.atom(mk("at", SInt, nil, "", s, i))
}

// ---- numbers and their digits ----

func digitVal(base int64, ch byte) (int64, bool) {
	if base == 256 {
		return int64(ch), true
	}
	var d int64 = -1
	switch {
	case ch >= '0' && ch <= '9':
		d = int64(ch - '0')
	case ch >= 'a' && ch <= 'z':
		d = int64(ch-'a') + 10
	case ch >= 'A' && ch <= 'Z':
		d = int64(ch-'A') + 10
	}
	if d < 0 || d >= base {
		return 0, false
	}
	return d, true
}

func litVal(base int64, s string) *big.Int {
	v := new(big.Int)
	bb := big.NewInt(base)
	for i := 0; i < len(s); i++ {
		d, _ := digitVal(base, s[i])
		v.Mul(v, bb)
		v.Add(v, big.NewInt(d))
	}
	return v
}

// Val is the value of the digits of s in the given base; a byte that is no digit counts as zero.
func (c *Ctx) Val(base int64, s *Term) *Term {
	if s.op == "lit" {
		return BigT(litVal(base, s.s))
	}
	z := zeroDigit(base)
	ss := segs(s)
	// leading zeros
	for len(ss) > 0 {
		f := ss[0]
		if f.op == "rep" && f.args[0] == z {
			ss = ss[1:]
			continue
		}
		if f.op == "lit" {
			k := 0
			for k < len(f.s) && f.s[k] == byte(z.c.Int64()) {
				k++
			}
			if k > 0 {
				ss = append([]*Term{}, ss...)
				ss[0] = Lit(f.s[k:])
				if ss[0] == Empty {
					ss = ss[1:]
				}
				if len(ss) > 0 && k == len(f.s) {
					continue
				}
			}
		}
		break
	}
	if len(ss) == 0 {
		return zero
	}
	if len(ss) == 1 {
		t := ss[0]
		switch {
		case t.op == "lit":
			return BigT(litVal(base, t.s))
		case (t.op == "dig" || t.op == "min") && t.c.Int64() == base:
			return t.args[0]
		case t.op == "ite":
			return c.Ite(t.args[0], c.Val(base, t.args[1]), c.Val(base, t.args[2]))
		case t.op == "uf" && t.s == "lowerhex" && base == 16:
			return c.Val(16, t.args[0])
		}
		if c.Len(t) == one {
			a := c.At(t, zero)
			if base == 256 {
				return a
			}
			if c.isDigits(2, t) || (base <= 10 && c.isDigits(base, t)) {
				return Sub(a, Int(48))
			}
		}
		return c.atom(mk("val", SInt, big.NewInt(base), "", t))
	}
	s2 := c.Cat(ss...)
	if s2.op != "cat" {
		return c.Val(base, s2)
	}
	if r := c.finer(base, s2); r != nil {
		return c.Val(r.c.Int64(), r.args[0])
	}
	return c.atom(mk("val", SInt, big.NewInt(base), "", s2))
}

// finer: the digits s (base b) were packed from digits of a smaller base throughout; as a "val" of those, or nil.
func (c *Ctx) finer(b int64, s *Term) *Term {
	xb := bitsOf(b)
	if xb <= 1 {
		return nil
	}
	var low int64
	for _, t := range segs(s) {
		switch {
		case t.op == "dig" && t.c.Int64() == b && t.args[0].op == "val":
			l := t.args[0].c.Int64()
			if l >= b || bitsOf(l) == 0 || low != 0 && l != low {
				return nil
			}
			if scale(c.Len(t.args[0].args[0]), big.NewInt(bitsOf(l))) != scale(t.args[1], big.NewInt(xb)) {
				return nil
			}
			low = l
		case t.op == "lit" && c.IsDig(b, t) == True:
		default:
			return nil
		}
	}
	if low == 0 || xb%bitsOf(low) != 0 {
		return nil
	}
	var out []*Term
	for _, t := range segs(s) {
		if t.op == "lit" {
			out = append(out, Lit(digits(low, litVal(b, t.s), len(t.s)*int(xb/bitsOf(low)))))
		} else {
			out = append(out, t.args[0].args[0])
		}
	}
	return mkVal(low, c.Cat(out...))
}

// Dig is the w-digit representation of n in the base; the caller guarantees 0 <= n < base^w.
func (c *Ctx) Dig(base int64, n, w *Term) *Term {
	if w == zero {
		return Empty
	}
	if wk, ok := w.int64(); ok && n.isConst() && n.c.Sign() >= 0 && wk < 5000 {
		if n.c.Cmp(pow(base, wk)) < 0 {
			return Lit(digits(base, n.c, int(wk)))
		}
	}
	if n == zero {
		return c.Rep(zeroDigit(base), w)
	}
	if n.op == "val" {
		b1 := n.c.Int64()
		r := n.args[0]
		if b1 == base || (bitsOf(b1) > 0 && bitsOf(base) > 0) {
			x1, x2 := bitsOf(b1), bitsOf(base)
			if b1 == base {
				x1, x2 = 1, 1
			}
			have := scale(c.Len(r), big.NewInt(x1))
			want := scale(w, big.NewInt(x2))
			if have == want {
				return c.repack(b1, base, r, w)
			}
			if q, ok := divExact(have, x2); ok {
				pad := Sub(w, q)
				lo, _ := c.bounds(pad)
				if lo != nil && lo.Sign() >= 0 {
					return c.Cat(c.Rep(zeroDigit(base), pad), c.repack(b1, base, r, q))
				}
			} else if k, ok := have.int64(); ok { // pad to whole digits
				q := Int((k + x2 - 1) / x2)
				pad := Sub(w, q)
				lo, _ := c.bounds(pad)
				qk, _ := q.int64()
				if lo != nil && lo.Sign() >= 0 && (qk*x2-k)%x1 == 0 {
					r = c.Cat(c.Rep(zeroDigit(b1), Int((qk*x2-k)/x1)), r)
					return c.Cat(c.Rep(zeroDigit(base), pad), c.repack(b1, base, r, q))
				}
			}
		}
	}
	return c.digAtom(base, n, w)
}

func digits(base int64, n *big.Int, w int) string {
	if base == 256 {
		return string(n.FillBytes(make([]byte, w)))
	}
	s := n.Text(int(base))
	return strings.Repeat("0", w-len(s)) + s
}

func (c *Ctx) digAtom(base int64, n, w *Term) *Term {
	if w == one {
		// n = at(R,i) - 48 is the digit itself
		if base <= 16 {
			if a := Add(n, Int(48)); a.op == "at" {
				return c.Slice(a.args[0], a.args[1], Add(a.args[1], one))
			}
		} else if n.op == "at" {
			return c.Slice(n.args[0], n.args[1], Add(n.args[1], one))
		}
	}
	return c.atom(mk("dig", SSeq, big.NewInt(base), "", n, w))
}

// repack converts the digits r (base b1) into digits of base b2, where b1^len(r) = b2^w.
func (c *Ctx) repack(b1, b2 int64, r, w *Term) *Term {
	if b1 == b2 {
		var out []*Term
		for _, s := range segs(r) {
			out = append(out, c.canonDigits(b1, s))
		}
		return c.Cat(out...)
	}
	x1, x2 := bitsOf(b1), bitsOf(b2)
	var out []*Term
	var group []*Term
	used := zero
	flush := func(gw *Term) {
		g := c.Cat(group...)
		group = nil
		used = Add(used, gw)
		v := c.Val(b1, g)
		if v.op == "val" && v.c.Int64() == b1 && v.args[0] == g {
			out = append(out, c.digAtom(b2, v, gw))
		} else if v.op == "val" && v.c.Int64() == b1 { // leading zeros were stripped
			out = append(out, c.digAtom(b2, v, gw))
		} else {
			out = append(out, c.Dig(b2, v, gw))
		}
	}
	glen := zero
	for _, s := range segs(r) {
		group = append(group, s)
		glen = Add(glen, scale(c.Len(s), big.NewInt(x1)))
		if gw, ok := divExact(glen, x2); ok {
			flush(gw)
			glen = zero
		}
	}
	if len(group) > 0 {
		flush(Sub(w, used))
	}
	return c.Cat(out...)
}

// canonDigits is the canonical (lowercase) spelling of the digit segment s, whose bytes are taken as digits.
func (c *Ctx) canonDigits(b int64, s *Term) *Term {
	if b == 256 {
		return s
	}
	if c.lowerDigits(b, s) {
		return s
	}
	if s.op == "lit" {
		return Lit(digits(b, litVal(b, s.s), len(s.s)))
	}
	return c.digAtom(b, mkVal(b, s), c.Len(s))
}
func mkVal(b int64, s *Term) *Term { return mk("val", SInt, big.NewInt(b), "", s) }

// lowerDigits: s is known to consist of canonical digits of base b.
func (c *Ctx) lowerDigits(b int64, s *Term) bool {
	switch s.op {
	case "lit":
		for i := 0; i < len(s.s); i++ {
			ch := s.s[i]
			if b != 256 && ch >= 'A' && ch <= 'Z' {
				return false
			}
			if _, ok := digitVal(b, ch); !ok {
				return false
			}
		}
		return true
	case "dig", "min":
		return s.c.Int64() <= b && s.c.Int64() != 256
	case "cat":
		for _, a := range s.args {
			if !c.lowerDigits(b, a) {
				return false
			}
		}
		return true
	case "slice":
		return c.lowerDigits(b, s.args[0]) || b <= 10 && c.isDigits(b, s)
	case "rep":
		k, ok := s.args[0].int64()
		return ok && k >= '0' && k <= '9' && k-'0' < b
	case "ite":
		return c.lowerDigits(b, s.args[1]) && c.lowerDigits(b, s.args[2])
	case "chr":
		lo, hi := c.bounds(s.args[0])
		return lo != nil && hi != nil && lo.Cmp(big.NewInt(48)) >= 0 && hi.Cmp(big.NewInt(minI(57, 47+b))) <= 0
	case "uf":
		if s.s == "lowerhex" && b == 16 {
			return c.isDigits(16, s.args[0])
		}
	}
	if b <= 10 {
		return c.sub[UF("isdig", SBool, Int(b), s)] == True
	}
	return false
}
func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// isDigits: s is known to consist of digits of base b (any case).
func (c *Ctx) isDigits(b int64, s *Term) bool { return c.IsDig(b, s) == True }

// IsDig is the predicate "every byte of s is a digit of base b".
func (c *Ctx) IsDig(b int64, s *Term) *Term {
	if b == 256 {
		return True
	}
	switch s.op {
	case "lit":
		for i := 0; i < len(s.s); i++ {
			if _, ok := digitVal(b, s.s[i]); !ok {
				return False
			}
		}
		return True
	case "dig", "min":
		if d := s.c.Int64(); d <= b && d != 256 {
			return True
		}
	case "cat":
		var o []*Term
		for _, a := range s.args {
			o = append(o, c.IsDig(b, a))
		}
		return And(o...)
	case "rep":
		if k, ok := s.args[0].int64(); ok {
			_, is := digitVal(b, byte(k))
			if is {
				return True
			}
			return c.EqInt(s.args[1], zero)
		}
	case "slice":
		if c.IsDig(b, s.args[0]) == True {
			return True
		}
	case "chr":
		if c.lowerDigits(b, s) {
			return True
		}
	case "ite":
		return c.Ite(s.args[0], c.IsDig(b, s.args[1]), c.IsDig(b, s.args[2]))
	case "uf":
		if s.s == "lowerhex" {
			return c.IsDig(b, s.args[0])
		}
	}
	if b > 2 && c.sub[UF("isdig", SBool, Int(2), s)] == True {
		return True
	}
	return c.atom(UF("isdig", SBool, Int(b), s))
}

// Min is the shortest representation of n >= 0 in the base ("0" for zero; empty for zero in base 256).
func (c *Ctx) Min(base int64, n *Term) *Term {
	if n.isConst() && n.c.Sign() >= 0 {
		return Lit(digits(base, n.c, int(digitsOf(base, n.c))))
	}
	lo, hi := c.bounds(n)
	if lo != nil && hi != nil && lo.Sign() >= 0 && digitsOf(base, lo) == digitsOf(base, hi) {
		return c.Dig(base, n, Int(digitsOf(base, lo)))
	}
	return c.atom(mk("min", SSeq, big.NewInt(base), "", n))
}

// Mod and Div are Euclidean.
func (c *Ctx) Mod(x, m *Term) *Term {
	if !m.isConst() || m.c.Sign() <= 0 {
		if x.isConst() && m.isConst() && m.c.Sign() != 0 {
			return BigT(new(big.Int).Mod(x.c, m.c))
		}
		return c.atom(mk("mod", SInt, nil, "", x, m))
	}
	if x.isConst() {
		return BigT(new(big.Int).Mod(x.c, m.c))
	}
	if m == one {
		return zero
	}
	lo, hi := c.bounds(x)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m.c) < 0 {
		return x
	}
	// strip inner reductions and reduce coefficients
	for round := 0; round < 8; round++ {
		changed := false
		var parts []*Term
		for _, mo := range asPoly(x) {
			k := new(big.Int).Mod(mo.coef, m.c)
			if k.Cmp(mo.coef) != 0 {
				changed = true
			}
			p := BigT(k)
			for _, a := range mo.atoms {
				if a.op == "mod" && a.args[1].isConst() && new(big.Int).Mod(a.args[1].c, m.c).Sign() == 0 {
					p = Mul(p, a.args[0])
					changed = true
				} else {
					p = Mul(p, a)
				}
			}
			parts = append(parts, p)
		}
		if !changed {
			break
		}
		x = Add(parts...)
	}
	if x.isConst() {
		return BigT(new(big.Int).Mod(x.c, m.c))
	}
	if lo, hi := c.bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m.c) < 0 {
		return x
	}
	// coefficients of least absolute value
	{
		half := new(big.Int).Rsh(m.c, 1)
		var ms []mono
		for _, mo := range asPoly(x) {
			k := new(big.Int).Set(mo.coef)
			if k.Cmp(half) > 0 && len(mo.atoms) > 0 {
				k.Sub(k, m.c)
			}
			ms = append(ms, mono{k, mo.atoms})
		}
		y := fromMonos(ms)
		if lo, hi := c.bounds(y); lo != nil && hi != nil {
			a, b := floorDiv(lo, m.c), floorDiv(hi, m.c)
			if a.Cmp(b) == 0 {
				return Sub(y, BigT(new(big.Int).Mul(a, m.c)))
			}
		}
	}
	if k, ok := log2(m.c); ok && x.op == "val" {
		if b := bitsOf(x.c.Int64()); b > 0 && k%b == 0 {
			L := c.Len(x.args[0])
			cut := Sub(L, Int(k/b))
			if lo, _ := c.bounds(cut); lo != nil && lo.Sign() >= 0 {
				return c.Val(x.c.Int64(), c.Slice(x.args[0], cut, L))
			}
		}
	}
	return c.atom(mk("mod", SInt, nil, "", x, m))
}

func log2(n *big.Int) (int64, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := n.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(n) == 0 {
		return int64(k), true
	}
	return 0, false
}

func (c *Ctx) Div(x, m *Term) *Term {
	if m.isConst() && m.c.Sign() > 0 {
		if x.isConst() {
			return BigT(floorDiv(x.c, m.c))
		}
		if m == one {
			return x
		}
		var q, r []*Term
		for _, mo := range asPoly(x) {
			t := fromMonos([]mono{mo})
			if len(mo.atoms) > 0 && new(big.Int).Mod(mo.coef, m.c).Sign() == 0 {
				q = append(q, scale(fromMonos([]mono{{big.NewInt(1), mo.atoms}}), new(big.Int).Quo(mo.coef, m.c)))
			} else {
				r = append(r, t)
			}
		}
		rest := Add(r...)
		if rest.isConst() {
			return Add(append(q, BigT(floorDiv(rest.c, m.c)))...)
		}
		if lo, hi := c.bounds(rest); lo != nil && hi != nil {
			a, b := floorDiv(lo, m.c), floorDiv(hi, m.c)
			if a.Cmp(b) == 0 {
				return Add(append(q, BigT(a))...)
			}
		}
		if rest.op == "div" && rest.args[1].isConst() && rest.args[1].c.Sign() > 0 {
			return Add(append(q, c.Div(rest.args[0], BigT(new(big.Int).Mul(rest.args[1].c, m.c))))...)
		}
		if k, ok := log2(m.c); ok && rest.op == "val" {
			if b := bitsOf(rest.c.Int64()); b > 0 && k%b == 0 {
				L := c.Len(rest.args[0])
				cut := Sub(L, Int(k/b))
				if lo, _ := c.bounds(cut); lo != nil && lo.Sign() >= 0 {
					return Add(append(q, c.Val(rest.c.Int64(), c.Slice(rest.args[0], zero, cut)))...)
				}
			}
		}
		return Add(append(q, c.atom(mk("div", SInt, nil, "", rest, m)))...)
	}
	return c.atom(mk("div", SInt, nil, "", x, m))
}

// asBits gives the w-bit binary digits (most significant first) of n when n is built from digit sequences.
func (c *Ctx) asBits(n *Term, w int64) *Term {
	if n.isConst() && n.c.Sign() >= 0 && int64(n.c.BitLen()) <= w {
		return c.Dig(2, n, Int(w))
	}
	if n.op == "val" && bitsOf(n.c.Int64()) > 0 {
		r := c.Dig(2, n, Int(w))
		return r
	}
	if n.op == "poly" {
		type part struct {
			t     *Term
			shift int64
			width int64
		}
		var ps []part
		for _, m := range n.poly {
			if m.coef.Sign() < 0 {
				return nil
			}
			if len(m.atoms) == 0 {
				// constants: one part per set bit run is overkill; only support a constant below all others
				ps = append(ps, part{BigT(m.coef), 0, int64(m.coef.BitLen())})
				continue
			}
			if len(m.atoms) > 1 {
				return nil
			}
			k, ok := log2(m.coef)
			if !ok {
				return nil
			}
			lo, hi := c.bounds(m.atoms[0])
			if lo == nil || hi == nil || lo.Sign() < 0 {
				return nil
			}
			ps = append(ps, part{m.atoms[0], k, int64(hi.BitLen())})
		}
		for i := range ps {
			for j := i + 1; j < len(ps); j++ {
				if ps[j].shift > ps[i].shift {
					ps[i], ps[j] = ps[j], ps[i]
				}
			}
		}
		var out []*Term
		pos := w
		for _, p := range ps {
			if p.shift+p.width > pos {
				return nil
			}
			out = append(out, c.Rep(Int(48), Int(pos-p.shift-p.width)))
			var d *Term
			if p.t.op == "val" {
				d = c.asBits(p.t, p.width)
				if d == nil {
					return nil
				}
			} else {
				d = c.Dig(2, p.t, Int(p.width))
			}
			out = append(out, d)
			pos = p.shift
		}
		out = append(out, c.Rep(Int(48), Int(pos)))
		return c.Cat(out...)
	}
	lo, hi := c.bounds(n)
	if lo != nil && hi != nil && lo.Sign() >= 0 && int64(hi.BitLen()) <= w {
		return c.Dig(2, n, Int(w))
	}
	return nil
}

// ---- conditionals and equality ----

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == True {
		return x
	}
	if b == False {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		return Or(And(b, x), And(Not(b), y))
	}
	if b.op == "not" {
		return c.Ite(b.args[0], y, x)
	}
	// a bit added or not
	if b.op == "eq0" && x.sort == SInt {
		if d := Sub(x, y); d.isConst() {
			t := b.args[0]
			for k := int64(0); k < 2; k++ {
				v := Add(t, Int(k)) // the condition says v == k
				if v.op == "poly" || v.isConst() {
					continue
				}
				if lo, hi := c.bounds(v); lo != nil && hi != nil && lo.Sign() == 0 && hi.Cmp(big.NewInt(1)) == 0 {
					if k == 1 {
						return c.N(Add(y, scale(v, d.c)))
					}
					return c.N(Add(x, scale(v, new(big.Int).Neg(d.c))))
				}
			}
		}
	}
	// a binary digit, tested against '0'
	if b.op == "eq0" {
		p := b.args[0]
		for _, k := range []int64{48, 49} {
			a := Add(p, Int(k))
			if a.op == "at" && c.isDigits(2, a.args[0]) {
				z, o := x, y // value when the digit is k
				if k == 49 {
					z, o = y, x
				}
				if z == Lit("0") && o == Lit("1") {
					return c.Slice(a.args[0], a.args[1], Add(a.args[1], one))
				}
				if z == Int(48) && o == Int(49) {
					return a
				}
				if z.isConst() && o.isConst() && x.sort == SInt {
					// z + (o-z)*(a-48)
					return Add(z, Mul(Sub(o, z), Sub(a, Int(48))))
				}
				if x.sort == SInt {
					d := Sub(o, z)
					if d.isConst() {
						return Add(z, Mul(d, Sub(a, Int(48))))
					}
				}
				if x.sort == SSeq {
					// common prefix / suffix
					xs, ys := segs(z), segs(o)
					if len(xs) > 0 && len(ys) > 0 {
						if pre, zr, or := commonPrefix(z, o); pre != Empty {
							return c.Cat(pre, c.Ite(eqInt0(Sub(a, Int(48))), zr, or))
						}
						if suf, zr, or := commonSuffix(z, o); suf != Empty {
							return c.Cat(c.Ite(eqInt0(Sub(a, Int(48))), zr, or), suf)
						}
					}
				}
			}
		}
	}
	if x.sort == SSeq {
		if pre, xr, yr := commonPrefix(x, y); pre != Empty {
			return c.Cat(pre, c.Ite(b, xr, yr))
		}
		if suf, xr, yr := commonSuffix(x, y); suf != Empty {
			return c.Cat(c.Ite(b, xr, yr), suf)
		}
	}
	return c.atom(mk("ite", x.sort, nil, "", b, x, y))
}

func catRaw(ts []*Term) *Term {
	if len(ts) == 0 {
		return Empty
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("cat", SSeq, nil, "", ts...)
}

func commonPrefix(x, y *Term) (pre, xr, yr *Term) {
	a, b := segs(x), segs(y)
	var p []*Term
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			p = append(p, a[0])
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].op == "lit" && b[0].op == "lit" {
			k := 0
			for k < len(a[0].s) && k < len(b[0].s) && a[0].s[k] == b[0].s[k] {
				k++
			}
			if k > 0 {
				p = append(p, Lit(a[0].s[:k]))
				a = append([]*Term{Lit(a[0].s[k:])}, a[1:]...)
				b = append([]*Term{Lit(b[0].s[k:])}, b[1:]...)
				if a[0] == Empty {
					a = a[1:]
				}
				if b[0] == Empty {
					b = b[1:]
				}
			}
		}
		// a slice that is a prefix of a longer slice of the same base
		if len(a) > 0 && len(b) > 0 && len(p) == 0 && a[0].op == "slice" && b[0].op == "slice" && a[0].args[0] == b[0].args[0] && a[0].args[1] == b[0].args[1] {
			break
		}
		break
	}
	return catRaw(p), catRaw(a), catRaw(b)
}
func commonSuffix(x, y *Term) (suf, xr, yr *Term) {
	a, b := segs(x), segs(y)
	var p []*Term
	for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
		p = append([]*Term{a[len(a)-1]}, p...)
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return catRaw(p), catRaw(a), catRaw(b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	switch a.sort {
	case SInt:
		return c.EqInt(a, b)
	case SSeq:
		return c.EqSeq(a, b)
	case SBool:
		return Iff(a, b)
	}
	return c.EqList(a, b)
}

func (c *Ctx) EqList(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == "mklist" && b.op == "mklist" {
		if len(a.args) != len(b.args) {
			return False
		}
		var o []*Term
		for i := range a.args {
			o = append(o, c.EqSeq(a.args[i], b.args[i]))
		}
		return And(o...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.atom(mk("eq", SBool, nil, "", a, b))
}

func (c *Ctx) EqInt(a, b *Term) *Term {
	p := Sub(a, b)
	if p.isConst() {
		return boolT(p.c.Sign() == 0)
	}
	lo, hi := c.bounds(p)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return False
	}
	ms := asPoly(p)
	if len(ms) == 1 && len(ms[0].atoms) == 1 {
		switch x := ms[0].atoms[0]; {
		case x.isUF("bor"):
			return And(c.EqInt(x.args[0], zero), c.EqInt(x.args[1], zero))
		case x.isUF("bxor"):
			return c.EqInt(x.args[0], x.args[1])
		}
	}
	if len(ms) == 2 && len(ms[0].atoms) == 1 && len(ms[1].atoms) == 1 {
		x, y := ms[0].atoms[0], ms[1].atoms[0]
		sum := new(big.Int).Add(ms[0].coef, ms[1].coef)
		if sum.Sign() == 0 && x.op == "val" && y.op == "val" && x.c.Cmp(y.c) == 0 {
			r, s := x.args[0], y.args[0]
			base := x.c.Int64()
			if c.Len(r) == c.Len(s) && (base == 256 || (base == 2 && c.isDigits(2, r) && c.isDigits(2, s))) {
				return c.EqSeq(r, s)
			}
		}
		if sum.Sign() == 0 && x.op == "at" && y.op == "at" && c.sameDigit(x, y) {
			return True
		}
	}
	for _, m := range ms {
		if len(m.atoms) == 1 && m.atoms[0].op == "ite" {
			it := m.atoms[0]
			rest := Sub(p, fromMonos([]mono{m}))
			k := BigT(m.coef)
			return c.Ite(it.args[0], c.EqInt(Add(rest, Mul(k, it.args[1])), zero), c.EqInt(Add(rest, Mul(k, it.args[2])), zero))
		}
	}
	if c.sameBits(p) {
		return True
	}
	return c.atom(eqInt0(p))
}

func (c *Ctx) EqSeq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.EqSeq(a.args[1], b), c.EqSeq(a.args[2], b))
	}
	if b.op == "ite" {
		return c.Ite(b.args[0], c.EqSeq(a, b.args[1]), c.EqSeq(a, b.args[2]))
	}
	if ja, jb := joinedList(a), joinedList(b); ja != jb && (a.op == "cat" || b.op == "cat") {
		if ja {
			return c.EqSeq(c.expandJoin(a), b)
		}
		return c.EqSeq(a, c.expandJoin(b))
	}
	la, lb := c.Len(a), c.Len(b)
	d := Sub(la, lb)
	if lo, hi := c.bounds(d); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return False
	}
	A, B := segs(a), segs(b)
	var conj []*Term
	// from the left
	for len(A) > 0 && len(B) > 0 {
		if A[0] == B[0] {
			A, B = A[1:], B[1:]
			continue
		}
		if len(A) == 1 && len(B) == 1 {
			break
		}
		x, y := c.Len(A[0]), c.Len(B[0])
		df := Sub(x, y)
		if !df.isConst() {
			break
		}
		switch df.c.Sign() {
		case 0:
			conj = append(conj, c.eqSeg(A[0], B[0]))
			A, B = A[1:], B[1:]
		case 1:
			conj = append(conj, c.EqSeq(c.Slice(A[0], zero, y), B[0]))
			A = append(append([]*Term{}, segs(c.Slice(A[0], y, x))...), A[1:]...)
			B = B[1:]
		case -1:
			conj = append(conj, c.EqSeq(A[0], c.Slice(B[0], zero, x)))
			B = append(append([]*Term{}, segs(c.Slice(B[0], x, y))...), B[1:]...)
			A = A[1:]
		}
	}
	// from the right
	for len(A) > 0 && len(B) > 0 {
		i, j := len(A)-1, len(B)-1
		if A[i] == B[j] {
			A, B = A[:i], B[:j]
			continue
		}
		if len(A) == 1 && len(B) == 1 {
			break
		}
		x, y := c.Len(A[i]), c.Len(B[j])
		df := Sub(x, y)
		if !df.isConst() {
			break
		}
		switch df.c.Sign() {
		case 0:
			conj = append(conj, c.eqSeg(A[i], B[j]))
			A, B = A[:i], B[:j]
		case 1:
			conj = append(conj, c.EqSeq(c.Slice(A[i], Sub(x, y), x), B[j]))
			A = append(append([]*Term{}, A[:i]...), segs(c.Slice(A[i], zero, Sub(x, y)))...)
			B = B[:j]
		case -1:
			conj = append(conj, c.EqSeq(A[i], c.Slice(B[j], Sub(y, x), y)))
			B = append(append([]*Term{}, B[:j]...), segs(c.Slice(B[j], zero, Sub(y, x)))...)
			A = A[:i]
		}
	}
	switch {
	case len(A) == 0 && len(B) == 0:
	case len(A) == 0:
		conj = append(conj, c.EqInt(c.Len(c.Cat(B...)), zero))
	case len(B) == 0:
		conj = append(conj, c.EqInt(c.Len(c.Cat(A...)), zero))
	case len(A) == 1 && len(B) == 1:
		conj = append(conj, c.eqSeg(A[0], B[0]))
	default:
		x, y := c.Cat(A...), c.Cat(B...)
		if x == y {
			break
		}
		if x.id > y.id {
			x, y = y, x
		}
		if k := c.seqKey(x); k != "" && k == c.seqKey(y) {
			break
		}
		conj = append(conj, c.atom(mk("eq", SBool, nil, "", x, y)))
	}
	return And(conj...)
}

func joinedList(t *Term) bool { return t.isUF("join") && t.args[0].op == "mklist" }

// expandJoin: the words of a list of known length and the separators between them.
func (c *Ctx) expandJoin(t *Term) *Term {
	var o []*Term
	for i, w := range t.args[0].args {
		if i > 0 {
			o = append(o, t.args[1])
		}
		o = append(o, w)
	}
	return c.Cat(o...)
}

func (c *Ctx) eqSeg(x, y *Term) *Term {
	if x == y {
		return True
	}
	if x.op == "ite" || y.op == "ite" {
		return c.EqSeq(x, y)
	}
	if y.op != "lit" && x.op == "lit" {
		x, y = y, x
	}
	if x.op == "lit" && y.op == "lit" {
		return boolT(x.s == y.s)
	}
	if y.op == "lit" {
		switch x.op {
		case "dig":
			b := x.c.Int64()
			if w, ok := x.args[1].int64(); !ok {
				// the width must match
				return And(c.EqInt(x.args[1], Int(int64(len(y.s)))), c.atom(eqPair(x, y)))
			} else if int(w) != len(y.s) {
				return False
			}
			if !c.lowerDigits(b, y) {
				return False
			}
			v := litVal(b, y.s)
			if n := x.args[0]; n.op == "val" && n.c.Cmp(x.c) != 0 && (n.c.Int64() == 256 || n.c.Int64() == 2) {
				b1 := n.c.Int64()
				if L, ok := c.Len(n.args[0]).int64(); ok && (b1 == 256 || c.isDigits(2, n.args[0])) {
					if v.Cmp(pow(b1, L)) >= 0 {
						return False
					}
					return c.EqSeq(n.args[0], Lit(digits(b1, v, int(L))))
				}
			}
			return c.EqInt(x.args[0], BigT(v))
		case "min":
			b := x.c.Int64()
			if !c.lowerDigits(b, y) || (b != 256 && len(y.s) > 1 && y.s[0] == '0') || (b != 256 && len(y.s) == 0) || (b == 256 && len(y.s) > 0 && y.s[0] == 0) {
				return False
			}
			return c.EqInt(x.args[0], BigT(litVal(b, y.s)))
		case "rep":
			if k, ok := x.args[0].int64(); ok {
				for i := 0; i < len(y.s); i++ {
					if int64(y.s[i]) != k {
						return False
					}
				}
				return c.EqInt(x.args[1], Int(int64(len(y.s))))
			}
		case "chr":
			if len(y.s) != 1 {
				return False
			}
			return c.EqInt(x.args[0], Int(int64(y.s[0])))
		}
		if len(y.s) == 0 {
			return c.EqInt(c.Len(x), zero)
		}
		if len(y.s) == 1 && c.Len(x) == one {
			return c.EqInt(c.At(x, zero), Int(int64(y.s[0])))
		}
		return c.atom(eqPair(x, y))
	}
	if c.Len(x) == one && c.Len(y) == one {
		return c.EqInt(c.At(x, zero), c.At(y, zero))
	}
	if x.op == "dig" && y.op == "dig" && x.c.Cmp(y.c) == 0 && x.args[1] == y.args[1] {
		return c.EqInt(x.args[0], y.args[0])
	}
	if x.op == "rep" && y.op == "rep" && x.args[0] == y.args[0] {
		return c.EqInt(x.args[1], y.args[1])
	}
	if x.isUF("b58enc") && y.isUF("b58enc") {
		return c.EqSeq(x.args[0], y.args[0])
	}
	if x.isUF("join") && y.isUF("join") && x.args[1] == y.args[1] && x.args[0].op == "mklist" && y.args[0].op == "mklist" && len(x.args[0].args) == len(y.args[0].args) {
		// sufficient, not necessary: only used when it reduces to true
		if e := c.EqList(x.args[0], y.args[0]); e == True {
			return True
		}
	}
	if k := c.seqKey(x); k != "" && k == c.seqKey(y) {
		return True
	}
	return c.atom(eqPair(x, y))
}

func eqPair(x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	return mk("eq", SBool, nil, "", x, y)
}

// ---- assumptions ----

func occurs(a, t *Term) bool {
	if a == t {
		return true
	}
	for _, x := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, x := range m.atoms {
			if occurs(a, x) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) Assume(t *Term) {
	t = c.N(t)
	if t == True || c.dead {
		return
	}
	if t == False {
		c.dead = true
		c.pc = append(c.pc, False)
		return
	}
	if t.op == "and" {
		for _, x := range t.args {
			c.Assume(x)
		}
		return
	}
	if c.pcset[t] {
		return
	}
	c.detach()
	c.pc = append(c.pc, t)
	c.pcset[t] = true
	c.memo = map[*Term]*Term{}
	for k, v := range c.proofs {
		if v == 2 {
			delete(c.proofs, k)
		}
	}
	switch t.op {
	case "le0":
		p := t.args[0]
		ms := asPoly(p)
		k := polyConst(p)
		n := 0
		var at mono
		for _, m := range ms {
			if len(m.atoms) > 0 {
				n++
				at = m
			}
		}
		if n == 1 && len(at.atoms) == 1 {
			// coef*a + k <= 0
			neg := new(big.Int).Neg(k)
			if at.coef.Sign() > 0 {
				h := floorDiv(neg, at.coef)
				if o, ok := c.hi[at.atoms[0]]; !ok || h.Cmp(o) < 0 {
					c.hi[at.atoms[0]] = h
				}
			} else {
				l := new(big.Int).Neg(floorDiv(neg, new(big.Int).Neg(at.coef)))
				if o, ok := c.lo[at.atoms[0]]; !ok || l.Cmp(o) > 0 {
					c.lo[at.atoms[0]] = l
				}
			}
			c.lengthBounds(at.atoms[0])
			if lo, hi := c.bounds(at.atoms[0]); lo != nil && hi != nil {
				if lo.Cmp(hi) > 0 {
					c.dead = true
				} else if lo.Cmp(hi) == 0 {
					if _, ok := c.sub[at.atoms[0]]; !ok {
						c.addSub(at.atoms[0], BigT(lo))
					}
				}
			}
		}
		c.sub[t] = True
		c.sub[Not(t)] = False
	case "eq0":
		c.sub[t] = True
		p := t.args[0]
		var best *mono
		for i := range asPoly(p) {
			m := &asPoly(p)[i]
			if len(m.atoms) != 1 || !(m.coef.IsInt64() && (m.coef.Int64() == 1 || m.coef.Int64() == -1)) {
				continue
			}
			a := m.atoms[0]
			rest := Sub(p, fromMonos([]mono{*m}))
			if occurs(a, rest) {
				continue
			}
			pr := func(x *Term) int {
				switch {
				case rest.isConst():
					return 5
				case x.op == "ivar" && strings.HasPrefix(x.s, "it!"):
					return 4
				case x.op == "ivar":
					return 3
				case x.op == "len":
					return 1
				}
				return 0
			}
			if best == nil || pr(a) > pr(best.atoms[0]) {
				if pr(a) > 0 {
					best = m
				}
			}
		}
		if best != nil {
			rest := Sub(p, fromMonos([]mono{*best}))
			if best.coef.Sign() > 0 {
				rest = Neg(rest)
			}
			c.addSub(best.atoms[0], rest)
		}
	case "eq":
		c.sub[t] = True
		x, y := t.args[0], t.args[1]
		if x.sort == SSeq {
			if y.op == "svar" && x.op != "svar" || x.op == "lit" {
				x, y = y, x
			}
			switch {
			case y.op == "lit" && x.op != "cat":
				c.addSub(x, y)
			case x.op == "svar" && !occurs(x, y):
				c.addSub(x, y)
			}
		}
	case "not":
		c.sub[t.args[0]] = False
		if p := t.args[0]; p.op == "eq0" {
			// a bound that is not taken
			if ms := asPoly(p.args[0]); len(ms) > 0 && len(ms) <= 2 {
				for _, m := range ms {
					if len(m.atoms) != 1 || m.coef.CmpAbs(big.NewInt(1)) != 0 || m.atoms[0].op != "mod" {
						continue
					}
					rest := Sub(p.args[0], fromMonos([]mono{m}))
					if !rest.isConst() {
						break
					}
					k := rest.c
					if m.coef.Sign() > 0 {
						k = new(big.Int).Neg(k)
					}
					lo, hi := c.bounds(m.atoms[0])
					if lo != nil && lo.Cmp(k) == 0 {
						c.Assume(Lt(BigT(k), m.atoms[0]))
					} else if hi != nil && hi.Cmp(k) == 0 {
						c.Assume(Lt(m.atoms[0], BigT(k)))
					}
				}
			}
		}
		if w, ok := c.ways[t.args[0]]; ok {
			c.Assume(w[1])
		}
	default:
		c.sub[t] = True
		if w, ok := c.ways[t]; ok {
			c.Assume(w[0])
		}
	}
	c.pickBranch(t)
}

// pickBranch: a comparison that rules out one of the values of a conditional number decides its condition.
func (c *Ctx) pickBranch(t *Term) {
	x := t
	if t.op == "not" {
		x = t.args[0]
	}
	if x.op != "le0" && x.op != "eq0" {
		return
	}
	p := x.args[0]
	for _, m := range asPoly(p) {
		if len(m.atoms) != 1 || m.atoms[0].op != "ite" {
			continue
		}
		a := m.atoms[0]
		rest := Sub(p, fromMonos([]mono{m}))
		for i := 1; i <= 2; i++ {
			q := Add(rest, scale(a.args[i], m.coef))
			var r *Term
			if x.op == "le0" {
				r = c.le0(c.N(q))
			} else {
				r = c.EqInt(c.N(q), zero)
			}
			if t.op == "not" {
				r = Not(r)
			}
			if r != False {
				continue
			}
			if i == 1 {
				c.Assume(Not(a.args[0]))
			} else {
				c.Assume(a.args[0])
			}
			if !c.dead {
				c.addSub(a, c.N(a.args[3-i]))
			}
			return
		}
	}
}

// lengthBounds: what bounds on the number of digits say about the number.
func (c *Ctx) lengthBounds(a *Term) {
	if a.op != "len" || a.args[0].op != "min" || c.dead {
		return
	}
	m := a.args[0]
	b, n := m.c.Int64(), m.args[0]
	if h := c.hi[a]; h != nil && h.Sign() > 0 && h.Cmp(big.NewInt(5000)) < 0 {
		c.Assume(Lt(n, BigT(pow(b, h.Int64()))))
	}
	if l := c.lo[a]; l != nil && l.Cmp(big.NewInt(5000)) < 0 && (l.Int64() > 1 || l.Int64() == 1 && b == 256) {
		c.Assume(Le(BigT(pow(b, l.Int64()-1)), n))
	}
}

func (c *Ctx) addSub(a, t *Term) {
	if occurs(a, t) {
		return
	}
	c.detach()
	c.sub[a] = t
	c.memo = map[*Term]*Term{}
	for k, v := range c.sub {
		if k != a && occurs(a, v) {
			c.sub[k] = c.N(v)
		}
	}
	c.memo = map[*Term]*Term{}
	// what is known about a is known about t
	if a.sort == SInt {
		if l, ok := c.lo[a]; ok {
			c.Assume(Le(BigT(l), t))
		}
		if h, ok := c.hi[a]; ok {
			c.Assume(Le(t, BigT(h)))
		}
	}
	for _, p := range c.pc[:len(c.pc):len(c.pc)] {
		if (p.op == "le0" || p.op == "eq0") && occurs(a, p) {
			q := c.N(p.args[0])
			if p.op == "le0" {
				c.Assume(c.le0(q))
			} else {
				c.Assume(c.EqInt(q, zero))
			}
		}
	}
	// the last bit, as a remainder and as a digit
	if a.op == "mod" && a.args[1].isConst() && a.args[1].c.Cmp(big.NewInt(2)) == 0 && t.isConst() && !c.dead {
		if _, hi := c.bounds(a.args[0]); hi != nil {
			if b := bitTerm(c, a.args[0], 0); !b.isConst() {
				if g := c.EqInt(b, t); g != True {
					c.Assume(g)
				}
			}
		}
	}
	// numbers of known length
	if a.op == "len" && a.args[0].op == "min" && t.isConst() && t.c.IsInt64() && t.c.Int64() > 0 && t.c.Int64() < 5000 {
		m := a.args[0]
		b, w := m.c.Int64(), t.c.Int64()
		n := m.args[0]
		if w > 1 || b == 256 {
			c.Assume(Le(BigT(pow(b, w-1)), n))
		}
		c.Assume(Lt(n, BigT(pow(b, w))))
		if _, ok := c.sub[m]; !ok && !c.dead {
			c.addSub(m, c.Dig(b, c.N(n), t))
		}
	}
}

// proveQuick decides with rewriting and bounds, then with a short solver call.
func (c *Ctx) proveQuick(t *Term) bool {
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	return c.Prove(t)
}

// Prove: the path condition implies t.
func (c *Ctx) Prove(t *Term) bool { return c.prove(t, c.quick) }

// prove; quick: with the relevant part of a long path condition only.
func (c *Ctx) prove(t *Term, quick bool) bool {
	if c.dead {
		return true
	}
	t = c.N(t)
	if t == True || c.pcset[t] {
		return true
	}
	if t == False || c.pcset[Not(t)] {
		// refuted unless the path itself is infeasible, which is checked separately
		return false
	}
	if v, ok := c.proofs[t]; ok {
		return v == 1
	}
	if t.op == "and" {
		for _, x := range t.args {
			if !c.prove(x, quick) {
				return false
			}
		}
		return true
	}
	if c.slv == nil {
		return false
	}
	if len(c.pc) > 14 {
		if rel := c.relevant(t); len(rel) <= len(c.pc)*3/4 {
			if c.slv.checkIn(c, rel, Not(t)) == "unsat" {
				c.proofs[t] = 1
				return true
			}
			if quick {
				return false
			}
		}
	}
	r := c.slv.check(c, Not(t))
	switch r {
	case "unsat":
		c.proofs[t] = 1
		return true
	default:
		c.proofs[t] = 2
	}
	return false
}

// proveBits: as Prove, by the bits.
func (c *Ctx) proveBits(t *Term) bool {
	if t.op == "and" {
		for _, x := range t.args {
			if !c.Prove(x) && !c.proveBits(x) {
				return false
			}
		}
		return true
	}
	if t == True || c.slv == nil || c.slv.checkBits(c, c.pc, Not(t)) != "unsat" {
		return t == True
	}
	c.proofs[t] = 1
	return true
}

// Feasible: the path condition is not known to be contradictory.
func (c *Ctx) Feasible() bool {
	if c.dead {
		return false
	}
	if c.slv == nil {
		return true
	}
	return c.slv.checkFor(c, c.pc, True, 400) != "unsat"
}

// Infeasible: the path condition is contradictory, with the full effort of the solvers.
func (c *Ctx) Infeasible() bool {
	return c.dead || c.slv != nil && (c.slv.check(c, True) == "unsat" || c.slv.checkBits(c, c.pc, True) == "unsat")
}

// primeProduct: a product of numbers between 1 and m-1, modulo a prime m (the group order or the field prime), is not 0.
func (c *Ctx) primeProduct(t *Term) bool {
	m := t.args[1].c
	if m.Cmp(ecN) != 0 && m.Cmp(ecP) != 0 {
		return false
	}
	ms := asPoly(t.args[0])
	if len(ms) != 1 || len(ms[0].atoms) < 2 || new(big.Int).Mod(ms[0].coef, m).Sign() == 0 {
		return false
	}
	for _, a := range ms[0].atoms {
		lo, hi := c.bounds(a)
		if lo == nil || hi == nil || lo.Sign() <= 0 || hi.Cmp(m) >= 0 {
			return false
		}
	}
	return true
}
