package main

import (
	"math/big"
	"strconv"
	"strings"
)

// Bit-level normal form: numbers and byte sequences of known size as vectors of bits, each a constant or one bit
// of a source term. Two terms with the same vector are equal in every model of the path condition the vectors
// were computed in.

type bit struct {
	src *Term // nil: the constant k
	k   int32 // sequence sources: position counted from the first bit of the sequence; numbers: from the least significant
	neg bool
}

const maxBits = 2200

var bit0, bit1 = bit{}, bit{k: 1}

// intBits: the low w bits of n (least significant first), with 0 <= n; nil if not known.
func (c *Ctx) intBits(n *Term, w int, depth int) []bit {
	if w < 0 || w > maxBits || depth > 24 {
		return nil
	}
	out := make([]bit, w)
	put := func(src []bit) []bit { // zero-extend or cut to w
		copy(out, src)
		return out
	}
	switch n.op {
	case "iconst":
		if n.c.Sign() < 0 {
			return nil
		}
		for i := range out {
			if n.c.Bit(i) == 1 {
				out[i] = bit1
			}
		}
		return out
	case "at":
		if k, ok := n.args[1].int64(); ok && k >= 0 {
			if bs := c.seqBits(n.args[0], k, k+1, depth+1); bs != nil {
				return put(reverse(bs))
			}
		}
		return nil
	case "val":
		L, ok := c.Len(n.args[0]).int64()
		if !ok || L > maxBits {
			return nil
		}
		var bs []bit
		if n.c.Int64() == 256 {
			bs = c.seqBits(n.args[0], 0, L, depth+1)
		} else {
			bs = c.digitBits(n.c.Int64(), n.args[0], 0, L, depth+1)
		}
		if bs == nil {
			return nil
		}
		put(reverse(bs))
		if _, hi := c.bounds(n); hi != nil && hi.Sign() >= 0 { // the digits above a bound are zero
			for i := hi.BitLen(); i < w; i++ {
				out[i] = bit0
			}
		}
		return out
	case "mod":
		if n.args[1].isConst() {
			if k, ok := log2(n.args[1].c); ok {
				m := int(k)
				if m > w {
					m = w
				}
				if lo, _ := c.bounds(n.args[0]); lo == nil || lo.Sign() < 0 {
					break
				}
				bs := c.intBits(n.args[0], m, depth+1)
				if bs == nil {
					return nil
				}
				return put(bs)
			}
		}
	case "div":
		if n.args[1].isConst() {
			if k, ok := log2(n.args[1].c); ok && int(k)+w <= maxBits {
				bs := c.intBits(n.args[0], int(k)+w, depth+1)
				if bs == nil {
					return nil
				}
				return put(bs[k:])
			}
		}
	case "ite":
		a, b := c.intBits(n.args[1], w, depth+1), c.intBits(n.args[2], w, depth+1)
		t, ok := c.condBit(n.args[0], depth+1)
		if a == nil || b == nil || !ok {
			return nil
		}
		for i := range out {
			switch {
			case a[i] == b[i]:
				out[i] = a[i]
			case a[i] == bit1 && b[i] == bit0:
				out[i] = t
			case a[i] == bit0 && b[i] == bit1:
				t2 := t
				t2.neg = !t.neg
				out[i] = t2
			default:
				return nil
			}
		}
		return out
	case "poly":
		return c.polyBits(n, w, depth)
	}
	lo, hi := c.bounds(n)
	if lo == nil || lo.Sign() < 0 {
		return nil
	}
	top := w
	if hi != nil && hi.BitLen() < w {
		top = hi.BitLen()
	}
	for i := 0; i < top; i++ {
		out[i] = bit{src: n, k: int32(i)}
	}
	return out
}

func reverse(b []bit) []bit {
	o := make([]bit, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// polyBits: a sum of parts that do not overlap.
func (c *Ctx) polyBits(n *Term, w, depth int) []bit {
	k := new(big.Int).Set(polyConst(n))
	type part struct {
		bs    []bit
		shift int
	}
	var ps []part
	for _, m := range asPoly(n) {
		if len(m.atoms) == 0 {
			continue
		}
		if len(m.atoms) != 1 || m.coef.Sign() <= 0 {
			return nil
		}
		a := m.atoms[0]
		sh, ok := log2(m.coef)
		if !ok {
			return nil
		}
		if int(sh) >= w {
			return nil
		}
		if a.op == "at" && c.isDigits(2, a.args[0]) { // a binary digit: 48 plus the bit
			i, ok := a.args[1].int64()
			if !ok || i < 0 {
				return nil
			}
			bs := c.digitBits(2, a.args[0], i, i+1, depth+1)
			if bs == nil {
				return nil
			}
			k.Add(k, new(big.Int).Lsh(big.NewInt(48), uint(sh)))
			ps = append(ps, part{bs, int(sh)})
			continue
		}
		lo, hi := c.bounds(a)
		if lo == nil || lo.Sign() < 0 || hi == nil {
			return nil
		}
		bs := c.intBits(a, hi.BitLen(), depth+1)
		if bs == nil {
			return nil
		}
		ps = append(ps, part{bs, int(sh)})
	}
	if k.Sign() < 0 {
		return nil
	}
	size := k.BitLen()
	for _, p := range ps {
		if s := p.shift + len(p.bs); s > size {
			size = s
		}
	}
	if size > maxBits {
		return nil
	}
	all := make([]bit, size)
	for i := range all {
		if k.Bit(i) == 1 {
			all[i] = bit1
		}
	}
	for _, p := range ps {
		for i, b := range p.bs {
			if b == bit0 {
				continue
			}
			if all[p.shift+i] != bit0 {
				return nil
			}
			all[p.shift+i] = b
		}
	}
	out := make([]bit, w)
	copy(out, all)
	return out
}

// condBit: the bit that is 1 exactly when the condition holds.
func (c *Ctx) condBit(t *Term, depth int) (bit, bool) {
	if t.op == "not" {
		b, ok := c.condBit(t.args[0], depth)
		b.neg = !b.neg
		return b, ok && b.src != nil
	}
	if t.op == "and" || t.op == "or" { // the same bit, seen in different ways
		var b bit
		for i, a := range t.args {
			x, ok := c.condBit(a, depth)
			if !ok || i > 0 && x != b {
				return bit{}, false
			}
			b = x
		}
		return b, len(t.args) > 0
	}
	if t.op == "eq0" {
		for _, v := range []int64{48, 49, 0, 1} { // bit == v
			x := Add(t.args[0], Int(v))
			var bs []bit
			if v >= 48 {
				if x.op != "at" || !c.isDigits(2, x.args[0]) {
					continue
				}
				i, ok := x.args[1].int64()
				if !ok {
					continue
				}
				bs = c.digitBits(2, x.args[0], i, i+1, depth+1)
			} else {
				lo, hi := c.bounds(x)
				if lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > 1 {
					continue
				}
				bs = c.intBits(x, 1, depth+1)
			}
			if len(bs) == 1 && bs[0].src != nil {
				b := bs[0]
				if v == 48 || v == 0 {
					b.neg = !b.neg
				}
				return b, true
			}
		}
	}
	return bit{}, false
}

// seqBits: the bits of bytes lo to hi of s, first byte and most significant bit first.
func (c *Ctx) seqBits(s *Term, lo, hi int64, depth int) []bit {
	if depth > 24 || lo < 0 || hi < lo || (hi-lo)*8 > maxBits {
		return nil
	}
	if lo == hi {
		return []bit{}
	}
	switch s.op {
	case "lit":
		if int(hi) > len(s.s) {
			return nil
		}
		var out []bit
		for _, ch := range []byte(s.s[lo:hi]) {
			for j := 7; j >= 0; j-- {
				out = append(out, bit{k: int32(ch >> uint(j) & 1)})
			}
		}
		return out
	case "cat":
		var out []bit
		off := int64(0)
		for _, a := range s.args {
			if off >= hi {
				break
			}
			L, ok := c.Len(a).int64()
			if !ok {
				return nil
			}
			l, h := maxI(lo, off), minI(hi, off+L)
			if l < h {
				bs := c.seqBits(a, l-off, h-off, depth+1)
				if bs == nil {
					return nil
				}
				out = append(out, bs...)
			}
			off += L
		}
		if int64(len(out)) != (hi-lo)*8 {
			return nil
		}
		return out
	case "slice":
		if l, ok := s.args[1].int64(); ok {
			return c.seqBits(s.args[0], l+lo, l+hi, depth+1)
		}
	case "rep":
		var out []bit
		if v, ok := s.args[0].int64(); ok {
			for i := lo; i < hi; i++ {
				for j := 7; j >= 0; j-- {
					out = append(out, bit{k: int32(v >> uint(j) & 1)})
				}
			}
			return out
		}
		return nil
	case "chr":
		bs := c.intBits(s.args[0], 8, depth+1)
		if bs == nil {
			return nil
		}
		return reverse(bs)
	case "dig":
		w, ok := s.args[1].int64()
		if !ok || hi > w {
			return nil
		}
		switch s.c.Int64() {
		case 256:
			if w*8 > maxBits {
				return nil
			}
			bs := c.intBits(s.args[0], int(w*8), depth+1)
			if bs == nil {
				return nil
			}
			return reverse(bs)[lo*8 : hi*8]
		case 2:
			bs := c.digitBits(2, s, lo, hi, depth+1)
			if bs == nil {
				return nil
			}
			var out []bit
			for _, b := range bs {
				out = append(out, bit0, bit0, bit1, bit1, bit0, bit0, bit0, b)
			}
			return out
		}
	case "ite", "min":
		return nil
	}
	if lh, _ := c.bounds(c.Len(s)); lh == nil || lh.Cmp(big.NewInt(hi)) < 0 {
		return nil
	}
	var out []bit
	for i := lo * 8; i < hi*8; i++ {
		out = append(out, bit{src: s, k: int32(i)})
	}
	return out
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// digitBits: the bits of the values of digits lo to hi of s (base 2 or 16), first digit first.
func (c *Ctx) digitBits(base int64, s *Term, lo, hi int64, depth int) []bit {
	x := bitsOf(base)
	if depth > 24 || lo < 0 || hi < lo || (hi-lo)*x > maxBits || x == 0 || x == 8 {
		return nil
	}
	if lo == hi {
		return []bit{}
	}
	switch s.op {
	case "lit":
		if int(hi) > len(s.s) {
			return nil
		}
		var out []bit
		for _, ch := range []byte(s.s[lo:hi]) {
			d, ok := digitVal(base, ch)
			if !ok {
				return nil
			}
			for j := x - 1; j >= 0; j-- {
				out = append(out, bit{k: int32(d >> uint(j) & 1)})
			}
		}
		return out
	case "cat":
		var out []bit
		off := int64(0)
		for _, a := range s.args {
			if off >= hi {
				break
			}
			L, ok := c.Len(a).int64()
			if !ok {
				return nil
			}
			l, h := maxI(lo, off), minI(hi, off+L)
			if l < h {
				bs := c.digitBits(base, a, l-off, h-off, depth+1)
				if bs == nil {
					return nil
				}
				out = append(out, bs...)
			}
			off += L
		}
		if int64(len(out)) != (hi-lo)*x {
			return nil
		}
		return out
	case "slice":
		if l, ok := s.args[1].int64(); ok {
			return c.digitBits(base, s.args[0], l+lo, l+hi, depth+1)
		}
	case "rep":
		if v, ok := s.args[0].int64(); ok {
			d, ok := digitVal(base, byte(v))
			if !ok {
				return nil
			}
			var out []bit
			for i := lo; i < hi; i++ {
				for j := x - 1; j >= 0; j-- {
					out = append(out, bit{k: int32(d >> uint(j) & 1)})
				}
			}
			return out
		}
	case "chr":
		n := Sub(s.args[0], Int(48))
		l, h := c.bounds(n)
		if l == nil || h == nil || l.Sign() < 0 || h.Cmp(big.NewInt(minI(9, base-1))) > 0 {
			return nil
		}
		bs := c.intBits(n, int(x), depth+1)
		if bs == nil {
			return nil
		}
		return reverse(bs)
	case "dig":
		w, ok := s.args[1].int64()
		if !ok || hi > w {
			return nil
		}
		if s.c.Int64() != base || w*x > maxBits {
			return nil
		}
		bs := c.intBits(s.args[0], int(w*x), depth+1)
		if bs == nil {
			return nil
		}
		return reverse(bs)[lo*x : hi*x]
	case "svar":
		if base == 2 && c.isDigits(2, s) { // '0' and '1' differ in the last bit
			bs := c.seqBits(s, lo, hi, depth+1)
			if bs == nil {
				return nil
			}
			var out []bit
			for i := 7; i < len(bs); i += 8 {
				out = append(out, bs[i])
			}
			return out
		}
	}
	return nil
}

func bitKey(bs []bit) string {
	var b strings.Builder
	for i := 0; i < len(bs); {
		// runs of adjacent bits
		x := bs[i]
		j := i + 1
		if x.src != nil && j < len(bs) && bs[j].src == x.src && bs[j].neg == x.neg && (bs[j].k == x.k+1 || bs[j].k == x.k-1) {
			d := bs[j].k - x.k
			for j < len(bs) && bs[j].src == x.src && bs[j].neg == x.neg && bs[j].k == x.k+d*int32(j-i) {
				j++
			}
			b.WriteByte(byte('m' + d))
		}
		if x.src == nil {
			for j < len(bs) && bs[j] == x {
				j++
			}
			b.WriteByte(byte('0' + x.k))
		} else {
			b.WriteString(strconv.Itoa(x.src.id))
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(int(x.k)))
			if x.neg {
				b.WriteByte('!')
			}
		}
		b.WriteByte('x')
		b.WriteString(strconv.Itoa(j - i))
		b.WriteByte(' ')
		i = j
	}
	return b.String()
}

// seqKey and numKey: the bit-level normal form of a term, "" if there is none.
func (c *Ctx) seqKey(t *Term) string {
	if t.open {
		return ""
	}
	L, ok := c.Len(t).int64()
	if !ok || L == 0 || L*8 > maxBits {
		return ""
	}
	bs := c.seqBits(t, 0, L, 0)
	if bs == nil {
		return ""
	}
	return bitKey(bs)
}

func (c *Ctx) numKey(t *Term) string {
	if t.open {
		return ""
	}
	lo, hi := c.bounds(t)
	if lo == nil || lo.Sign() < 0 {
		return ""
	}
	w := maxBits
	if hi != nil && hi.BitLen() < w {
		w = hi.BitLen()
	}
	if w == maxBits {
		return ""
	}
	bs := c.intBits(t, w, 0)
	if bs == nil {
		return ""
	}
	for len(bs) > 0 && bs[len(bs)-1] == bit0 {
		bs = bs[:len(bs)-1]
	}
	return bitKey(bs)
}

var bitReps = map[string][]*Term{}

// canonBits replaces a sequence or number by the first term seen with the same bits that has them here too.
func (c *Ctx) canonBits(t *Term) *Term {
	if t.open || t.op == "lit" || t.op == "iconst" || t.op == "svar" || t.op == "ivar" || t.op == "uf" {
		return t
	}
	key := c.bitsOfTerm(t)
	if key == "" {
		return t
	}
	full := string(byte('0'+t.sort)) + key
	for _, r := range bitReps[full] {
		if r == t || c.bitsOfTerm(r) == key {
			return r
		}
	}
	if len(bitReps[full]) < 6 {
		bitReps[full] = append(bitReps[full], t)
	}
	return t
}

func (c *Ctx) bitsOfTerm(t *Term) string {
	if t.sort == SSeq {
		return c.seqKey(t)
	}
	return c.numKey(t)
}

// sameDigit: two characters of hexadecimal numbers in lower case with the same bits.
func (c *Ctx) sameDigit(x, y *Term) bool {
	var key [2]string
	for i, t := range []*Term{x, y} {
		k, ok := t.args[1].int64()
		if t.open || !ok || k < 0 || !c.lowerDigits(16, t.args[0]) {
			return false
		}
		bs := c.digitBits(16, t.args[0], k, k+1, 0)
		if bs == nil {
			return false
		}
		key[i] = bitKey(bs)
	}
	return key[0] == key[1]
}

// sameBits: the positive and the negative part of p have the same bits, so p is 0.
func (c *Ctx) sameBits(p *Term) bool {
	if p.op != "poly" {
		return false
	}
	worth := false
	var pos, neg []mono
	for _, m := range p.poly {
		for _, a := range m.atoms {
			switch a.op {
			case "val", "at", "div", "mod":
				worth = true
			}
		}
		if m.coef.Sign() > 0 {
			pos = append(pos, m)
		} else {
			neg = append(neg, mono{new(big.Int).Neg(m.coef), m.atoms})
		}
	}
	if !worth {
		return false
	}
	a := c.numKey(fromMonos(pos))
	return a != "" && a == c.numKey(fromMonos(neg))
}
