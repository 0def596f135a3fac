package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts of terms.
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SSeq  // byte sequences: Go strings and []byte contents
	SList // sequences of byte sequences: []string contents
)

// Term is an immutable, interned term. Two terms are structurally equal iff they are the same pointer.
type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	c    *big.Int // constant payload (iconst, base of val/dig/min)
	s    string   // name or literal payload
	poly []mono   // op == "poly"
	open bool     // contains a bound variable
}

// mono is coef * product(atoms).
type mono struct {
	coef  *big.Int
	atoms []*Term // sorted by id, with multiplicity
}

var (
	internTab = map[string]*Term{}
	termCount int
	allTerms  []*Term
)

func mk(op string, srt Sort, c *big.Int, s string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('/')
	b.WriteByte(byte('0' + srt))
	if c != nil {
		b.WriteByte('#')
		b.WriteString(c.Text(62))
	}
	if s != "" || op == "lit" {
		b.WriteByte('$')
		b.WriteString(strconv.Itoa(len(s)))
		b.WriteByte(':')
		b.WriteString(s)
	}
	open := op == "bound"
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		open = open || a.open
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	t := &Term{id: termCount, op: op, sort: srt, args: args, c: c, s: s, open: open}
	termCount++
	internTab[k] = t
	return t
}

func mkPoly(p []mono) *Term {
	var b strings.Builder
	b.WriteString("poly")
	open := false
	for _, m := range p {
		b.WriteByte(';')
		b.WriteString(m.coef.Text(62))
		for _, a := range m.atoms {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(a.id))
			open = open || a.open
		}
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	t := &Term{id: termCount, op: "poly", sort: SInt, poly: p, open: open}
	termCount++
	internTab[k] = t
	return t
}

var (
	True  = mk("bconst", SBool, nil, "true")
	False = mk("bconst", SBool, nil, "false")
	Empty = mk("lit", SSeq, nil, "")
	zero  = Int(0)
	one   = Int(1)
)

func Int(n int64) *Term     { return BigT(big.NewInt(n)) }
func BigT(n *big.Int) *Term { return mk("iconst", SInt, new(big.Int).Set(n), "") }
func Lit(s string) *Term    { return mk("lit", SSeq, nil, s) }
func IVar(n string) *Term   { return mk("ivar", SInt, nil, n) }
func SVar(n string) *Term   { return mk("svar", SSeq, nil, n) }
func BVar(n string) *Term   { return mk("bvar", SBool, nil, n) }
func LVar(n string) *Term   { return mk("lvar", SList, nil, n) }
func Bound(n string) *Term  { return mk("bound", SInt, nil, n) }
func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func UF(name string, s Sort, args ...*Term) *Term { return mk("uf", s, nil, name, args...) }

var freshN = map[string]int{}

func freshName(p string) string {
	freshN[p]++
	return fmt.Sprintf("%s!%d", p, freshN[p])
}

func (t *Term) isConst() bool { return t.op == "iconst" }
func (t *Term) isInt(n int64) bool {
	return t.op == "iconst" && t.c.IsInt64() && t.c.Int64() == n
}
func (t *Term) int64() (int64, bool) {
	if t.op == "iconst" && t.c.IsInt64() {
		return t.c.Int64(), true
	}
	return 0, false
}
func (t *Term) isUF(n string) bool { return t.op == "uf" && t.s == n }

// ---- polynomials ----

func asPoly(t *Term) []mono {
	switch t.op {
	case "iconst":
		if t.c.Sign() == 0 {
			return nil
		}
		return []mono{{t.c, nil}}
	case "poly":
		return t.poly
	}
	return []mono{{big.NewInt(1), []*Term{t}}}
}

func monoKey(a []*Term) string {
	var b strings.Builder
	for _, x := range a {
		b.WriteString(strconv.Itoa(x.id))
		b.WriteByte('*')
	}
	return b.String()
}

func monoLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func fromMonos(ms []mono) *Term {
	m := map[string]int{}
	var out []mono
	for _, x := range ms {
		k := monoKey(x.atoms)
		if i, ok := m[k]; ok {
			out[i].coef = new(big.Int).Add(out[i].coef, x.coef)
		} else {
			m[k] = len(out)
			out = append(out, mono{new(big.Int).Set(x.coef), x.atoms})
		}
	}
	var res []mono
	for _, x := range out {
		if x.coef.Sign() != 0 {
			res = append(res, x)
		}
	}
	sort.Slice(res, func(i, j int) bool { return monoLess(res[i].atoms, res[j].atoms) })
	if len(res) == 0 {
		return zero
	}
	if len(res) == 1 && len(res[0].atoms) == 0 {
		return BigT(res[0].coef)
	}
	if len(res) == 1 && len(res[0].atoms) == 1 && res[0].coef.IsInt64() && res[0].coef.Int64() == 1 {
		return res[0].atoms[0]
	}
	return mkPoly(res)
}

func Add(ts ...*Term) *Term {
	var ms []mono
	for _, t := range ts {
		ms = append(ms, asPoly(t)...)
	}
	return fromMonos(ms)
}
func scale(t *Term, k *big.Int) *Term {
	var ms []mono
	for _, m := range asPoly(t) {
		ms = append(ms, mono{new(big.Int).Mul(m.coef, k), m.atoms})
	}
	return fromMonos(ms)
}
func Neg(t *Term) *Term    { return scale(t, big.NewInt(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	var ms []mono
	for _, x := range asPoly(a) {
		for _, y := range asPoly(b) {
			at := append(append([]*Term{}, x.atoms...), y.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			ms = append(ms, mono{new(big.Int).Mul(x.coef, y.coef), at})
		}
	}
	return fromMonos(ms)
}

// divExact returns t/k if every coefficient is divisible by k.
func divExact(t *Term, k int64) (*Term, bool) {
	kk := big.NewInt(k)
	var ms []mono
	for _, m := range asPoly(t) {
		q, r := new(big.Int).QuoRem(m.coef, kk, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		ms = append(ms, mono{q, m.atoms})
	}
	return fromMonos(ms), true
}

func polyConst(t *Term) *big.Int {
	for _, m := range asPoly(t) {
		if len(m.atoms) == 0 {
			return m.coef
		}
	}
	return new(big.Int)
}

// ---- booleans ----

func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.op == "not":
		return t.args[0]
	case t.op == "le0": // !(p<=0)  <=>  1-p <= 0
		return Le0(Sub(one, t.args[0]))
	case t.op == "and":
		var a []*Term
		for _, x := range t.args {
			a = append(a, Not(x))
		}
		return Or(a...)
	case t.op == "or":
		var a []*Term
		for _, x := range t.args {
			a = append(a, Not(x))
		}
		return And(a...)
	}
	return mk("not", SBool, nil, "", t)
}

func And(ts ...*Term) *Term { return nary("and", True, False, ts) }
func Or(ts ...*Term) *Term  { return nary("or", False, True, ts) }
func nary(op string, unit, absorb *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, SBool, nil, "", out...)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term {
	switch {
	case a == b:
		return True
	case a == True:
		return b
	case b == True:
		return a
	case a == False:
		return Not(b)
	case b == False:
		return Not(a)
	case a == Not(b):
		return False
	}
	return And(Implies(a, b), Implies(b, a))
}

// Le0 is p <= 0, with the polynomial divided by the gcd of its coefficients.
func Le0(p *Term) *Term {
	if p.isConst() {
		return boolT(p.c.Sign() <= 0)
	}
	g := new(big.Int)
	for _, m := range asPoly(p) {
		if len(m.atoms) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		var ms []mono
		for _, m := range asPoly(p) {
			if len(m.atoms) > 0 {
				ms = append(ms, mono{new(big.Int).Quo(m.coef, g), m.atoms})
			} else { // ceil division of the constant keeps the integer solutions
				q, r := new(big.Int).DivMod(m.coef, g, new(big.Int))
				if r.Sign() != 0 {
					q.Add(q, big.NewInt(1))
				}
				ms = append(ms, mono{q, nil})
			}
		}
		p = fromMonos(ms)
	}
	return mk("le0", SBool, nil, "", p)
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), one)) }

// eqInt0 is p == 0 (normalised sign and gcd).
func eqInt0(p *Term) *Term {
	if p.isConst() {
		return boolT(p.c.Sign() == 0)
	}
	ms := asPoly(p)
	g := new(big.Int)
	for _, m := range ms {
		if len(m.atoms) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
	}
	k := polyConst(p)
	if new(big.Int).Mod(k, g).Sign() != 0 {
		return False
	}
	if ms[0].coef.Sign() < 0 {
		g.Neg(g)
	}
	if !(g.IsInt64() && g.Int64() == 1) {
		var out []mono
		for _, m := range ms {
			out = append(out, mono{new(big.Int).Quo(m.coef, g), m.atoms})
		}
		p = fromMonos(out)
	}
	return mk("eq0", SBool, nil, "", p)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	sub := func(sep string) string {
		var o []string
		for _, a := range t.args {
			o = append(o, a.str(d+1))
		}
		return strings.Join(o, sep)
	}
	switch t.op {
	case "iconst":
		if t.c.BitLen() > 64 {
			return "0x" + t.c.Text(16)
		}
		return t.c.String()
	case "lit":
		if len(t.s) > 80 {
			return strconv.Quote(t.s[:80]) + "…"
		}
		return strconv.Quote(t.s)
	case "ivar", "svar", "bvar", "lvar", "bconst", "bound":
		return t.s
	case "poly":
		var o []string
		for _, m := range t.poly {
			var f []string
			if len(m.atoms) == 0 || !(m.coef.IsInt64() && m.coef.Int64() == 1) {
				if m.coef.BitLen() > 64 {
					f = append(f, "0x"+m.coef.Text(16))
				} else {
					f = append(f, m.coef.String())
				}
			}
			for _, a := range m.atoms {
				f = append(f, a.str(d+1))
			}
			o = append(o, strings.Join(f, "*"))
		}
		return "(" + strings.Join(o, " + ") + ")"
	case "uf":
		return t.s + "(" + sub(", ") + ")"
	case "cat":
		return "[" + sub(" ++ ") + "]"
	case "slice":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case "dig", "min", "val":
		return t.op + t.c.String() + "(" + sub(", ") + ")"
	case "and":
		return "(" + sub(" && ") + ")"
	case "or":
		return "(" + sub(" || ") + ")"
	case "not":
		return "!" + sub("")
	case "le0":
		return sub("") + "<=0"
	case "eq0":
		return sub("") + "==0"
	case "eq":
		return "(" + sub(" == ") + ")"
	}
	return t.op + t.s + "(" + sub(", ") + ")"
}
