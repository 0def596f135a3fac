package main

import (
	"fmt"
	"math/big"
	"strings"
)

// bitFacts adds, for the comparisons of a query whose sides are known bit by bit, what they say about the bits.
func (q *query) bitFacts(ts []*Term) int {
	n := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.open {
			return
		}
		seen[t] = true
		switch t.op {
		case "eq0", "eq", "le0":
			if f := q.bitFormula(t); f != "" {
				q.fact(fmt.Sprintf("(= %s %s)", q.expr(t, nil), f))
				n++
			}
		case "forall":
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				walk(a)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return n
}

func (q *query) bitName(b bit) string {
	if b.src == nil {
		if b.k == 1 {
			return "true"
		}
		return "false"
	}
	n := fmt.Sprintf("bit!%d!%d", b.src.id, b.k)
	q.declare(n, "() Bool")
	if b.neg {
		return "(not " + n + ")"
	}
	return n
}

// sides: the positive part and the negated negative part of p.
func sides(p *Term) (*Term, *Term) {
	var pos, neg []mono
	for _, m := range asPoly(p) {
		if m.coef.Sign() > 0 {
			pos = append(pos, m)
		} else {
			neg = append(neg, mono{new(big.Int).Neg(m.coef), m.atoms})
		}
	}
	return fromMonos(pos), fromMonos(neg)
}

func (q *query) bitFormula(t *Term) string {
	c := q.c
	var a, b []bit
	switch t.op {
	case "eq":
		x, y := t.args[0], t.args[1]
		if x.sort != SSeq {
			return ""
		}
		lx, ok1 := c.Len(x).int64()
		ly, ok2 := c.Len(y).int64()
		if !ok1 || !ok2 || lx != ly || lx > 64 {
			return ""
		}
		a, b = c.seqBits(x, 0, lx, 0), c.seqBits(y, 0, ly, 0)
	default:
		x, y := sides(t.args[0])
		w := 1
		for _, s := range []*Term{x, y} {
			lo, hi := c.bounds(s)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > 64 {
				return ""
			}
			if hi.BitLen() > w {
				w = hi.BitLen()
			}
		}
		a, b = c.intBits(x, w, 0), c.intBits(y, w, 0)
	}
	if a == nil || b == nil || len(a) != len(b) {
		return ""
	}
	if t.op == "le0" {
		f := "true" // a <= b on the bits below
		for i := range a {
			x, y := q.bitName(a[i]), q.bitName(b[i])
			if x == y {
				continue
			}
			f = fmt.Sprintf("(or (and (not %s) %s) (and (= %s %s) %s))", x, y, x, y, f)
		}
		return f
	}
	var fs []string
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if a[i].src == nil && b[i].src == nil {
			return "false"
		}
		fs = append(fs, fmt.Sprintf("(= %s %s)", q.bitName(a[i]), q.bitName(b[i])))
	}
	switch len(fs) {
	case 0:
		return "true"
	case 1:
		return fs[0]
	}
	return "(and " + strings.Join(fs, " ") + ")"
}
