package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// model asks the solver for values of the inputs under which the path is taken and the goal fails. Hashes, the curve and
// Base58 are uninterpreted in the solver, so the values are candidates: the replay decides on the real code.
func (v *Verifier) model(cx *Ctx, goal *Term, in *Input) (out []map[string]string) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	s := v.slv
	if s == nil || v.nmodel > 12 {
		return nil
	}
	v.nmodel++
	saved := cx.slv
	cx.slv = nil
	neg := True
	if goal != nil && goal != False && goal != True {
		neg = Not(goal)
	}
	var extra []*Term
	for _, n := range in.names {
		t := in.terms[n]
		extra = append(extra, t)
		if t.sort == SSeq {
			extra = append(extra, mk("len", SInt, nil, "", t))
		}
	}
	q, scr := s.script(cx, cx.pc, neg, extra...)
	// the terms whose values describe the inputs
	type want struct {
		t    *Term
		name string
	}
	var ws []want
	for _, t := range q.all {
		if t.sort == SInt && t.op != "iconst" {
			if n, ok := q.names[t]; ok {
				ws = append(ws, want{t, n})
			}
		}
	}
	cx.slv = saved
	if len(ws) == 0 || len(ws) > 3000 {
		return nil
	}
	t0 := time.Now()
	var b strings.Builder
	fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", s.timeout, scr)
	for _, w := range ws {
		b.WriteString("(get-value (" + w.name + "))\n")
	}
	res, ok := s.run(b.String())
	s.time += time.Since(t0)
	s.queries++
	if !ok || !strings.HasPrefix(strings.TrimSpace(res), "sat") {
		return nil
	}
	txt := strings.TrimSpace(res)[3:]
	val := map[*Term]*big.Int{}
	for _, w := range ws {
		var x *big.Int
		x, txt = parseValue(txt)
		if x != nil {
			val[w.t] = x
		}
	}
	get := func(t *Term) (int, bool) {
		if t.isConst() {
			n, ok := t.int64()
			return int(n), ok
		}
		if x, ok := val[t]; ok && x.IsInt64() {
			return int(x.Int64()), true
		}
		return 0, false
	}
	// bytes of a sequence term, from its length, positions and numbers
	fill := func(s *Term, ln int, def byte, base int64) []byte {
		o := make([]byte, ln)
		for i := range o {
			o[i] = def
		}
		put := func(off, n int, b int64, x *big.Int) {
			if x == nil || x.Sign() < 0 {
				return
			}
			var d []byte
			switch b {
			case 256:
				d = x.Bytes()
			case 16:
				d = []byte(x.Text(16))
			case 2:
				d = []byte(x.Text(2))
			default:
				return
			}
			z := byte('0')
			if b == 256 {
				z = 0
			}
			for len(d) < n {
				d = append([]byte{z}, d...)
			}
			if len(d) == n && off >= 0 && off+n <= ln {
				copy(o[off:], d)
			}
		}
		for _, t := range q.all {
			if t.op == "val" && t.args[0] == s {
				put(0, ln, t.c.Int64(), val[t])
			}
		}
		for _, t := range q.all {
			if t.op == "val" && t.args[0].op == "slice" && t.args[0].args[0] == s {
				lo, ok1 := get(t.args[0].args[1])
				hi, ok2 := get(t.args[0].args[2])
				if ok1 && ok2 && lo <= hi {
					put(lo, hi-lo, t.c.Int64(), val[t])
				}
			}
		}
		for _, t := range q.all {
			if t.op == "at" && t.args[0] == s {
				if i, ok := get(t.args[1]); ok && 0 <= i && i < ln && val[t] != nil && val[t].IsInt64() {
					o[i] = byte(val[t].Int64())
				}
			}
		}
		return o
	}
	m := map[string]string{}
	alts := []map[string]string{}
	for _, n := range in.names {
		t := in.terms[n]
		switch t.sort {
		case SInt:
			if x, ok := val[t]; ok {
				m[n] = x.String()
			}
		case SSeq:
			ln, ok := get(mk("len", SInt, nil, "", t))
			if !ok {
				if l := cx.Len(t); l.isConst() {
					ln, ok = get(l)
				}
			}
			if !ok || ln < 0 || ln > 400 {
				continue
			}
			m[n] = strconv.Quote(string(fill(t, ln, '1', 16)))
			// Base58 text described by its bytes
			for _, d := range q.all {
				if d.isUF("b58dec") && d.args[0] == t {
					dl, ok := get(mk("len", SInt, nil, "", d))
					if !ok {
						dl, ok = get(cx.Len(d))
					}
					if !ok || dl < 0 || dl > 100 {
						continue
					}
					by := fill(d, dl, 7, 256)
					alts = append(alts, map[string]string{n: strconv.Quote(b58(by))})
					if dl >= 4 {
						h := sha256.Sum256(by[:dl-4])
						h = sha256.Sum256(h[:])
						alts = append(alts, map[string]string{n: strconv.Quote(b58(append(append([]byte{}, by[:dl-4]...), h[:4]...)))})
					}
				}
			}
		}
	}
	if len(m) > 0 {
		out = append(out, m)
	}
	for _, a := range alts {
		c := map[string]string{}
		for k, x := range m {
			c[k] = x
		}
		for k, x := range a {
			c[k] = x
		}
		out = append(out, c)
	}
	return out
}

func b58(b []byte) string {
	const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	n := new(big.Int).SetBytes(b)
	r := new(big.Int)
	s := ""
	for n.Sign() > 0 {
		n.DivMod(n, big.NewInt(58), r)
		s = string(al[r.Int64()]) + s
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		s = "1" + s
	}
	return s
}
