package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives z3 (and cvc5 when z3 gives up) over scripts generated from path conditions.
type Solver struct {
	unknown int // queries no back end decided
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]string
	queries int
	unsat   map[string]int // discharged per back end
	time    time.Duration
	timeout int // ms
	dead    bool
	axioms  func(q *query) // extra instantiations
	verbose bool
	slow    []string
	last    string
	bits    bool // add bitFacts
}

func newSolver(timeoutMS int) *Solver {
	return &Solver{cache: map[string]string{}, unsat: map[string]int{}, timeout: timeoutMS, verbose: os.Getenv("GOVER_Q") != ""}
}

func (s *Solver) start() error {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-memory:4000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return s.cmd.Start()
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

// run sends a script and returns everything printed before the end marker.
func (s *Solver) run(script string) (string, bool) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return err.Error(), false
		}
	}
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		var b strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{b.String(), false}
				return
			}
			if strings.TrimSpace(l) == "@end" {
				ch <- res{b.String(), true}
				return
			}
			b.WriteString(l)
		}
	}()
	go io.WriteString(s.in, script+"\n(echo \"@end\")\n")
	select {
	case r := <-ch:
		if !r.ok {
			s.close()
		}
		return r.s, r.ok
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second):
		s.close()
		return "timeout", false
	}
}

type query struct {
	c      *Ctx
	b      strings.Builder
	names  map[*Term]string
	decl   map[string]bool
	lits   []*Term
	facts  []string
	fseen  map[string]bool
	all    []*Term // closed terms in order
	thr    map[*Term]map[int64]bool
	eqLits []*Term
	work   int
}

func sortName(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SSeq:
		return "S"
	}
	return "L"
}

func (q *query) declare(name, sig string) {
	if !q.decl[name] {
		q.decl[name] = true
		fmt.Fprintf(&q.b, "(declare-fun %s %s)\n", name, sig)
	}
}

func bigS(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func qsym(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

// expr gives the SMT expression of a term; closed compound terms are named once.
func (q *query) expr(t *Term, bound map[*Term]bool) string {
	if n, ok := q.names[t]; ok {
		return n
	}
	if bound != nil && bound[t] {
		return qsym(t.s)
	}
	inb := false
	if bound != nil {
		for v := range bound {
			if occurs(v, t) {
				inb = true
			}
		}
	}
	e := q.raw(t, bound)
	if inb {
		return e
	}
	switch t.op {
	case "iconst", "bconst", "ivar", "svar", "bvar", "lvar", "lit":
		q.names[t] = e
	default:
		n := "t" + strconv.Itoa(t.id)
		fmt.Fprintf(&q.b, "(define-fun %s () %s %s)\n", n, sortName(t.sort), e)
		q.names[t] = n
		e = n
	}
	q.all = append(q.all, t)
	return e
}

func (q *query) raw(t *Term, bound map[*Term]bool) string {
	x := func(u *Term) string { return q.expr(u, bound) }
	switch t.op {
	case "iconst":
		return bigS(t.c)
	case "bconst":
		return t.s
	case "ivar", "svar", "bvar", "lvar":
		n := qsym(t.s)
		q.declare(n, "() "+sortName(t.sort))
		return n
	case "lit":
		n := "lit" + strconv.Itoa(t.id)
		q.declare(n, "() S")
		q.lits = append(q.lits, t)
		return n
	case "poly":
		var o []string
		for _, m := range t.poly {
			var p string
			if len(m.atoms) > 0 {
				p = x(m.atoms[0])
				for _, a := range m.atoms[1:] {
					q.declare("nlmul", "(Int Int) Int")
					p = "(nlmul " + p + " " + x(a) + ")"
				}
				if !(m.coef.IsInt64() && m.coef.Int64() == 1) {
					p = "(* " + bigS(m.coef) + " " + p + ")"
				}
			} else {
				p = bigS(m.coef)
			}
			o = append(o, p)
		}
		if len(o) == 1 {
			return o[0]
		}
		return "(+ " + strings.Join(o, " ") + ")"
	case "not":
		return "(not " + x(t.args[0]) + ")"
	case "and", "or":
		var o []string
		for _, a := range t.args {
			o = append(o, x(a))
		}
		return "(" + t.op + " " + strings.Join(o, " ") + ")"
	case "le0":
		return "(<= " + x(t.args[0]) + " 0)"
	case "eq0":
		return "(= " + x(t.args[0]) + " 0)"
	case "eq":
		return "(= " + x(t.args[0]) + " " + x(t.args[1]) + ")"
	case "ite":
		return "(ite " + x(t.args[0]) + " " + x(t.args[1]) + " " + x(t.args[2]) + ")"
	case "forall":
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		v := IVar(t.s)
		nb[v] = true
		body := q.expr(t.args[0], nb)
		pat := ""
		var find func(u *Term)
		find = func(u *Term) {
			if pat == "" && (u.op == "elem" || u.op == "at") && u.args[1] == v && !occurs(v, u.args[0]) {
				pat = q.expr(u, nb)
			}
			for _, a := range u.args {
				find(a)
			}
			for _, m := range u.poly {
				for _, a := range m.atoms {
					find(a)
				}
			}
		}
		find(t.args[0])
		if pat != "" {
			body = "(! " + body + " :pattern (" + pat + "))"
		}
		return "(forall ((" + qsym(t.s) + " Int)) " + body + ")"
	case "mod", "div":
		if t.args[1].isConst() && t.args[1].c.Sign() > 0 {
			return "(" + t.op + " " + x(t.args[0]) + " " + bigS(t.args[1].c) + ")"
		}
		n := "u" + t.op
		q.declare(n, "(Int Int) Int")
		return "(" + n + " " + x(t.args[0]) + " " + x(t.args[1]) + ")"
	case "cat":
		q.declare("cat", "(S S) S")
		p := x(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			p = "(cat " + x(t.args[i]) + " " + p + ")"
		}
		return p
	case "mklist":
		n := "ml" + strconv.Itoa(t.id)
		q.declare(n, "() L")
		return n
	}
	name := t.op
	if t.c != nil {
		name += "_" + t.c.String()
	}
	if t.op == "uf" {
		name = "u_" + t.s
		for _, a := range t.args {
			name += string("biSL"[a.sort])
		}
		name += string("biSL"[t.sort])
		name = qsym(name)
	}
	if len(t.args) == 0 {
		q.declare(name, "() "+sortName(t.sort))
		return name
	}
	var sig, as []string
	for _, a := range t.args {
		sig = append(sig, sortName(a.sort))
		as = append(as, x(a))
	}
	q.declare(name, "("+strings.Join(sig, " ")+") "+sortName(t.sort))
	return "(" + name + " " + strings.Join(as, " ") + ")"
}

func (q *query) fact(s string) {
	if !q.fseen[s] {
		q.fseen[s] = true
		q.facts = append(q.facts, s)
	}
}
func (q *query) factT(t *Term) {
	if t == True {
		return
	}
	q.fact(q.expr(t, nil))
}

// facts instantiates the defining facts of the symbols for the terms of the query.
func (q *query) instantiate() {
	c := q.c
	done := 0
	rounds := 0
	ext := 0
	for rounds < 4000 {
		if done == len(q.all) {
			if ext++; ext > 2 || !q.extensional() {
				break
			}
			continue
		}
		rounds++
		t := q.all[done]
		done++
		e := q.expr(t, nil)
		switch t.sort {
		case SInt:
			if t.op != "iconst" && t.op != "poly" {
				lo, hi := c.bounds(t)
				if lo != nil {
					q.fact("(<= " + bigS(lo) + " " + e + ")")
				}
				if hi != nil {
					q.fact("(<= " + e + " " + bigS(hi) + ")")
				}
			}
		case SSeq:
			if t.op == "lit" {
				q.declare("len", "(S) Int")
				q.fact(fmt.Sprintf("(= (len %s) %d)", e, len(t.s)))
				for _, b := range []int64{2, 16, 256} {
					if f := fmt.Sprintf("val_%d", b); q.decl[f] && len(t.s) <= 256 {
						q.fact(fmt.Sprintf("(= (%s %s) %s)", f, e, litVal(b, t.s)))
					}
				}
			} else if t.op != "chr" {
				raw := mk("len", SInt, nil, "", t)
				n := q.expr(raw, nil)
				if l := c.Len(t); l != raw {
					q.fact("(= " + n + " " + q.expr(l, nil) + ")")
				} else {
					q.fact("(<= 0 " + n + ")")
				}
			}
		}
		switch t.op {
		case "len":
			if a := t.args[0]; a.op == "min" {
				b := a.c.Int64()
				n := q.expr(a.args[0], nil)
				for _, k := range q.thresholds(t) {
					if k < 1 && b != 256 || k < 0 {
						continue
					}
					q.fact(fmt.Sprintf("(= (< %s %s) (<= %s %d))", n, pow(b, k).String(), e, k))
				}
			}
		case "eq":
			q.eqFacts(t, e)
		case "uf":
			q.ufFacts(t, e)
		case "elem":
			for _, u := range q.all {
				if u.isUF("indexof") && u.args[0] == t.args[0] {
					q.indexFacts(u, t)
				}
			}
		case "dig":
			v := mkVal(t.c.Int64(), t)
			n := q.expr(t.args[0], nil)
			if w, ok := t.args[1].int64(); ok && w < 5000 {
				q.fact(fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s)) (= %s %s))", n, n, pow(t.c.Int64(), w), q.expr(v, nil), n))
			} else {
				q.fact("(= " + q.expr(v, nil) + " " + n + ")")
			}
		case "val":
			// short hexadecimal numbers by their digits
			if x := t.args[0]; t.c.Int64() == 16 && c.isDigits(16, x) {
				if L, ok := c.Len(x).int64(); ok && L >= 1 && L <= 4 {
					var ps []string
					for i := int64(0); i < L; i++ {
						a := q.expr(c.At(x, Int(i)), nil)
						ps = append(ps, fmt.Sprintf("(* %d (ite (<= %s 57) (- %s 48) (ite (<= %s 70) (- %s 55) (- %s 87))))", pow(16, L-1-i), a, a, a, a, a))
						q.fact(fmt.Sprintf("(or (and (<= 48 %s) (<= %s 57)) (and (<= 65 %s) (<= %s 70)) (and (<= 97 %s) (<= %s 102)))", a, a, a, a, a, a))
					}
					ps = append(ps, "0")
					q.fact(fmt.Sprintf("(= %s (+ %s))", e, strings.Join(ps, " ")))
				}
			}
		case "at":
			s := t.args[0]
			if s.op == "dig" && (s.c.Int64() == 2 || s.c.Int64() == 256) {
				w, ok1 := s.args[1].int64()
				i, ok2 := t.args[1].int64()
				if ok1 && ok2 && 0 <= i && i < w {
					b := s.c.Int64()
					d := c.Mod(c.Div(s.args[0], BigT(pow(b, w-1-i))), Int(b))
					if b == 2 {
						d = Add(d, Int(48))
					}
					n := q.expr(s.args[0], nil)
					q.fact(fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s)) (= %s %s))", n, n, pow(b, w), e, q.expr(d, nil)))
				} else if ok1 && !ok2 && w <= 32 {
					n, k := q.expr(s.args[0], nil), q.expr(t.args[1], nil)
					for i := int64(0); i < w; i++ {
						b := s.c.Int64()
						d := c.Mod(c.Div(s.args[0], BigT(pow(b, w-1-i))), Int(b))
						if b == 2 {
							d = Add(d, Int(48))
						}
						q.fact(fmt.Sprintf("(=> (and (= %s %d) (<= 0 %s) (< %s %s)) (= %s %s))", k, i, n, n, pow(b, w), e, q.expr(d, nil)))
					}
				}
			}
			for _, b := range []int64{2, 16} {
				p := UF("isdig", SBool, Int(b), s)
				if _, ok := q.names[p]; ok {
					q.digitRange(p, t)
				}
			}
			if ch := mk("chr", SSeq, nil, "", t); q.names[ch] != "" {
				_ = ch
			}
		case "slice":
			for _, b := range []int64{2, 10, 16} {
				p := UF("isdig", SBool, Int(b), t.args[0])
				if pn, ok := q.names[p]; ok {
					w := UF("isdig", SBool, Int(b), t)
					if wn, ok := q.names[w]; ok {
						q.fact("(=> " + pn + " " + wn + ")")
					}
				}
			}
		}
	}
}

func (q *query) digitRange(p, at *Term) {
	e, pe := q.expr(at, nil), q.expr(p, nil)
	b := p.args[0].c.Int64()
	ix, s := at.args[1], at.args[0]
	guard := And(Le(zero, ix), Lt(ix, mk("len", SInt, nil, "", s)))
	g := q.expr(guard, nil)
	var r string
	switch {
	case b <= 10:
		r = fmt.Sprintf("(and (<= 48 %s) (<= %s %d))", e, e, 47+b)
	case b == 16:
		r = fmt.Sprintf("(or (and (<= 48 %[1]s) (<= %[1]s 57)) (and (<= 65 %[1]s) (<= %[1]s 70)) (and (<= 97 %[1]s) (<= %[1]s 102)))", e)
	default:
		return
	}
	q.fact("(=> (and " + pe + " " + g + ") " + r + ")")
}

func (q *query) thresholds(l *Term) []int64 {
	m := map[int64]bool{1: true}
	for _, t := range q.all {
		if t.op != "poly" {
			continue
		}
		has := false
		for _, mo := range t.poly {
			for _, a := range mo.atoms {
				if a == l {
					has = true
				}
			}
		}
		if has {
			k := new(big.Int).Abs(polyConst(t))
			if k.IsInt64() && k.Int64() < 5000 {
				for d := int64(-1); d <= 1; d++ {
					m[k.Int64()+d] = true
				}
			}
		}
	}
	// comparisons with other constants of the query
	for _, t := range q.all {
		if t.op == "iconst" && t.c.IsInt64() && t.c.Int64() > 1 && t.c.Int64() <= 600 && len(m) < 24 {
			m[t.c.Int64()] = true
			m[t.c.Int64()-1] = true
		}
	}
	var o []int64
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

func (q *query) eqFacts(t *Term, e string) {
	if t.args[0].sort != SSeq {
		return
	}
	x, y := t.args[0], t.args[1]
	// equal sequences have equal lengths
	q.expr(mk("len", SInt, nil, "", x), nil)
	q.expr(mk("len", SInt, nil, "", y), nil)
	if x.op == "lit" {
		x, y = y, x
	}
	if y.op == "lit" && len(y.s) <= 160 && x.op != "min" && x.op != "dig" && x.op != "rep" && x.op != "cat" {
		var bs []string
		for i := 0; i < len(y.s); i++ {
			a := q.c.At(x, Int(int64(i)))
			bs = append(bs, fmt.Sprintf("(= %s %d)", q.expr(a, nil), y.s[i]))
		}
		if len(bs) > 0 {
			l := q.expr(q.c.Len(x), nil)
			q.fact(fmt.Sprintf("(= %s (and (= %s %d) %s))", e, l, len(y.s), strings.Join(bs, " ")))
		}
	}
}

// extensional: equal sequences have equal bytes, for the bytes the query speaks of.
func (q *query) extensional() bool {
	n := len(q.all)
	base := func(x *Term) (s, lo *Term) {
		if x.op == "slice" {
			return x.args[0], x.args[1]
		}
		return x, zero
	}
	var ats, eqs []*Term
	for _, t := range q.all {
		if t.op == "at" {
			ats = append(ats, t)
		}
		if t.op == "eq" && t.args[0].sort == SSeq && t.args[0].op != "lit" && t.args[1].op != "lit" {
			eqs = append(eqs, t)
		}
	}
	if len(eqs)*len(ats) > 400 {
		return false
	}
	// the bits of a byte of s and the bits of s
	for _, d := range q.all[:n] {
		if d.op != "dig" || d.c.Int64() != 2 || d.args[0].op != "val" || d.args[0].c.Int64() != 256 {
			continue
		}
		s := d.args[0].args[0]
		if scale(q.c.Len(s), big.NewInt(8)) != d.args[1] {
			continue
		}
		for _, b := range q.all[:n] {
			if b.op != "dig" || b.c.Int64() != 2 || !b.args[1].isInt(8) || b.args[0].op != "at" || b.args[0].args[0] != s {
				continue
			}
			i0, ok := b.args[0].args[1].int64()
			if !ok {
				continue
			}
			for i := int64(0); i < 8; i++ {
				x, y := mk("at", SInt, nil, "", d, Int(8*i0+i)), mk("at", SInt, nil, "", b, Int(i))
				ats = append(ats, y)
				q.fact("(= " + q.expr(x, nil) + " " + q.expr(y, nil) + ")")
			}
			for _, a := range ats {
				if a.args[0] == d && !a.args[1].isConst() {
					k := Sub(a.args[1], Int(8*i0))
					y := mk("at", SInt, nil, "", b, k)
					g := And(q.c.Le(zero, k), q.c.Lt(k, Int(8)))
					q.fact("(=> " + q.expr(g, nil) + " (= " + q.expr(a, nil) + " " + q.expr(y, nil) + "))")
				}
			}
		}
	}
	for _, t := range eqs {
		x, y := t.args[0], t.args[1]
		e := q.expr(t, nil)
		used := false
		for side := 0; side < 2; side++ {
			s, lo := base(x)
			for _, a := range ats {
				if a.args[0] != s {
					continue
				}
				used = true
				k := Sub(a.args[1], lo)
				g := And(q.c.Le(zero, k), q.c.Lt(k, q.c.Len(x)))
				if g == False {
					continue
				}
				q.fact("(=> (and " + e + " " + q.expr(g, nil) + ") (= " + q.expr(a, nil) + " " + q.expr(q.c.At(y, k), nil) + "))")
			}
			x, y = y, x
		}
		l, ok := q.c.Len(x).int64()
		if m, ok2 := q.c.Len(y).int64(); !used || !ok || !ok2 || l != m || l > 40 || l == 0 {
			continue
		}
		var bs []string
		for i := int64(0); i < l; i++ {
			bs = append(bs, "(= "+q.expr(q.c.At(x, Int(i)), nil)+" "+q.expr(q.c.At(y, Int(i)), nil)+")")
		}
		q.fact("(= " + e + " (and " + strings.Join(bs, " ") + "))")
	}
	return len(q.all) > n
}

func (q *query) indexFacts(ix, el *Term) {
	l, w := ix.args[0], ix.args[1]
	n := q.expr(mk("llen", SInt, nil, "", l), nil)
	i := q.expr(el.args[1], nil)
	e := q.expr(ix, nil)
	q.fact(fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s) (= %s %s)) (and (<= 0 %s) (<= %s %s)))", i, i, n, q.expr(el, nil), q.expr(w, nil), e, e, i))
}

func (q *query) ufFacts(t *Term, e string) {
	switch t.s {
	case "indexof":
		l, w := t.args[0], t.args[1]
		ll := mk("llen", SInt, nil, "", l)
		n := q.expr(ll, nil)
		if r := q.c.LLen(l); r != ll {
			q.fact("(= " + n + " " + q.expr(r, nil) + ")")
		}
		el := mk("elem", SSeq, nil, "", l, t)
		q.fact(fmt.Sprintf("(and (<= (- 1) %s) (< %s %s))", e, e, n))
		q.fact(fmt.Sprintf("(=> (<= 0 %s) (= %s %s))", e, q.expr(el, nil), q.expr(w, nil)))
		for _, u := range q.all {
			if u.op == "elem" && u.args[0] == l {
				q.indexFacts(t, u)
			}
		}
	case "isdig":
		for _, u := range q.all {
			if u.op == "at" && u.args[0] == t.args[1] {
				q.digitRange(t, u)
			}
		}
		b := t.args[0].c.Int64()
		if b != 2 {
			p := UF("isdig", SBool, Int(2), t.args[1])
			if pn, ok := q.names[p]; ok {
				q.fact("(=> " + pn + " " + e + ")")
			}
		}
		if s := t.args[1]; s.op == "slice" {
			p := UF("isdig", SBool, Int(b), s.args[0])
			if pn, ok := q.names[p]; ok {
				q.fact("(=> " + pn + " " + e + ")")
			}
		}
		for _, u := range q.all {
			if s := t.args[1]; u != t && u.op == "uf" && u.s == "isdig" && u.args[0] == t.args[0] && s.op == "slice" && u.args[1].op == "slice" && u.args[1].args[0] == s.args[0] {
				for _, p := range [][2]*Term{{t, u}, {u, t}} { // a part of a part
					v, w := p[0].args[1], p[1].args[1]
					q.fact(fmt.Sprintf("(=> (and %s (<= %s %s) (<= %s %s)) %s)", q.expr(p[0], nil), q.expr(v.args[1], nil), q.expr(w.args[1], nil), q.expr(w.args[2], nil), q.expr(v.args[2], nil), q.expr(p[1], nil)))
				}
			}
			if u.op == "slice" && u.args[0] == t.args[1] {
				p := UF("isdig", SBool, Int(b), u)
				if pn, ok := q.names[p]; ok {
					q.fact("(=> " + e + " " + pn + ")")
				}
			}
		}
	}
	if ufFactHook != nil {
		ufFactHook(q, t, e)
	}
}

var ufFactHook func(q *query, t *Term, e string)

func (s *Solver) script(c *Ctx, pcs []*Term, goal *Term, extra ...*Term) (*query, string) {
	q := &query{c: c, names: map[*Term]string{}, decl: map[string]bool{}, fseen: map[string]bool{}}
	q.b.WriteString("(declare-sort S 0)\n(declare-sort L 0)\n(declare-fun len (S) Int)\n")
	q.decl["len"] = true
	var asserts []string
	for _, p := range pcs {
		asserts = append(asserts, q.expr(p, nil))
	}
	if goal != True {
		asserts = append(asserts, q.expr(goal, nil))
	}
	for _, t := range extra {
		q.expr(t, nil)
	}
	if s.bits {
		if q.bitFacts(append(append([]*Term{}, pcs...), goal)) == 0 {
			return q, ""
		}
	}
	q.instantiate()
	for _, f := range q.facts {
		fmt.Fprintf(&q.b, "(assert %s)\n", f)
	}
	if len(q.lits) > 1 {
		q.b.WriteString("(assert (distinct")
		for _, l := range q.lits {
			q.b.WriteString(" lit" + strconv.Itoa(l.id))
		}
		q.b.WriteString("))\n")
	}
	for _, a := range asserts {
		fmt.Fprintf(&q.b, "(assert %s)\n", a)
	}
	return q, q.b.String()
}

// checkBits: as check, with what the comparisons say about the bits of their sides.
func (s *Solver) checkBits(c *Ctx, pcs []*Term, goal *Term) string {
	if s.bits {
		return "unknown"
	}
	s.bits = true
	defer func() { s.bits = false }()
	return s.checkFor(c, pcs, goal, 0)
}

func (s *Solver) check(c *Ctx, goal *Term) string { return s.checkIn(c, c.pc, goal) }

func (s *Solver) checkIn(c *Ctx, pcs []*Term, goal *Term) string {
	return s.checkFor(c, pcs, goal, 0)
}

// checkFor: limit > 0 bounds the effort (ms, one back end); such an "unknown" is not remembered.
func (s *Solver) checkFor(c *Ctx, pcs []*Term, goal *Term, limit int) string {
	saved := c.slv
	c.slv = nil // instantiation must not call the solver
	_, scr := s.script(c, pcs, goal)
	c.slv = saved
	if scr == "" {
		return "unknown"
	}
	if r, ok := s.cache[scr]; ok {
		return r
	}
	t0 := time.Now()
	s.queries++
	tmo := s.timeout
	if limit > 0 {
		tmo = limit
	}
	out, ok := s.run(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)", tmo, scr))
	r := "unknown"
	if ok {
		f := strings.TrimSpace(out)
		if i := strings.LastIndexByte(f, '\n'); i >= 0 {
			if strings.Contains(f, "error") {
				panic("solver error: " + f + "\n" + scr)
			}
			f = f[i+1:]
		}
		if strings.Contains(f, "error") {
			panic("solver error: " + f + "\n" + scr)
		}
		r = f
	}
	if r == "unsat" {
		s.unsat["z3"]++
		s.last = "z3"
	}
	if r != "sat" && r != "unsat" && limit == 0 {
		r = s.cvc5(scr)
		if r == "unsat" {
			s.unsat["cvc5"]++
			s.last = "cvc5"
		}
	}
	d := time.Since(t0)
	s.time += d
	if s.verbose {
		if os.Getenv("GOVER_Q") == "2" {
			fmt.Println(scr)
		}
		fmt.Printf("Q %d/%d %d %v %s %s\n", len(pcs), len(c.pc), len(scr), d.Round(time.Millisecond), r, trunc(goal.String(), 150))
	}
	if d > time.Second {
		s.slow = append(s.slow, fmt.Sprintf("%v %s %s", d, r, trunc(goal.String(), 200)))
	}
	if limit == 0 && r != "sat" && r != "unsat" {
		s.unknown++
	}
	if limit == 0 || r == "sat" || r == "unsat" {
		s.cache[scr] = r
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (s *Solver) cvc5(scr string) string {
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.timeout), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + scr + "(check-sat)\n")
	out, _ := cmd.Output()
	switch f := strings.TrimSpace(string(out)); f {
	case "sat", "unsat":
		return f
	}
	return "unknown"
}

// modelValue: a value of t in some model of the path condition.
func (s *Solver) modelValue(c *Ctx, t *Term) *big.Int {
	m := s.modelValues(c, []*Term{t})
	if m == nil {
		return nil
	}
	return m[0]
}

func (s *Solver) modelValues(c *Ctx, ts []*Term) []*big.Int {
	saved := c.slv
	c.slv = nil
	pcs := c.pc
	if len(pcs) > 14 && len(ts) == 1 {
		pcs = c.relevant(ts[0])
	}
	q, scr0 := s.script(c, pcs, True, ts...)
	var ns []string
	for _, t := range ts {
		ns = append(ns, q.expr(t, nil))
	}
	c.slv = saved
	t0 := time.Now()
	s.queries++
	scr := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", s.timeout, scr0)
	for _, n := range ns {
		scr += "(get-value (" + n + "))\n"
	}
	out, ok := s.run(scr)
	s.time += time.Since(t0)
	if !ok || !strings.HasPrefix(strings.TrimSpace(out), "sat") {
		return nil
	}
	lines := strings.Split(strings.TrimSpace(out), "\n")[1:]
	var res []*big.Int
	txt := strings.Join(lines, " ")
	for range ts {
		v, rest := parseValue(txt)
		res = append(res, v)
		txt = rest
	}
	return res
}

// parseValue reads one ((name value)) group.
func parseValue(s string) (*big.Int, string) {
	depth := 0
	start := strings.IndexByte(s, '(')
	if start < 0 {
		return nil, ""
	}
	inq := false
	for i := start; i < len(s); i++ {
		switch s[i] {
		case '|':
			inq = !inq
		case '(':
			if !inq {
				depth++
			}
		case ')':
			if !inq {
				depth--
			}
			if depth == 0 {
				g := strings.TrimSpace(s[start+2 : i-1])
				rest := s[i+1:]
				j := strings.LastIndex(g, " ")
				neg := false
				if strings.HasSuffix(g, ")") {
					k := strings.LastIndex(g, "(- ")
					if k < 0 {
						return nil, rest
					}
					neg = true
					g = strings.TrimSuffix(g[k+3:], ")")
				} else if j >= 0 {
					g = g[j+1:]
				}
				v, ok := new(big.Int).SetString(strings.TrimSpace(g), 10)
				if !ok {
					return nil, rest
				}
				if neg {
					v.Neg(v)
				}
				return v, rest
			}
		}
	}
	return nil, ""
}

// relevant: the path conditions connected to t through terms other than inputs, lists and constants. Any subset is
// sound for proving.
func (c *Ctx) relevant(t *Term) []*Term {
	atoms := map[*Term][]*Term{}
	var collect func(t *Term, out map[*Term]bool)
	collect = func(t *Term, out map[*Term]bool) {
		switch t.op {
		case "iconst", "bconst", "lit", "svar", "lvar":
			return
		}
		if t.sort == SList || out[t] {
			return
		}
		switch t.op {
		case "poly", "le0", "eq0", "eq", "and", "or", "not", "forall":
		default:
			out[t] = true
		}
		if t.op == "uf" && (strings.HasPrefix(t.s, "sha256") || strings.HasPrefix(t.s, "ripemd160") || strings.HasPrefix(t.s, "pbkdf2")) {
			return
		}
		for _, a := range t.args {
			collect(a, out)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				collect(a, out)
			}
		}
	}
	get := func(t *Term) []*Term {
		if a, ok := atoms[t]; ok {
			return a
		}
		m := map[*Term]bool{}
		collect(t, m)
		var o []*Term
		for k := range m {
			o = append(o, k)
		}
		atoms[t] = o
		return o
	}
	in := map[*Term]bool{}
	for _, a := range get(t) {
		in[a] = true
	}
	used := make([]bool, len(c.pc))
	for ch := true; ch; {
		ch = false
		for i, p := range c.pc {
			if used[i] {
				continue
			}
			for _, a := range get(p) {
				if in[a] {
					used[i] = true
					break
				}
			}
			if used[i] {
				ch = true
				for _, a := range get(p) {
					in[a] = true
				}
			}
		}
	}
	var o []*Term
	for i, p := range c.pc {
		if used[i] {
			o = append(o, p)
		}
	}
	return o
}
