package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The contracts of AddPoints and ScalarMult of github.com/aureleoules/ecdsa (ecmodels.go), verified against the
// source of that module.
//
// AddPoints: for two points of the curve with coordinates in 0..P-1 that are not opposite, the result is the third
// point of the chord (or tangent) reflected, stated without division:
//   exists l. l*(x2-x1) = y2-y1 (l*2*y1 = 3*x1^2 for equal points), x3 = l^2-x1-x2, y3 = l*(x1-x3)-y1  (mod P),
// it lies on the curve and its coordinates are new numbers in 0..P-1; opposite points end the process.
// ScalarMult: the loop invariant of the ladder, R0 = wG and R1 = (w+1)G for w = n div 2^(i+1).
//
// Congruences modulo P are decided by polynomial identities: inner reductions are dropped, an inverse v of q stands for
// v*q = 1, and membership of the curve follows from explicit cofactors, whose identity is checked here.

var depNames = []string{"ecdsa/curve", "ecdsa/AddPoints", "ecdsa/ScalarMult"}

// depModels: the contract each verification establishes, by the name of its model.
var depModels = map[string][]string{
	"(*" + ecPkg + ".Curve).AddPoints":  {"ecdsa/curve", "ecdsa/AddPoints"},
	"(*" + ecPkg + ".Curve).ScalarMult": {"ecdsa/curve", "ecdsa/AddPoints", "ecdsa/ScalarMult"},
}

func (v *Verifier) depFn(name string) *ssa.Function {
	p := v.deps[ecPkg]
	if p == nil || p.Type("Curve") == nil {
		return nil
	}
	return v.prog.LookupMethod(types.NewPointer(p.Type("Curve").Type()), p.Pkg, name)
}

func (v *Verifier) verifyDep(name string) (r *FnResult) {
	found := false
	for _, n := range depNames {
		found = found || n == name
	}
	if !found {
		return nil
	}
	t0 := time.Now()
	q0 := v.slv.queries
	r = &FnResult{hits: map[string]int{}, inlined: map[string]bool{}, models: map[string]bool{}, used: map[string]bool{}, loops: map[string]bool{}, assumed: map[string]bool{}}
	defer func() {
		r.dt = time.Since(t0)
		r.queries = v.slv.queries - q0
		if x := recover(); x != nil {
			u, ok := x.(Unsupported)
			if !ok {
				panic(x)
			}
			r.unsup = u.msg
		}
	}()
	d := &depCheck{v: v, r: r, name: name}
	switch name {
	case "ecdsa/curve":
		d.curve()
	case "ecdsa/AddPoints":
		d.addPoints()
	case "ecdsa/ScalarMult":
		d.scalarMult()
	}
	d.note()
	return r
}

type depCheck struct {
	v    *Verifier
	r    *FnResult
	e    *Eng
	name string
}

// note records what the last execution used.
func (d *depCheck) note() {
	if d.e == nil {
		return
	}
	for _, p := range [][2]map[string]bool{{d.e.usedModel, d.r.models}, {d.e.inlined, d.r.inlined}, {d.e.loopNotes, d.r.loops}, {d.e.assumed, d.r.assumed}} {
		for k := range p[0] {
			p[1][k] = true
		}
	}
}

func (d *depCheck) ob(id string, ok bool, how, detail string) {
	o := &Ob{id: d.name + "/" + id, ok: ok, how: how}
	if !ok {
		o.detail = detail
	}
	d.r.obs = append(d.r.obs, o)
}

// prove records an obligation of the current path.
func (d *depCheck) prove(c *Ctx, id string, goal *Term) bool {
	q := d.v.slv.queries
	ok := c.Prove(goal)
	how := "normaliser"
	if d.v.slv.queries > q {
		how = d.v.slv.last
	}
	if !ok && c.Infeasible() {
		ok, how = true, "infeasible path"
	}
	d.ob(id, ok, how, "not provable")
	if !ok {
		d.r.obs[len(d.r.obs)-1].goal = trunc(goal.String(), 1500)
	}
	return ok
}

// ---- facts about the numbers, by computation ----

func (d *depCheck) curve() {
	B := func(n int64) *big.Int { return big.NewInt(n) }
	exp := func(b *big.Int, e *big.Int) *big.Int {
		return new(big.Int).Exp(new(big.Int).Mod(b, ecP), e, ecP)
	}
	half := new(big.Int).Rsh(pm1, 1)
	third, rest := new(big.Int).QuoRem(pm1, B(3), new(big.Int))
	d.ob("P is prime", ecP.ProbablyPrime(64), "Baillie-PSW and 64 Miller-Rabin rounds", "composite")
	d.ob("N is prime", ecN.ProbablyPrime(64), "Baillie-PSW and 64 Miller-Rabin rounds", "composite")
	d.ob("P mod 4 = 3", new(big.Int).Mod(ecP, B(4)).Int64() == 3, "execution", "")
	d.ob("no point with x = 0: 7 is not a square", exp(B(7), half).Cmp(pm1) == 0, "execution (Euler's criterion)", "")
	d.ob("no point with y = 0: -7 is not a cube", rest.Sign() == 0 && exp(B(-7), third).Cmp(B(1)) != 0, "execution", "")
	on := func(x, y *big.Int) bool {
		l := new(big.Int).Mul(y, y)
		r := new(big.Int).Exp(x, B(3), nil)
		r.Add(r, B(7)).Sub(r, l).Mod(r, ecP)
		return r.Sign() == 0
	}
	d.ob("G is on the curve", on(ecGx, ecGy), "execution", "")
	// N times G by double and add
	type pt struct{ x, y *big.Int }
	add := func(a, b *pt) *pt {
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		var l *big.Int
		if a.x.Cmp(b.x) == 0 {
			if new(big.Int).Mod(new(big.Int).Add(a.y, b.y), ecP).Sign() == 0 {
				return nil
			}
			l = new(big.Int).Mul(B(3), new(big.Int).Mul(a.x, a.x))
			l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), ecP))
		} else {
			l = new(big.Int).Sub(b.y, a.y)
			dx := new(big.Int).Sub(b.x, a.x)
			l.Mul(l, new(big.Int).ModInverse(dx.Mod(dx, ecP), ecP))
		}
		x := new(big.Int).Mul(l, l)
		x.Sub(x, a.x).Sub(x, b.x).Mod(x, ecP)
		y := new(big.Int).Sub(a.x, x)
		y.Mul(y, l).Sub(y, a.y).Mod(y, ecP)
		return &pt{x, y}
	}
	var acc *pt
	g := &pt{ecGx, ecGy}
	for i := ecN.BitLen() - 1; i >= 0; i-- {
		acc = add(acc, acc)
		if ecN.Bit(i) == 1 {
			acc = add(acc, g)
		}
	}
	d.ob("N times G is the point at infinity", acc == nil, "execution", "")
}

// ---- polynomials modulo P ----

// strip drops the reductions modulo P inside t: the result is congruent to t.
func strip(t *Term) *Term {
	var parts []*Term
	for _, m := range asPoly(t) {
		p := BigT(new(big.Int).Mod(m.coef, ecP))
		for _, a := range m.atoms {
			switch {
			case a.op == "mod" && a.args[1] == ecPT:
				p = Mul(p, strip(a.args[0]))
			case a.isUF("modinv") && a.args[1] == ecPT:
				p = Mul(p, UF("modinv", SInt, strip(a.args[0]), ecPT))
			default:
				p = Mul(p, a)
			}
		}
		parts = append(parts, p)
	}
	return reduceP(Add(parts...))
}

// reduceP brings the coefficients into 0..P-1.
func reduceP(t *Term) *Term {
	var ms []mono
	for _, m := range asPoly(t) {
		if k := new(big.Int).Mod(m.coef, ecP); k.Sign() != 0 {
			ms = append(ms, mono{k, m.atoms})
		}
	}
	return fromMonos(ms)
}

// inverses rewrites v*q to 1 for every inverse v of q in t; q is linear in some atom z, so v*z is rewritten.
func inverses(t *Term) *Term {
	for step := 0; step < 400; step++ {
		done := true
		var out []*Term
		for _, m := range asPoly(t) {
			var v, z *Term
			var lead mono
			for _, a := range m.atoms {
				if !a.isUF("modinv") {
					continue
				}
				ms := asPoly(a.args[0])
				if len(ms) == 0 {
					continue
				}
				// the last monomial that is an atom
				for i := len(ms) - 1; i >= 0; i-- {
					if len(ms[i].atoms) == 1 {
						for _, b := range m.atoms {
							if b == ms[i].atoms[0] {
								v, z, lead = a, b, ms[i]
							}
						}
						break
					}
				}
				if v != nil {
					break
				}
			}
			if v == nil {
				out = append(out, fromMonos([]mono{m}))
				continue
			}
			done = false
			k := BigT(m.coef)
			usedV, usedZ := false, false
			for _, a := range m.atoms {
				if a == v && !usedV {
					usedV = true
					continue
				}
				if a == z && !usedZ {
					usedZ = true
					continue
				}
				k = Mul(k, a)
			}
			// v*z = (1 - v*(q - lead)) / coefficient of z
			ci := BigT(new(big.Int).ModInverse(new(big.Int).Mod(lead.coef, ecP), ecP))
			rest := Sub(v.args[0], fromMonos([]mono{lead}))
			out = append(out, Mul(k, Mul(ci, Sub(one, Mul(v, rest)))))
		}
		t = reduceP(Add(out...))
		if done {
			return t
		}
	}
	unsup("reduction of inverses does not end")
	return nil
}

// congruent: a = b (mod P) given sum of cofactor*hypothesis, each hypothesis being 0 (mod P).
func congruent(a, b *Term, cert ...[2]*Term) bool {
	g := Sub(a, b)
	for _, k := range cert {
		g = Sub(g, Mul(k[0], k[1]))
	}
	return inverses(strip(g)).isInt(0)
}

// ---- AddPoints ----

func (d *depCheck) start() (*State, VPtr) {
	v := d.v
	if v.initErr != "" {
		unsup("package initialisation: %s", v.initErr)
	}
	d.note()
	d.e = v.newEng()
	st := v.initSt.clone()
	for g, id := range v.globals {
		if g.Name() == "secp256k1" && g.Pkg == v.pkg {
			return st, VPtr{obj: id}
		}
	}
	unsup("variable secp256k1")
	return nil, VPtr{}
}

func (d *depCheck) point(st *State, name string) (*VStruct, *Term, *Term) {
	x, y := IVar(name+".X"), IVar(name+".Y")
	for _, t := range []*Term{x, y} {
		st.c.Assume(Le(zero, t))
		st.c.Assume(Lt(t, ecPT))
	}
	st.c.Assume(ecOn(st.c, x, y))
	return &VStruct{[]Value{d.e.newBig(st, x), d.e.newBig(st, y)}}, x, y
}

// frame: nothing that was there before has changed, except the listed objects.
func (d *depCheck) frame(id string, before map[int]*Obj, st *State, except ...int) {
	var bad []int
next:
	for k, o := range before {
		for _, x := range except {
			if k == x {
				continue next
			}
		}
		n := st.heap[k]
		if n == o || n != nil && n.kind == o.kind && n.t != nil && o.t != nil && st.c.N(n.t) == st.c.N(o.t) && n.v == nil && o.v == nil {
			continue
		}
		if n != nil && n.kind == o.kind && n.t == o.t && sameVal(n.v, o.v) && len(n.arr) == len(o.arr) && len(o.arr) == 0 {
			continue
		}
		bad = append(bad, k)
	}
	sort.Ints(bad)
	d.ob(id+"/frame", len(bad) == 0, "normaliser", fmt.Sprintf("objects %v are changed", bad))
}

func copyHeap(h map[int]*Obj) map[int]*Obj {
	m := map[int]*Obj{}
	for k, o := range h {
		m[k] = o
	}
	return m
}

func (d *depCheck) addPoints() {
	fn := d.v.depFn("AddPoints")
	if fn == nil {
		unsup("AddPoints not found")
	}
	for _, kind := range []string{"chord", "tangent", "opposite"} {
		st, curve := d.start()
		c := st.c
		p, x1, y1 := d.point(st, "P")
		q, x2, y2 := d.point(st, "Q")
		for _, xy := range [][2]*Term{{x1, y1}, {x2, y2}} { // established by the obligations of ecdsa/curve
			c.Assume(Not(c.EqInt(xy[0], zero)))
			c.Assume(Not(c.EqInt(xy[1], zero)))
		}
		switch kind {
		case "chord":
			c.Assume(Not(c.EqInt(x1, x2)))
		case "tangent":
			c.Assume(c.EqInt(x1, x2))
			c.Assume(c.EqInt(y1, y2))
		case "opposite":
			c.Assume(c.EqInt(x1, x2))
			c.Assume(Not(c.EqInt(y1, y2)))
		}
		if !c.Feasible() {
			unsup("vacuous: %s", kind)
		}
		n := 0
		before := copyHeap(st.heap)
		mark := d.e.nobj
		for _, o := range d.e.exec(fn, []Value{curve, p, q}, nil, st) {
			if o.st.c.dead || !o.st.c.Feasible() {
				continue
			}
			n++
			d.r.outcomes++
			id := fmt.Sprintf("%s/path%d", kind, n)
			if kind == "opposite" {
				d.ob(id+"/ends the process", o.kind == "exit", "execution", o.kind+" "+o.msg)
				continue
			}
			if o.kind != "ret" {
				d.ob(id+"/returns", false, "", o.kind+" "+o.msg)
				continue
			}
			d.sum(id, o, mark, x1, y1, x2, y2, kind == "tangent")
			d.frame(id, before, o.st)
		}
		d.ob(kind+"/reached", n > 0, "execution", "no outcome")
	}
}

// sum: the obligations on a sum of two points.
func (d *depCheck) sum(id string, o Outcome, mark int, x1, y1, x2, y2 *Term, double bool) {
	c := o.st.c
	s, ok := o.vals[0].(*VStruct)
	if !ok {
		unsup("result of AddPoints")
	}
	var co [2]*Term
	for i := range co {
		p, ok := s.f[i].(VPtr)
		if !ok || p.obj == 0 {
			d.ob(id+"/finite", false, "", "a coordinate is nil")
			return
		}
		d.ob(fmt.Sprintf("%s/coordinate %d is new", id, i), p.obj > mark, "execution", "shared with an argument")
		co[i] = c.N(o.st.obj(p.obj).t)
		d.prove(c, fmt.Sprintf("%s/coordinate %d in 0..P-1", id, i), And(Le(zero, co[i]), Lt(co[i], ecPT)))
	}
	x1, y1, x2, y2 = c.N(x1), c.N(y1), c.N(x2), c.N(y2)
	eq := func(x, y *Term) *Term { return Sub(Mul(y, y), Add(Mul(x, Mul(x, x)), Int(7))) }
	inv := func(q *Term) *Term { return UF("modinv", SInt, strip(q), ecPT) }
	var l, dx *Term
	var cert [][2]*Term
	if double {
		l = Mul(Mul(Int(3), Mul(x1, x1)), inv(Mul(Int(2), y1)))
		d.ob(id+"/slope", congruent(Mul(l, Mul(Int(2), y1)), Mul(Int(3), Mul(x1, x1))), "polynomial identity", "l*2*y1 is not 3*x1^2")
		cert = [][2]*Term{{one, eq(x1, y1)}}
	} else {
		dx = Sub(x2, x1)
		l = Mul(Sub(y2, y1), inv(dx))
		d.ob(id+"/slope", congruent(Mul(l, dx), Sub(y2, y1)), "polynomial identity", "l*(x2-x1) is not y2-y1")
		k := Mul(Sub(Sub(Mul(l, l), dx), Mul(Int(3), x1)), inv(dx))
		cert = [][2]*Term{{one, eq(x1, y1)}, {k, Sub(eq(x2, y2), eq(x1, y1))}}
	}
	x3, y3 := co[0], co[1]
	d.ob(id+"/x3 = l^2-x1-x2", congruent(x3, Sub(Mul(l, l), Add(x1, x2))), "polynomial identity", strip(x3).String())
	d.ob(id+"/y3 = l*(x1-x3)-y1", congruent(y3, Sub(Mul(l, Sub(x1, x3)), y1)), "polynomial identity", strip(y3).String())
	d.ob(id+"/symmetric: y3 = l*(x2-x3)-y2", congruent(y3, Sub(Mul(l, Sub(x2, x3)), y2)), "polynomial identity", "")
	on := congruent(Mul(y3, y3), Add(Mul(x3, Mul(x3, x3)), Int(7)), cert...)
	d.ob(id+"/on the curve", on, "polynomial identity (cofactors)", "y3^2 is not x3^3+7")
	// the flag: y3^2 mod P = (x3^3+7) mod P
	flag := c.N(o.vals[1].(*Term))
	if flag == True {
		d.ob(id+"/flag", true, "normaliser", "")
		return
	}
	// the equations hold by the certificate, the rest follows from them
	parts := []*Term{flag}
	if flag.op == "and" {
		parts = flag.args
	}
	x := c.clone()
	okFlag := false
	for _, f := range parts {
		if f.op == "eq0" && reducedDifference(f.args[0]) && congruent(f.args[0], zero, cert...) {
			x.Assume(f)
			okFlag = true
		}
	}
	okFlag = okFlag && x.Prove(flag)
	d.ob(id+"/flag", okFlag, "polynomial identity (cofactors)", fmt.Sprintf("the flag is %s/%d %s", flag.op, len(flag.args), trunc(flag.String(), 300)))
}

// reducedDifference: p is a difference of two numbers in 0..P-1, so p = 0 (mod P) means p = 0.
func reducedDifference(p *Term) bool {
	ms := asPoly(p)
	if len(ms) != 2 || ms[0].coef.CmpAbs(big.NewInt(1)) != 0 || new(big.Int).Add(ms[0].coef, ms[1].coef).Sign() != 0 {
		return false
	}
	for _, m := range ms {
		if len(m.atoms) != 1 || m.atoms[0].op != "mod" || m.atoms[0].args[1] != ecPT {
			return false
		}
	}
	return true
}

// ---- ScalarMult ----

func (d *depCheck) scalarMult() {
	fn := d.v.depFn("ScalarMult")
	if fn == nil {
		unsup("ScalarMult not found")
	}
	st, curve := d.start()
	e := d.e
	ls := e.loopsOf(fn)
	if len(ls) != 1 {
		unsup("ScalarMult has %d loops", len(ls))
	}
	loop := ls[0]
	var phiR1, phiI *ssa.Phi
	for _, p := range phisOf(loop.head) {
		switch p.Comment {
		case "R1":
			phiR1 = p
		case "i":
			phiI = p
		default:
			unsup("the ladder carries %s", p.Comment)
		}
	}
	var r0 *ssa.Alloc
	for _, in := range fn.Blocks[0].Instrs {
		if a, ok := in.(*ssa.Alloc); ok && a.Comment == "R0" {
			r0 = a
		}
	}
	if phiR1 == nil || phiI == nil || r0 == nil {
		unsup("the variables R0, R1 and i of the ladder are not found")
	}
	n := IVar("n")
	two256 := BigT(pow(2, 256))
	st.c.Assume(Le(zero, n))
	st.c.Assume(Lt(n, two256))
	P := &VStruct{[]Value{e.newBig(st, BigT(ecGx)), e.newBig(st, BigT(ecGy))}}
	nv := e.newBig(st, n)
	env := map[ssa.Value]Value{fn.Params[0]: curve, fn.Params[1]: nv, fn.Params[2]: P}
	atHead := func(y *item) bool { return y.blk == loop.head }
	first, outs := e.region([]*item{{st: st, env: env, blk: fn.Blocks[0], counts: map[*ssa.BasicBlock]int{}, unroll: map[*ssa.BasicBlock]bool{}}}, atHead)
	if len(first) != 1 || len(outs) != 0 {
		unsup("the beginning of ScalarMult")
	}
	base := first[0]
	cell := base.env[r0].(VPtr).obj
	r0Of := func(x *item) Value { return x.st.obj(cell).v }
	// on entry: w = 0
	i0, _ := e.phiVal(base, phiI).(*Term)
	d.ob("entry/i = 255", i0 != nil && base.st.c.N(i0).isInt(255), "execution", fmt.Sprint(i0))
	d.isPoint(base.st, "entry/R0", r0Of(base), zero, P, 0)
	d.isPoint(base.st, "entry/R1", e.phiVal(base, phiR1), one, P, 0)

	mkPoint := func(s *State, w *Term) Value {
		switch {
		case w.isInt(0):
			return &VStruct{[]Value{nilPtr, nilPtr}}
		case w.isInt(1):
			return P
		}
		return &VStruct{[]Value{e.newBig(s, s.c.App("mulx", SInt, w)), e.newBig(s, s.c.App("muly", SInt, w))}}
	}
	// one round, from an arbitrary state that satisfies the invariant
	for _, last := range []bool{false, true} {
		for _, start := range []string{"w=0", "w=1", "w>1"} {
			id := fmt.Sprintf("round(%s,i>0)", start)
			if last {
				id = fmt.Sprintf("round(%s,i=0)", start)
			}
			w, b, i := zero, IVar("b"), IVar("i")
			var before map[int]*Obj
			mark := 0
			e.bitHook = func(s *State, num, at *Term) *Term {
				if s.c.N(num) == s.c.N(n) && s.c.N(at) == s.c.N(i) {
					return s.c.N(b)
				}
				return nil
			}
			run := e.runBody(base, loop, func(x *item) {
				c := x.st.c
				c.Assume(Le(zero, b))
				c.Assume(Le(b, one))
				switch start {
				case "w=1":
					w = one
				case "w>1":
					w = IVar("w")
					c.Assume(Lt(one, w))
				}
				if last {
					// w = n div 2, b = n mod 2
					i = zero
					c.Assume(c.EqInt(n, Add(Mul(Int(2), w), b)))
				} else {
					// w = n div 2^(i+1) with i > 0, b is bit i of n, so n div 2^i = 2*w+b
					c.Assume(Lt(zero, i))
					c.Assume(Lt(i, Int(256)))
					c.Assume(Lt(w, BigT(pow(2, 254))))
				}
				x.env[phiI] = i
				x.st.heap[cell] = &Obj{kind: x.st.heap[cell].kind, v: mkPoint(x.st, w), label: x.st.heap[cell].label, elem: x.st.heap[cell].elem}
				x.env[phiR1] = mkPoint(x.st, Add(w, one))
				before = copyHeap(x.st.heap)
				mark = e.nobj
			})
			e.bitHook = nil
			rounds := 0
			for _, y := range run.back {
				if y.st.c.dead || !y.st.c.Feasible() {
					continue
				}
				rounds++
				d.r.outcomes++
				pid := fmt.Sprintf("%s/path%d", id, rounds)
				c := y.st.c
				nw := c.N(Add(Mul(Int(2), w), b))
				if v := c.constOf(nw); v != nil {
					nw = BigT(v)
				}
				d.isPoint(y.st, pid+"/R0", r0Of(y), nw, P, mark)
				d.isPoint(y.st, pid+"/R1", e.phiVal(y, phiR1), Add(nw, one), P, mark)
				ni, ok := e.phiVal(y, phiI).(*Term)
				d.ob(pid+"/i", ok && c.Prove(c.EqInt(ni, Sub(i, one))), "normaliser", "i is not one less")
				d.frame(pid, before, y.st, cell)
			}
			for _, y := range run.exit {
				d.ob(id+"/stays in the loop", y.st.c.dead || y.st.c.Infeasible(), "z3", "the loop may end early")
			}
			ends := 0
			for _, o := range run.outs {
				if o.st.c.dead || !o.st.c.Feasible() {
					continue
				}
				ends++
				pid := fmt.Sprintf("%s/end%d", id, ends)
				if !last || o.kind != "exit" {
					d.ob(pid, false, "", o.kind+" "+o.msg)
					continue
				}
				c := o.st.c
				d.prove(c, pid+"/only for N-1 and N", Or(c.EqInt(n, BigT(new(big.Int).Sub(ecN, big.NewInt(1)))), c.EqInt(n, ecNT)))
			}
			if start == "w>1" || !last {
				d.ob(id+"/reached", rounds > 0, "execution", "no round")
			}
			if rounds > 0 && start == "w>1" && last {
				// and for N-1 and N the ladder does end the process: no round is completed
				for k, y := range run.back {
					x := y.st.c.clone()
					x.Assume(Or(x.EqInt(n, BigT(new(big.Int).Sub(ecN, big.NewInt(1)))), x.EqInt(n, ecNT)))
					d.ob(fmt.Sprintf("%s/path%d/not for N-1 and N", id, k+1), x.dead || x.Infeasible(), "z3", "the round is completed")
				}
			}
		}
	}
	// after the last round: w = n
	for _, start := range []string{"n=0", "n=1", "n>1"} {
		w := zero
		mark := 0
		run := e.runBody(base, loop, func(x *item) {
			c := x.st.c
			switch start {
			case "n=1":
				w = one
			case "n>1":
				w = n
				c.Assume(Lt(one, n))
				c.Assume(Not(c.EqInt(n, BigT(new(big.Int).Sub(ecN, big.NewInt(1))))))
				c.Assume(Not(c.EqInt(n, ecNT)))
			}
			c.Assume(c.EqInt(n, w))
			x.env[phiI] = Int(-1)
			mark = e.nobj
			x.st.heap[cell] = &Obj{kind: x.st.heap[cell].kind, v: mkPoint(x.st, w), label: x.st.heap[cell].label, elem: x.st.heap[cell].elem}
			x.env[phiR1] = mkPoint(x.st, Add(w, one))
		})
		d.ob("end("+start+")/leaves the loop", len(run.back) == 0 && len(run.exit) == 1, "execution", "the loop goes on")
		for _, y := range run.exit {
			_, outs := e.region([]*item{y}, nil)
			for k, o := range outs {
				if o.st.c.dead || !o.st.c.Feasible() {
					continue
				}
				d.r.outcomes++
				id := fmt.Sprintf("end(%s)/path%d", start, k+1)
				if o.kind != "ret" {
					d.ob(id, false, "", o.kind+" "+o.msg)
					continue
				}
				p, ok := o.vals[0].(VPtr)
				if !ok || p.obj == 0 {
					d.ob(id, false, "", "the result is nil")
					continue
				}
				d.isPoint(o.st, id+"/point", o.st.obj(p.obj).v, w, P, mark)
				flag := o.vals[1].(*Term)
				if start == "n=0" {
					flag = Not(flag)
				}
				d.prove(o.st.c, id+"/flag", flag)
			}
		}
	}
}

// isPoint: val is w times G: no coordinates for w = 0, those of the argument for w = 1, new numbers otherwise.
func (d *depCheck) isPoint(st *State, id string, val Value, w *Term, P *VStruct, mark int) {
	s, ok := val.(*VStruct)
	if !ok || len(s.f) != 2 {
		d.ob(id, false, "", "not a point")
		return
	}
	c := st.c
	w = c.N(w)
	for i, name := range []string{"mulx", "muly"} {
		p, ok := s.f[i].(VPtr)
		if !ok {
			d.ob(id, false, "", "not a point")
			return
		}
		switch {
		case w.isInt(0):
			d.ob(id+"/infinity", p.obj == 0, "execution", "a coordinate is not nil")
		case w.isInt(1):
			d.ob(id+"/the point itself", sameVal(p, P.f[i]), "execution", "not a coordinate of the argument")
		default:
			if p.obj == 0 {
				d.ob(id, false, "", "a coordinate is nil")
				return
			}
			d.ob(id+"/new", p.obj > mark || mark == 0, "execution", "shared")
			d.prove(c, id+"/"+name, c.EqInt(c.N(st.obj(p.obj).t), c.App(name, SInt, w)))
		}
	}
}
