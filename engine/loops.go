package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// slot is a loop-carried quantity: a phi, or a heap object the body changes.
type slot struct {
	phi  *ssa.Phi
	obj  int
	kind string // int, seq, bytes (slice content), big, builder, cellint, cellseq, bytesobj, map
	v0   Value
	t0   *Term
	g    *Term // generic value
	cl   func(k *Term, c *Ctx) *Term
}

func (e *Eng) slotGet(it *item, s *slot, v Value) *Term {
	st := it.st
	switch s.kind {
	case "int", "seq", "bool":
		return st.c.N(v.(*Term))
	case "bytes":
		return e.bytesOf(st, v)
	}
	o := st.obj(s.obj)
	switch s.kind {
	case "big", "builder", "bytesobj":
		return st.c.N(o.t)
	case "cellint", "cellseq":
		return st.c.N(o.v.(*Term))
	}
	panic("slot")
}

func (e *Eng) slotSet(it *item, s *slot, t *Term) {
	st := it.st
	switch s.kind {
	case "int", "seq", "bool":
		it.env[s.phi] = t
		return
	case "bytes":
		v := e.newBytes(st, t)
		o := *st.obj(v.obj)
		o.shared = true
		st.heap[v.obj] = &o
		it.env[s.phi] = v
		return
	}
	o := *st.obj(s.obj)
	switch s.kind {
	case "big", "builder", "bytesobj":
		o.t = t
	case "cellint", "cellseq":
		o.v = t
	}
	st.heap[s.obj] = &o
}

type bodyRun struct {
	back, exit []*item
	outs       []Outcome
	base       int
	mark       int
}

func (e *Eng) runBody(it *item, l *Loop, prep func(x *item)) *bodyRun {
	return e.runFixed(it, l, prep, nil, false)
}

// runFixed: as runBody; ways back to the head that change a value in fixed are followed (last) or left out.
func (e *Eng) runFixed(it *item, l *Loop, prep func(x *item), fixed map[*ssa.Phi]Value, last bool) *bodyRun {
	x := it.fork()
	for _, p := range phisOf(l.head) {
		if _, ok := x.env[p]; !ok {
			x.env[p] = nil
		}
	}
	prep(x)
	x.phis, x.joined = true, false
	x.idx = len(phisOf(l.head))
	r := &bodyRun{base: len(x.st.c.pc), mark: termCount}
	stop := func(y *item) bool { return y.blk == l.head || !l.body[y.blk] }
	s, o := e.region([]*item{x}, stop)
	r.outs = o
	for _, y := range s {
		if y.blk != l.head {
			r.exit = append(r.exit, y)
			continue
		}
		if fixed == nil {
			r.back = append(r.back, y)
			continue
		}
		for _, z := range e.splitFixed(y, fixed) {
			if z.same {
				r.back = append(r.back, z.it)
				continue
			}
			// a value that the other iterations leave alone has changed: the loop ends here, or goes on with the new value
			if !last {
				continue
			}
			w := z.it.fork()
			if !w.joined {
				e.evalPhis(w)
			}
			w.joined = false
			w.phis = true
			w.idx = len(phisOf(l.head))
			s2, o2 := e.region([]*item{w}, stop)
			leaves := true
			for _, x := range s2 {
				leaves = leaves && x.blk != l.head
			}
			if !leaves {
				var ok bool
				if e.regimes >= 2 {
					unsup("too many changes of a loop")
				}
				e.notDigits(z.it.st, r.base)
				e.regimes++
				s2, o2, ok = e.summarize(z.it.fork(), l)
				e.regimes--
				if !ok {
					unsup("%s", e.noSum[l.head])
				}
			}
			r.exit = append(r.exit, s2...)
			r.outs = append(r.outs, o2...)
		}
	}
	return r
}

type settled struct {
	it   *item
	same bool
}

// splitFixed: the ways back to the head of a loop, by whether the phis in fixed have kept their values.
func (e *Eng) splitFixed(y *item, fixed map[*ssa.Phi]Value) []settled {
	out := []settled{{y, true}}
	for _, p := range phisOf(y.blk) {
		v0, ok := fixed[p]
		if !ok {
			continue
		}
		v := e.phiVal(y, p)
		if v == nil || sameVal(v, v0) {
			continue
		}
		t, ok1 := v.(*Term)
		t0, ok2 := v0.(*Term)
		if !ok1 || !ok2 || t.sort != SBool || t0 != True && t0 != False || t == True || t == False {
			return []settled{{y, false}}
		}
		for i := range out {
			if !out[i].same {
				continue
			}
			b := out[i].it
			a := b.fork()
			same, other := t, Not(t)
			if t0 == False {
				same, other = other, same
			}
			a.st.c.Assume(same)
			a = e.setPhi(a, p, v0)
			b.st.c.Assume(other)
			b = e.setPhi(b, p, Value(Not(t0)))
			out[i].it = a
			out = append(out, settled{b, false})
		}
	}
	return out
}

// setPhi fixes the value of a phi at the head of a loop that the item is about to enter.
func (e *Eng) setPhi(it *item, p *ssa.Phi, v Value) *item {
	x := it.fork()
	if !x.joined {
		e.evalPhis(x)
		x.joined = true
		x.idx = 0
	}
	x.env[p] = v
	return x
}

func (e *Eng) phiVal(it *item, p *ssa.Phi) Value {
	if it.joined {
		return it.env[p]
	}
	for i, q := range it.blk.Preds {
		if q == it.prev {
			return e.val(it, p.Edges[i])
		}
	}
	return nil
}

func hasFresh(t *Term, mark int, except *Term) bool {
	switch t.op {
	case "ivar", "svar", "bvar", "lvar":
		return t.id >= mark && t != except
	}
	for _, a := range t.args {
		if hasFresh(a, mark, except) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			if hasFresh(a, mark, except) {
				return true
			}
		}
	}
	return false
}

func subst(c *Ctx, t, from, to *Term) *Term {
	if occurs(from, to) { // in two steps: normalising repeats a substitution
		tmp := IVar(freshName("tmp"))
		return subst(c, subst(c, t, from, tmp), tmp, to)
	}
	d := newCtx(nil)
	d.sub[from] = to
	return d.N(t)
}

// summarize replaces a loop by the closed form of its k-th iteration, for a recognised loop shape.
func (e *Eng) summarize(it *item, l *Loop) (items []*item, outs []Outcome, ok bool) {
	if _, bad := e.noSum[l.head]; bad {
		return nil, nil, false
	}
	e.guessing++
	defer func() { e.guessing-- }()
	steps0 := e.steps
	fail := func(f string, a ...interface{}) ([]*item, []Outcome, bool) {
		e.noSum[l.head] = fmt.Sprintf(f, a...)
		if os.Getenv("GOVER_L") != "" {
			fmt.Println("loop", e.blockPos(l.head), l.head.Index, len(l.body), e.noSum[l.head])
		}
		e.steps = steps0
		return nil, nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(Unsupported)
			if !is {
				panic(r)
			}
			items, outs, ok = fail("%s", u.msg)
		}
	}()
	// entry values
	var slots []*slot
	fixed := map[*ssa.Phi]Value{}
	for _, p := range phisOf(l.head) {
		v := e.phiVal(it, p)
		s := &slot{phi: p, v0: v}
		switch x := v.(type) {
		case *Term:
			switch x.sort {
			case SInt:
				s.kind = "int"
			case SSeq:
				s.kind = "seq"
			default:
				fixed[p] = v
				continue
			}
			s.t0 = it.st.c.N(x)
		case VSlice:
			if sl, isS := p.Type().Underlying().(*types.Slice); isS && isByte(sl.Elem()) {
				s.kind = "bytes"
				s.t0 = e.bytesOf(it.st, x)
			} else {
				fixed[p] = v
				continue
			}
		default:
			fixed[p] = v
			continue
		}
		slots = append(slots, s)
	}
	mapSlots := map[int]bool{}
	prep := func(val func(s *slot, c *Ctx) *Term) func(x *item) {
		return func(x *item) {
			for p, v := range fixed {
				x.env[p] = v
			}
			for _, s := range slots {
				e.slotSet(x, s, val(s, x.st.c))
			}
			for id := range mapSlots {
				o := *x.st.obj(id)
				o.label = "building"
				x.st.heap[id] = &o
			}
		}
	}
	type mapForm struct {
		list, idx, off *Term // iteration with slot value v sets list[v+idx] to v+off
		s              *slot
	}
	mapForms := map[int]*mapForm{}
	mapStep := func(b *item, id int) (key, val *Term) {
		o := b.st.heap[id]
		if len(o.keys) != 1 || o.t != nil {
			return nil, nil
		}
		key = b.st.c.N(o.keys[0])
		val, _ = o.vals[0].(*Term)
		if key.op != "elem" || val == nil || val.sort != SInt {
			return nil, nil
		}
		return key, b.st.c.N(val)
	}
	// pass 1: guess, adding heap objects the body changes as slots
	var g1 *bodyRun
	for round := 0; round < 4; round++ {
		for _, s := range slots {
			s.g = IVar(freshName("g"))
			if s.kind == "seq" || s.kind == "bytes" || s.kind == "builder" || s.kind == "cellseq" || s.kind == "bytesobj" {
				s.g = SVar(freshName("g"))
			}
		}
		g1 = e.runFixed(it, l, prep(func(s *slot, c *Ctx) *Term {
			c.quick = true
			if s.kind == "int" || s.kind == "cellint" { // a guess: away from overflow
				c.Assume(Le(s.g, BigT(pow(2, 61))))
				c.Assume(Le(BigT(new(big.Int).Neg(pow(2, 61))), s.g))
			}
			return s.g
		}), fixed, false)
		if len(g1.back) == 0 {
			return fail("the body never repeats")
		}
		added := false
		for _, b := range g1.back {
			for id, o := range it.st.heap {
				o2 := b.st.heap[id]
				if o2 == o || o2 == nil {
					continue
				}
				known := mapSlots[id]
				for _, s := range slots {
					known = known || (s.phi == nil && s.obj == id)
				}
				if known {
					continue
				}
				s := &slot{obj: id}
				switch o.kind {
				case "big":
					s.kind, s.t0 = "big", it.st.c.N(o.t)
				case "builder":
					s.kind, s.t0 = "builder", it.st.c.N(o.t)
				case "cell":
					t, isT := o.v.(*Term)
					if !isT {
						if o.v == o2.v {
							continue
						}
						return fail("the body changes a variable of unsupported type")
					}
					switch t.sort {
					case SInt:
						s.kind = "cellint"
					case SSeq:
						s.kind = "cellseq"
					default:
						return fail("the body changes a boolean variable")
					}
					s.t0 = it.st.c.N(t)
				case "iter":
					p, isT := o.v.(*Term)
					if !isT {
						return fail("the body changes an iterator")
					}
					s.kind, s.t0 = "cellint", it.st.c.N(p)
				case "map":
					if len(o.keys) != 0 || o.t != nil {
						return fail("the body changes a map")
					}
					mapSlots[id] = true
					added = true
					continue
				case "bytes":
					if o.shared == o2.shared && o.label == o2.label || o.t != o2.t {
						return fail("the body changes a byte array")
					}
					continue // only flags changed
				default:
					return fail("the body changes a %s", o.kind)
				}
				slots = append(slots, s)
				added = true
			}
		}
		if !added {
			break
		}
		if round == 3 {
			return fail("loop-carried state does not settle")
		}
	}
	for id := range mapSlots {
		for _, b := range g1.back {
			key, val := mapStep(b, id)
			if key == nil {
				return fail("map loop")
			}
			var f *mapForm
			for _, s := range slots {
				if s.phi == nil || s.g.sort != SInt {
					continue
				}
				ix, off := Sub(key.args[1], s.g), Sub(val, s.g)
				if ix.isConst() && off.isConst() {
					f = &mapForm{key.args[0], ix, off, s}
				}
			}
			if f == nil || mapForms[id] != nil && *mapForms[id] != *f {
				return fail("map loop")
			}
			mapForms[id] = f
		}
	}
	// closed forms
	for _, s := range slots {
		var form *Term // step or appended text
		mode := ""
		for _, b := range g1.back {
			var v Value
			if s.phi != nil {
				v = e.phiVal(b, s.phi)
				if v == nil {
					return fail("phi")
				}
			}
			n := e.slotGet(b, s, v)
			m, f := "", (*Term)(nil)
			if n == s.g {
				m, f = "same", zero
			} else if s.g.sort == SInt {
				d := Sub(n, s.g)
				if d.isConst() {
					m, f = "step", d
				}
			} else {
				sg := segs(n)
				if len(sg) > 0 && sg[len(sg)-1] == s.g {
					m, f = "pre", catRaw(sg[:len(sg)-1])
				} else if len(sg) > 0 && sg[0] == s.g {
					m, f = "post", catRaw(sg[1:])
				}
			}
			if m == "" {
				return fail("%s becomes %s", s.g, n)
			}
			if mode != "" && (m != mode || f != form) {
				return fail("different steps")
			}
			mode, form = m, f
		}
		s := s
		switch mode {
		case "same":
			s.cl = func(k *Term, c *Ctx) *Term { return s.t0 }
		case "step":
			s.cl = func(k *Term, c *Ctx) *Term { return Add(s.t0, Mul(form, k)) }
		case "pre", "post":
			if form.op != "lit" && form.op != "rep" {
				return fail("a non-constant text is added")
			}
			var ch, n *Term
			if form.op == "lit" {
				for i := 1; i < len(form.s); i++ {
					if form.s[i] != form.s[0] {
						return fail("a text of several characters is added")
					}
				}
				ch, n = Int(int64(form.s[0])), Int(int64(len(form.s)))
			} else {
				if !form.args[0].isConst() || !form.args[1].isConst() {
					return fail("a non-constant text is added")
				}
				ch, n = form.args[0], form.args[1]
			}
			if mode == "pre" {
				s.cl = func(k *Term, c *Ctx) *Term { return c.Cat(c.Rep(ch, c.N(Mul(n, k))), s.t0) }
			} else {
				s.cl = func(k *Term, c *Ctx) *Term { return c.Cat(s.t0, c.Rep(ch, c.N(Mul(n, k)))) }
			}
		}
	}
	// pass 2: the condition under which iteration k continues (a guess), then: the closed form is inductive, under
	// the hypothesis that iteration k-1 continued
	k := IVar(freshName("it"))
	var hist *Term
	draws := false
	for round := 0; round < 2; round++ {
		far := Le(k, BigT(pow(2, 61)))
		g2 := e.runFixed(it, l, func(x *item) {
			x.st.c.Assume(Le(zero, k))
			if round == 0 {
				x.st.c.quick = true
				x.st.c.Assume(far)
			} else {
				x.st.c.Assume(Or(Le(k, zero), subst(x.st.c, hist, k, Sub(k, one))))
			}
			prep(func(s *slot, c *Ctx) *Term { return s.cl(k, c) })(x)
		}, fixed, false)
		var D []*Term
		terminates := len(g2.back) > 0
		for _, b := range g2.back {
			if round == 1 && !b.st.c.Prove(hist) {
				return fail("the continuation condition is not established")
			}
			for _, s := range slots {
				var v Value
				if s.phi != nil {
					v = e.phiVal(b, s.phi)
				}
				got := e.slotGet(b, s, v)
				want := s.cl(Add(k, one), b.st.c)
				if !b.st.c.Prove(b.st.c.Eq(got, want)) {
					return fail("not inductive: %s", s.g)
				}
			}
			for p, v0 := range fixed {
				v := e.phiVal(b, p)
				if !sameVal(v, v0) {
					return fail("%s changes", p.Comment)
				}
			}
			for id, o := range it.st.heap {
				o2 := b.st.heap[id]
				if o2 == o {
					continue
				}
				isSlot := false
				for _, s := range slots {
					isSlot = isSlot || (s.phi == nil && s.obj == id)
				}
				if f := mapForms[id]; f != nil && o2 != nil {
					key, val := mapStep(b, id)
					at := f.s.cl(k, b.st.c)
					if key == nil || key.args[0] != f.list || !b.st.c.Prove(b.st.c.EqInt(key.args[1], Add(at, f.idx))) || !b.st.c.Prove(b.st.c.EqInt(val, Add(at, f.off))) {
						return fail("map loop: not inductive")
					}
					isSlot = true
				}
				if !isSlot && !(o.kind == "bytes" && o2 != nil && o.t == o2.t) {
					return fail("heap changes")
				}
			}
			if len(b.st.io) != len(it.st.io) {
				return fail("output in a loop")
			}
			var cs []*Term
			term := false
			for _, p := range b.st.c.pc[g2.base:] {
				if p == Le(zero, k) || p == far || hasFresh(p, g2.mark, k) {
					continue
				}
				cs = append(cs, p)
				if p.op == "le0" {
					pos, rest := false, false
					for _, m := range asPoly(p.args[0]) {
						if len(m.atoms) == 1 && m.atoms[0] == k {
							pos = m.coef.Sign() > 0
						} else if len(m.atoms) > 0 {
							for _, a := range m.atoms {
								rest = rest || occurs(k, a)
							}
						}
					}
					if pos && !rest {
						term = true
					}
				}
			}
			if len(b.st.draws) > len(it.st.draws) {
				draws = true
			}
			terminates = terminates && term
			D = append(D, And(cs...))
		}
		if round == 0 {
			if !terminates && !draws {
				return fail("no termination argument")
			}
			hist = Or(D...)
		}
	}
	if draws {
		e.assumed["termination of a loop that draws random numbers until one is acceptable ("+e.blockPos(l.head)+")"] = true
	}
	// pass 3: iterations 0..k-1 continued
	g3 := e.runFixed(it, l, func(x *item) {
		x.st.c.Assume(Le(zero, k))
		if hist != True {
			j := IVar(freshName("j"))
			body := subst(x.st.c, hist, k, j)
			if occursElem(body, j) {
				x.st.c.Assume(mk("forall", SBool, nil, j.s, Or(Not(Le(zero, j)), Not(Lt(j, k)), body)))
			}
			prev := subst(x.st.c, hist, k, Sub(k, one))
			x.st.c.Assume(Or(Le(k, zero), prev))
		}
		prep(func(s *slot, c *Ctx) *Term { return s.cl(k, c) })(x)
	}, fixed, true)
	e.loopNotes[fmt.Sprintf("%s: closed form of iteration k proved inductive, %d loop-carried value(s)", e.blockPos(l.head), len(slots))] = true
	if draws {
		for i := range g3.outs {
			g3.outs[i].st.draws = append(g3.outs[i].st.draws, Draw{lost: true})
		}
	}
	for _, x := range g3.exit {
		if x.st.c.dead {
			continue
		}
		if draws {
			x.st.draws = append(x.st.draws, Draw{lost: true})
		}
		for id, f := range mapForms {
			// every element of the list went in, in order
			o := *x.st.obj(id)
			if len(o.keys) != 0 || f.s.cl(zero, x.st.c) != Neg(f.idx) || f.s.cl(one, x.st.c) != Sub(one, f.idx) ||
				!x.st.c.Prove(x.st.c.EqInt(k, x.st.c.LLen(x.st.c.N(f.list)))) {
				return fail("map loop")
			}
			o.label, o.t, o.v = "", f.list, Sub(f.off, f.idx)
			x.st.heap[id] = &o
		}
		e.indexLemma(x.st, hist, k, g3.base)
		e.digitLemma(it, x.st, hist, k)
		items = append(items, e.exactCount(x, k, g3.base)...)
	}
	return e.joinExits(it, l, items), g3.outs, true
}

// joinExits merges ways of leaving a summarised loop that end at the same place with the same values; what only
// one of them knows about the iteration count is dropped.
func (e *Eng) joinExits(base *item, l *Loop, items []*item) []*item {
	var out []*item
next:
	for _, x := range items {
		for i, y := range out {
			if m := e.joinPair(base, l, y, x); m != nil {
				out[i] = m
				continue next
			}
		}
		out = append(out, x)
	}
	return out
}

func (e *Eng) joinPair(base *item, l *Loop, a, b *item) *item {
	if a.joined || b.joined || a.blk != b.blk || a.prev != b.prev || a.phis != b.phis || a.idx != b.idx {
		return nil
	}
	if len(a.st.draws) != len(b.st.draws) || a.st.rfail != b.st.rfail || len(a.st.io) != len(b.st.io) {
		return nil
	}
	for i := range a.st.draws {
		if a.st.draws[i] != b.st.draws[i] {
			return nil
		}
	}
	same := func(x, y Value) (Value, bool) { return agree(a.st.c, b.st.c, x, y) }
	usedOutside := func(v ssa.Value) bool {
		rs := v.Referrers()
		if rs == nil {
			return true
		}
		for _, in := range *rs {
			if !l.body[in.Block()] {
				return true
			}
		}
		return false
	}
	env := map[ssa.Value]Value{}
	for k, va := range a.env {
		vb, ok := b.env[k]
		if v, eq := same(va, vb); ok && eq {
			env[k] = v
		} else if base.env[k] != nil || usedOutside(k) {
			return nil
		}
	}
	heap := map[int]*Obj{}
	for id, oa := range a.st.heap {
		ob := b.st.heap[id]
		if oa == ob || ob == nil {
			heap[id] = oa
			continue
		}
		o := *oa
		if oa.kind != ob.kind || oa.label != ob.label || len(oa.arr) != len(ob.arr) || len(oa.keys) != len(ob.keys) || oa.kind == "map" || oa.kind == "iter" {
			return nil
		}
		o.shared = oa.shared || ob.shared
		if oa.t != ob.t {
			if oa.t == nil || ob.t == nil {
				return nil
			}
			t, ok := same(oa.t, ob.t)
			if !ok {
				return nil
			}
			o.t = t.(*Term)
		}
		if oa.v != nil || ob.v != nil {
			v, ok := same(oa.v, ob.v)
			if !ok {
				return nil
			}
			o.v = v
		}
		if oa.arr != nil {
			o.arr = make([]Value, len(oa.arr))
			for i := range oa.arr {
				v, ok := same(oa.arr[i], ob.arr[i])
				if !ok {
					return nil
				}
				o.arr[i] = v
			}
		}
		heap[id] = &o
	}
	for id, ob := range b.st.heap {
		if heap[id] == nil {
			heap[id] = ob
		}
	}
	st := base.st.clone()
	st.heap = heap
	st.draws, st.rfail, st.io = a.st.draws, a.st.rfail, a.st.io
	st.merges, st.depth = a.st.merges, a.st.depth
	n := len(base.st.c.pc)
	inB := map[*Term]bool{}
	for _, p := range b.st.c.pc[n:] {
		inB[p] = true
	}
	inA := map[*Term]bool{}
	for _, p := range a.st.c.pc[n:] {
		inA[p] = true
		if inB[p] {
			st.c.Assume(p)
		}
	}
	only := func(pc []*Term, other map[*Term]bool) *Term {
		var o []*Term
		for _, p := range pc {
			if !other[p] && p.op != "forall" {
				o = append(o, p)
			}
		}
		if len(o) > 8 {
			return True
		}
		return And(o...)
	}
	st.c.Assume(Or(only(a.st.c.pc[n:], inB), only(b.st.c.pc[n:], inA)))
	if st.c.dead {
		return nil
	}
	return &item{st: st, env: env, blk: a.blk, prev: a.prev, idx: a.idx, phis: a.phis, counts: a.counts, unroll: a.unroll}
}

// agree: the two values are the same in their contexts.
func agree(ca, cb *Ctx, x, y Value) (Value, bool) {
	if sameVal(x, y) {
		return x, true
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.sort == b.sort {
			n := ca.N(a)
			return n, n == cb.N(b)
		}
	case VTuple:
		b, ok := y.(VTuple)
		if !ok || len(a.v) != len(b.v) {
			return nil, false
		}
		o := VTuple{}
		for i := range a.v {
			v, ok := agree(ca, cb, a.v[i], b.v[i])
			if !ok {
				return nil, false
			}
			o.v = append(o.v, v)
		}
		return o, true
	case *VStruct:
		b, ok := y.(*VStruct)
		if !ok || len(a.f) != len(b.f) {
			return nil, false
		}
		o := &VStruct{}
		for i := range a.f {
			v, ok := agree(ca, cb, a.f[i], b.f[i])
			if !ok {
				return nil, false
			}
			o.f = append(o.f, v)
		}
		return o, true
	case VSlice:
		b, ok := y.(VSlice)
		if !ok || a.obj != b.obj || a.obj == 0 || b.obj == 0 {
			return nil, false
		}
		off, ok1 := agree(ca, cb, a.off, b.off)
		ln, ok2 := agree(ca, cb, a.ln, b.ln)
		if !ok1 || !ok2 || a.cp != b.cp {
			return nil, false
		}
		return VSlice{a.obj, off.(*Term), ln.(*Term), a.cp}, true
	}
	return nil, false
}

func occursElem(t, j *Term) bool {
	if (t.op == "elem" || t.op == "at") && t.args[1] == j {
		return true
	}
	for _, a := range t.args {
		if occursElem(a, j) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			if occursElem(a, j) {
				return true
			}
		}
	}
	return false
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		return a == b
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x == y
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VIface:
		y, ok := b.(VIface)
		return ok && x.kind == y.kind && x.typ == y.typ && (x.kind == "" || x.kind == "err" || x.kind == "reader" || sameVal(x.v, y.v))
	case VMap:
		y, ok := b.(VMap)
		return ok && x == y
	case *VFunc:
		y, ok := b.(*VFunc)
		return ok && x == y
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// indexLemma names the first position of a text in a list after a search loop (proved, then recorded).
func (e *Eng) indexLemma(st *State, hist, k *Term, base int) {
	type pr struct{ l, w *Term }
	var ps []pr
	var find func(t *Term)
	find = func(t *Term) {
		if t.op == "eq" && t.args[0].sort == SSeq {
			for i := 0; i < 2; i++ {
				a, b := t.args[i], t.args[1-i]
				if a.op == "elem" && a.args[1] == k && !occurs(k, b) {
					ps = append(ps, pr{a.args[0], b})
				}
			}
		}
		for _, a := range t.args {
			find(a)
		}
	}
	find(hist)
	for _, p := range ps {
		ix := UF("indexof", SInt, p.l, p.w)
		if st.c.N(ix) != ix {
			continue
		}
		if st.c.prove(eqInt0(Sub(k, ix)), true) {
			st.c.Assume(eqInt0(Sub(k, ix)))
			st.c.Assume(Le(zero, ix))
		} else if st.c.prove(eqInt0(Add(ix, one)), true) {
			st.c.Assume(eqInt0(Add(ix, one)))
		}
	}
}

// exactCount replaces the iteration count by its closed form where the exit condition determines it.
func (e *Eng) exactCount(x *item, k *Term, base int) []*item {
	var cands []*Term
	for _, p := range x.st.c.pc[base:] {
		if p.op != "le0" {
			continue
		}
		for _, m := range asPoly(p.args[0]) {
			if len(m.atoms) == 1 && m.atoms[0] == k && m.coef.IsInt64() && m.coef.Int64() == -1 {
				if r := Add(p.args[0], k); !occurs(k, r) {
					cands = append(cands, r)
				}
			}
		}
	}
	try := func(x *item) bool {
		for _, r := range cands {
			if x.st.c.prove(x.st.c.EqInt(k, x.st.c.N(r)), true) {
				x.st.c.Assume(x.st.c.EqInt(k, x.st.c.N(r)))
				return true
			}
		}
		return false
	}
	if os.Getenv("GOVER_D") != "" {
		e.dbg(x, 0)
		fmt.Println("cands", cands)
	}
	if len(cands) == 0 || try(x) {
		return []*item{x}
	}
	a, b := x.fork(), x.fork()
	a.st.c.Assume(Le(k, zero))
	b.st.c.Assume(Le(one, k))
	if a.st.c.dead || b.st.c.dead || !try(b) {
		return []*item{x}
	}
	e.pathCount++
	return []*item{a, b}
}

func (e *Eng) dbg(x *item, base int) {
	for _, p := range x.st.c.pc[base:] {
		fmt.Println("   pc", trunc(p.String(), 300))
	}
}

// retry replaces a loop that draws random numbers until one is acceptable by its last iteration: an iteration that
// is repeated leaves nothing behind that a later one reads.
func (e *Eng) retry(it *item, l *Loop) (items []*item, outs []Outcome, ok bool) {
	if e.noRetry[l.head] {
		return nil, nil, false
	}
	e.guessing++
	steps0 := e.steps
	defer func() {
		e.guessing--
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); !is {
				panic(r)
			}
			items, outs, ok = nil, nil, false
		}
		if !ok {
			e.noRetry[l.head] = true
			e.steps = steps0
		}
	}()
	// values that only the head reads
	dead := map[*ssa.Phi]bool{}
	for _, p := range phisOf(l.head) {
		dead[p] = true
		for _, r := range *p.Referrers() {
			if q, isPhi := r.(*ssa.Phi); isPhi && q.Block() == l.head {
				for i, x := range q.Edges {
					if x == p && l.body[l.head.Preds[i]] {
						dead[p] = false
					}
				}
				continue
			}
			if l.body[r.Block()] && r.Block() != l.head {
				dead[p] = false
			}
		}
	}
	var live []ssa.Value // what the rest of the body reads of the head
	for _, in := range l.head.Instrs {
		v, isV := in.(ssa.Value)
		if !isV {
			continue
		}
		if p, isPhi := in.(*ssa.Phi); isPhi {
			if !dead[p] {
				live = append(live, v)
			}
			continue
		}
		for _, r := range *v.Referrers() {
			if l.body[r.Block()] && r.Block() != l.head {
				live = append(live, v)
				break
			}
		}
	}
	head := func(x *item) ([]*item, []Outcome) {
		if !x.joined {
			e.evalPhis(x)
		}
		x.joined, x.phis, x.idx = false, true, len(phisOf(l.head))
		return e.region([]*item{x}, func(y *item) bool { return y.blk != l.head })
	}
	starts, o := head(it.fork())
	outs = append(outs, o...)
	for _, x := range starts {
		if !l.body[x.blk] {
			items = append(items, x)
			continue
		}
		first := x.fork()
		for p, d := range dead {
			if d {
				delete(first.env, p)
			}
		}
		ends, o := e.region([]*item{first}, func(y *item) bool { return y.blk == l.head || !l.body[y.blk] })
		outs = append(outs, o...)
		for i := range outs {
			if len(outs[i].st.draws) > len(x.st.draws) {
				outs[i].st.draws = append(outs[i].st.draws, Draw{lost: true})
			}
		}
		for _, y := range ends {
			again := []*item{y}
			if y.blk == l.head {
				var o []Outcome
				again, o = head(y)
				outs = append(outs, o...)
			}
			for _, z := range again {
				if !l.body[z.blk] {
					z.st.draws = append(z.st.draws, Draw{lost: true})
					items = append(items, z)
					continue
				}
				if z.st.c.dead {
					continue
				}
				if z.blk != x.blk || len(z.st.draws) <= len(x.st.draws) || len(z.st.io) != len(x.st.io) || len(z.st.defers) != len(x.st.defers) {
					return nil, nil, false
				}
				for _, v := range live {
					if !sameVal(z.env[v], x.env[v]) {
						return nil, nil, false
					}
				}
				for id, o := range x.st.heap {
					o2 := z.st.heap[id]
					if o2 != o && !(o.kind == "bytes" && o2 != nil && o.t == o2.t) {
						return nil, nil, false
					}
				}
			}
		}
	}
	e.assumed["termination of a loop that draws random numbers until one is acceptable ("+e.blockPos(l.head)+")"] = true
	e.loopNotes[fmt.Sprintf("%s: an iteration that is repeated leaves nothing behind", e.blockPos(l.head))] = true
	return items, outs, true
}

// digitLemma: a loop that went through a text byte by byte and left off at every byte that is no digit has seen
// digits only.
func (e *Eng) digitLemma(it *item, st *State, hist, k *Term) {
	seen := map[*Term]bool{}
	var ats []*Term
	var find func(t *Term)
	find = func(t *Term) {
		if t.op == "at" && occurs(k, t.args[1]) && !occurs(k, t.args[0]) && !seen[t] {
			seen[t] = true
			ats = append(ats, t)
		}
		for _, a := range t.args {
			find(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				find(a)
			}
		}
	}
	find(hist)
	for _, x := range ats {
		s := x.args[0]
		var lo, hi *Term // the positions it has seen
		if a := Sub(x.args[1], k); !occurs(k, a) {
			lo, hi = a, Add(a, k)
		} else if a := Add(x.args[1], k); !occurs(k, a) {
			lo, hi = Add(a, one, Neg(k)), Add(a, one)
		} else {
			continue
		}
		lo, hi = st.c.N(lo), st.c.N(hi)
		n := st.c.Len(s)
		whole := st.c.prove(And(st.c.EqInt(lo, zero), st.c.EqInt(hi, n)), true)
		if !whole && !st.c.prove(And(st.c.Le(zero, lo), st.c.Lt(lo, hi), st.c.Le(hi, n)), true) {
			continue
		}
		for _, b := range []int64{2, 10, 16} {
			c := it.st.c.clone()
			c.Assume(Le(zero, k))
			c.Assume(c.N(Le(zero, x.args[1])))
			c.Assume(c.N(Lt(x.args[1], c.Len(s))))
			c.Assume(c.N(hist))
			if !c.dead && c.Prove(c.N(isDigit(b, x))) {
				if !whole {
					s = st.c.Slice(s, lo, hi)
				}
				st.c.Assume(st.c.IsDig(b, s))
				break
			}
		}
	}
}

// notDigits: a text with a byte that is no digit does not consist of digits.
func (e *Eng) notDigits(st *State, base int) {
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if seen[t] || t.op == "forall" {
			return
		}
		seen[t] = true
		if t.op == "at" {
			for _, b := range []int64{16, 10, 2} {
				if !st.c.prove(st.c.N(And(Le(zero, t.args[1]), Lt(t.args[1], st.c.Len(t.args[0])), Not(isDigit(b, t)))), true) {
					break
				}
				st.c.Assume(Not(st.c.IsDig(b, t.args[0])))
			}
		}
		for _, a := range t.args {
			find(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				find(a)
			}
		}
	}
	for _, p := range st.c.pc[base:len(st.c.pc):len(st.c.pc)] {
		find(p)
	}
}

func isDigit(b int64, x *Term) *Term {
	in := func(lo, hi byte) *Term { return And(Le(Int(int64(lo)), x), Le(x, Int(int64(hi)))) }
	switch b {
	case 2:
		return in('0', '1')
	case 10:
		return in('0', '9')
	}
	return Or(in('0', '9'), in('a', 'f'), in('A', 'F'))
}
