package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values and heap ----

type Value interface{}

type VPtr struct {
	obj  int // 0: nil
	path string
}
type VSlice struct {
	obj         int // 0: nil slice
	off, ln, cp *Term
}
type VStruct struct{ f []Value }
type VArr struct{ e []Value }
type VIface struct {
	kind string // "": nil interface; "err": some non-nil error; "val": typed value; "hash"; "reader"
	typ  types.Type
	v    Value
}
type VTuple struct{ v []Value }
type VFunc struct {
	fn   *ssa.Function
	bind []Value
	blt  string
}
type VMap struct{ obj int }
type VIter struct{ obj int }
type VOpaque struct{ what string }

var nilPtr = VPtr{}

type Obj struct {
	kind    string // cell, big, bytes, list, arr, hash, builder, map, iter
	v       Value
	t       *Term
	arr     []Value
	elem    types.Type
	label   string
	pre     bool // existed before the call under verification
	shared  bool // may share memory with another object
	scratch bool // package state outside the contracts
	alias   bool // stands for any object of its type
	birth   *Obj // its content when it was met
	keys    []*Term
	vals    []Value
}

type Draw struct {
	v     *Term // Int draw in [0, bound) or Seq draw
	bound *Term
	bytes bool
	lost  bool // stands for draws of earlier iterations of a loop, which were thrown away
}

type State struct {
	heap   map[int]*Obj
	c      *Ctx
	draws  []Draw
	rfail  *Term // disjunction of failed draws
	io     []string
	depth  int
	splits int
	merges int // >0: inside a loop that is being unrolled
	defers []deferred
	pend   *Term // the outcome of an unknown test the current instruction was split on
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, c: s.c.clone(), draws: append([]Draw{}, s.draws...), rfail: s.rfail, io: append([]string{}, s.io...), depth: s.depth, splits: s.splits, merges: s.merges, pend: s.pend, defers: s.defers}
}

type Outcome struct {
	st   *State
	kind string // ret, panic, exit
	vals []Value
	msg  string
	pos  string
}

// Unsupported is raised for constructs outside the verified subset.
type Unsupported struct {
	msg    string
	hidden bool // a result may depend on something besides arguments and random draws
}

func unsup(f string, a ...interface{}) { panic(Unsupported{msg: fmt.Sprintf(f, a...)}) }

type Eng struct {
	bitHook   func(st *State, n, i *Term) *Term // the bit at a symbolic position (dep.go)
	prog      *ssa.Program
	pkg       *ssa.Package
	slv       *Solver
	nobj      int
	inline    map[string]bool // packages whose functions are inlined from source
	contracts map[*ssa.Function]*Contract
	useC      func(fn *ssa.Function) *Contract
	globals   map[*ssa.Global]int
	loops     map[*ssa.Function][]*Loop
	pdom      map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	noSum     map[*ssa.BasicBlock]string
	noRetry   map[*ssa.BasicBlock]bool
	regimes   int // changes of a value inside the loop being summarised
	steps     int
	maxSteps  int
	hist      map[string]int
	usedModel map[string]bool
	inlined   map[string]bool
	usedCont  map[string]bool
	loopNotes map[string]bool
	pathCount int
	assumed   map[string]bool
	reqs      []*reqFail
	spec      *Spec
	initing   bool
	mutable   map[*ssa.Global]string
	mutSorted []*ssa.Global
	written   map[*ssa.Global]bool
	opaque    map[*ssa.Global]bool
	pass      int
	guessing  int // inside the summary of a loop
}

type reqFail struct {
	st  *State
	msg string
}

func (e *Eng) newObj(st *State, o *Obj) int {
	e.nobj++
	st.heap[e.nobj] = o
	return e.nobj
}

func (e *Eng) newBig(st *State, t *Term) VPtr {
	return VPtr{obj: e.newObj(st, &Obj{kind: "big", t: t})}
}
func (e *Eng) newBytes(st *State, t *Term) VSlice {
	id := e.newObj(st, &Obj{kind: "bytes", t: t})
	l := st.c.Len(t)
	return VSlice{obj: id, off: zero, ln: l, cp: nil}
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}
func namedIs(t types.Type, pkg, name string) bool {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (e *Eng) zeroVal(t types.Type) Value {
	if isBigInt(t) {
		unsup("big.Int by value")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return zero
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		}
		if u.Kind() == types.UntypedNil {
			return nilPtr
		}
		unsup("type %s", t)
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return VSlice{off: zero, ln: zero, cp: zero}
	case *types.Interface:
		return VIface{}
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return newCtx(nil).Rep(zero, Int(u.Len()))
		}
		a := &VArr{}
		if u.Len() > 100000 {
			unsup("array of %d", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, e.zeroVal(u.Elem()))
		}
		return a
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return (*VFunc)(nil)
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.v = append(v.v, e.zeroVal(u.At(i).Type()))
		}
		return v
	}
	unsup("zero value of %s", t)
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// alloc creates an object for a variable of type t.
func (e *Eng) alloc(st *State, t types.Type) VPtr {
	if isBigInt(t) {
		return e.newBig(st, zero)
	}
	if namedIs(t, "strings", "Builder") || namedIs(t, "bytes", "Buffer") {
		return VPtr{obj: e.newObj(st, &Obj{kind: "builder", t: Empty})}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return VPtr{obj: e.allocArr(st, a.Elem(), Int(a.Len()))}
	}
	return VPtr{obj: e.newObj(st, &Obj{kind: "cell", v: e.zeroVal(t)})}
}

func (e *Eng) allocArr(st *State, elem types.Type, n *Term) int {
	if isByte(elem) {
		return e.newObj(st, &Obj{kind: "bytes", t: st.c.Rep(zero, n), elem: elem})
	}
	k, ok := n.int64()
	if !ok {
		if v := st.c.constOf(n); v != nil && v.IsInt64() {
			k, ok = v.Int64(), true
		}
	}
	if !ok || k > 100000 {
		unsup("array of %s with length %s", elem, n)
	}
	o := &Obj{kind: "arr", elem: elem}
	o.arr = make([]Value, k)
	for i := range o.arr {
		o.arr[i] = e.zeroVal(elem)
	}
	return e.newObj(st, o)
}

// ---- CFG analysis ----

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func (e *Eng) loopsOf(fn *ssa.Function) []*Loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	var res []*Loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
					res = append(res, l)
				}
				var st []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = res
	return res
}
func (e *Eng) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range e.loopsOf(b.Parent()) {
		if l.head == b {
			return l
		}
	}
	return nil
}

// ipdom computes immediate postdominators (nil: the exit).
func (e *Eng) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if m, ok := e.pdom[fn]; ok {
		return m[b]
	}
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	for i := range pd {
		pd[i] = map[int]bool{}
		if len(fn.Blocks[i].Succs) == 0 {
			pd[i][i] = true
		} else {
			for j := 0; j < n; j++ {
				pd[i][j] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			bb := fn.Blocks[i]
			if len(bb.Succs) == 0 {
				continue
			}
			x := map[int]bool{}
			for j := range pd[bb.Succs[0].Index] {
				ok := true
				for _, s := range bb.Succs[1:] {
					if !pd[s.Index][j] {
						ok = false
					}
				}
				if ok {
					x[j] = true
				}
			}
			x[i] = true
			if len(x) != len(pd[i]) {
				pd[i] = x
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := range pd {
		// the strict postdominator with the most postdominators is the closest
		best := -1
		for j := range pd[i] {
			if j != i && (best < 0 || len(pd[j]) > len(pd[best])) {
				best = j
			}
		}
		if best >= 0 {
			m[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
	e.pdom[fn] = m
	return m[b]
}

// ---- execution ----

type item struct {
	st     *State
	env    map[ssa.Value]Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	phis   bool // phis of blk already evaluated
	joined bool // phis evaluated by a merge, block entry not yet processed
	counts map[*ssa.BasicBlock]int
	unroll map[*ssa.BasicBlock]bool // loops currently unrolled (by header)
}

func (it *item) fork() *item {
	env := make(map[ssa.Value]Value, len(it.env))
	for k, v := range it.env {
		env[k] = v
	}
	cn := make(map[*ssa.BasicBlock]int, len(it.counts))
	for k, v := range it.counts {
		cn[k] = v
	}
	un := make(map[*ssa.BasicBlock]bool, len(it.unroll))
	for k, v := range it.unroll {
		un[k] = v
	}
	return &item{st: it.st.clone(), env: env, blk: it.blk, prev: it.prev, idx: it.idx, phis: it.phis, joined: it.joined, counts: cn, unroll: un}
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// exec runs a function body and returns its outcomes.
func (e *Eng) exec(fn *ssa.Function, args []Value, bind []Value, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no body here", fn)
	}
	if st.depth > 40 {
		unsup("recursion in %s", fn)
	}
	st.depth++
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = bind[i]
	}
	it := &item{st: st, env: env, blk: fn.Blocks[0], counts: map[*ssa.BasicBlock]int{}, unroll: map[*ssa.BasicBlock]bool{}}
	_, outs := e.region([]*item{it}, nil)
	for i := range outs {
		if outs[i].kind == "panic" && fn.Recover != nil && !outs[i].st.c.dead && recovers(fn) && outs[i].st.c.Feasible() {
			unsup("%s recovers from panics", fn)
		}
		outs[i].st.depth--
	}
	return outs
}

// deferred is a call that waits for its function to return.
type deferred struct {
	depth int
	in    *ssa.Defer
	f     *VFunc
	args  []Value
}

// recovers: a function literal deferred in fn calls recover.
func recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var f *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.Function:
				f = v
			case *ssa.MakeClosure:
				f = v.Fn.(*ssa.Function)
			case *ssa.Builtin:
				continue
			}
			if f == nil {
				return true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bl, ok := c.Call.Value.(*ssa.Builtin); ok && bl.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// region runs items until they stop (stop(it) true at a block entry) or leave the function.
func (e *Eng) region(work []*item, stop func(it *item) bool) (stopped []*item, outs []Outcome) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if it.st.c.dead {
				break
			}
			if it.joined || it.idx == 0 && !it.phis {
				if stop != nil && stop(it) {
					stopped = append(stopped, it)
					break
				}
				// entering a loop from outside
				if l := e.loopAt(it.blk); l != nil {
					if it.prev == nil || !l.body[it.prev] {
						its, os, ok := e.summarize(it, l)
						if !ok {
							its, os, ok = e.retry(it, l)
						}
						if ok {
							outs = append(outs, os...)
							work = append(work, its...)
							break
						}
						it.unroll[l.head] = true
						it.counts[l.head] = 0
						it.st.merges++
					} else {
						it.counts[l.head]++
						if it.counts[l.head] > 700 {
							unsup("loop at %s is not of a recognised shape (%s)", e.blockPos(l.head), e.noSum[l.head])
						}
					}
				}
				for h := range it.unroll {
					l := e.loopAt(h)
					if !l.body[it.blk] {
						delete(it.unroll, h)
						it.st.merges--
					}
				}
				if !it.joined {
					e.evalPhis(it)
				}
				it.joined = false
			}
			next, os := e.block(it)
			outs = append(outs, os...)
			if len(next) == 0 {
				break
			}
			it = next[0]
			work = append(work, next[1:]...)
		}
	}
	return
}

func (e *Eng) blockPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			return e.pos(p)
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return e.pos(p)
			}
		}
	}
	return b.Parent().String()
}

func (e *Eng) evalPhis(it *item) {
	var vs []Value
	n := 0
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, q := range it.blk.Preds {
			if q == it.prev {
				k = i
			}
		}
		vs = append(vs, e.val(it, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		it.env[it.blk.Instrs[i].(*ssa.Phi)] = vs[i]
	}
	it.phis = true
	it.idx = n
}

// block runs the rest of the block; the continuations are at block entries.
func (e *Eng) block(it *item) (next []*item, outs []Outcome) {
	for it.idx < len(it.blk.Instrs) {
		in := it.blk.Instrs[it.idx]
		e.steps++
		if e.hist != nil {
			e.hist[e.pos(in.Pos())+" "+in.String()]++
		}
		if e.steps > e.maxSteps {
			if e.hist != nil {
				printHist(e.hist)
			}
			unsup("step budget exceeded")
		}
		switch x := in.(type) {
		case *ssa.Jump:
			it.prev, it.blk, it.idx, it.phis = it.blk, it.blk.Succs[0], 0, false
			return []*item{it}, outs
		case *ssa.If:
			n, o := e.branch(it, x)
			return n, append(outs, o...)
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, e.val(it, r))
			}
			return nil, append(outs, Outcome{st: it.st, kind: "ret", vals: vs, pos: e.pos(x.Pos())})
		case *ssa.Panic:
			return nil, append(outs, Outcome{st: it.st, kind: "panic", msg: "explicit panic", pos: e.pos(x.Pos())})
		case *ssa.RunDefers:
			n := len(it.st.defers)
			if n == 0 || it.st.defers[n-1].depth != it.st.depth {
				it.idx++
				continue
			}
			d := it.st.defers[n-1]
			var res []Outcome
			if ns := trySplit(func() { // nothing is popped yet
				res = e.callFn(it.st, d.f.fn, d.args, d.f.bind, nil)
			}); ns != nil {
				n, o := e.fork(it, ns)
				return append(next, n...), append(outs, o...)
			}
			for _, r := range res {
				if r.kind != "ret" {
					outs = append(outs, r)
					continue
				}
				if r.st.c.dead {
					continue
				}
				c := &item{env: cloneEnv(it.env), blk: it.blk, prev: it.prev, idx: it.idx, phis: true, counts: cloneCnt(it.counts), unroll: cloneUn(it.unroll)}
				c.st = r.st
				c.st.defers = append([]deferred{}, c.st.defers[:n-1]...)
				nx, o := e.block(c)
				next, outs = append(next, nx...), append(outs, o...)
			}
			return
		case *ssa.DebugRef:
			it.idx++
		case *ssa.Call:
			var res []Outcome
			if ns := trySplit(func() { res = e.callInstr(it, x) }); ns != nil {
				n, o := e.fork(it, ns)
				return append(next, n...), append(outs, o...)
			}
			var conts []*item
			for i, r := range res {
				if r.kind != "ret" {
					outs = append(outs, Outcome{st: r.st, kind: r.kind, msg: r.msg, pos: nz(r.pos, e.pos(x.Pos()))})
					continue
				}
				if r.st.c.dead {
					continue
				}
				c := it
				if i < len(res)-1 {
					c = &item{env: cloneEnv(it.env), blk: it.blk, prev: it.prev, idx: it.idx, phis: true, counts: cloneCnt(it.counts), unroll: cloneUn(it.unroll)}
				}
				c.st = r.st
				if len(r.vals) == 1 {
					c.env[x] = r.vals[0]
				} else {
					c.env[x] = VTuple{r.vals}
				}
				c.idx++
				conts = append(conts, c)
			}
			if len(conts) == 1 && conts[0] == it {
				continue
			}
			for _, c := range conts {
				n, o := e.block(c)
				next = append(next, n...)
				outs = append(outs, o...)
			}
			return
		default:
			var os []Outcome
			var alive bool
			if ns := trySplit(func() { os, alive = e.instr(it, in) }); ns != nil {
				n, o := e.fork(it, ns)
				return append(next, n...), append(outs, o...)
			}
			outs = append(outs, os...)
			if !alive {
				return nil, outs
			}
			it.idx++
		}
	}
	panic("block without terminator")
}

// needSplit: the instruction goes on only if the alternatives are followed separately.
type needSplit struct{ alts []*Term }

func trySplit(f func()) (ns *needSplit) {
	defer func() {
		if r := recover(); r != nil {
			n, ok := r.(needSplit)
			if !ok {
				panic(r)
			}
			ns = &n
		}
	}()
	f()
	return nil
}

// fork follows the alternatives, which cover all cases, from the current instruction on.
func (e *Eng) fork(it *item, ns *needSplit) (next []*item, outs []Outcome) {
	for _, t := range ns.alts {
		x := it.fork()
		x.st.c.Assume(t)
		if x.st.c.dead {
			continue
		}
		e.pathCount++
		n, o := e.block(x)
		next, outs = append(next, n...), append(outs, o...)
	}
	return
}

func (e *Eng) split(st *State, cond *Term) {
	if st.splits++; st.splits > 64 {
		unsup("too many cases")
	}
	panic(needSplit{[]*Term{cond, Not(cond)}})
}

// wantConst is the value of t, split into its possible values if there are few. Nothing may have been changed yet
// when it is called.
func (e *Eng) wantConst(st *State, t *Term, what string) *big.Int {
	c := st.c
	if t = c.N(t); t.isConst() {
		return t.c
	}
	if e.guessing > 0 {
		if v := c.constOf(t); v != nil {
			return v
		}
		unsup("%s", what)
	}
	for _, m := range asPoly(t) {
		for _, a := range m.atoms {
			if a.op == "ite" {
				e.split(st, a.args[0])
			}
		}
	}
	if v := c.constOf(t); v != nil {
		return v
	}
	if c.slv != nil {
		var alts []*Term
		y := c.clone()
		for len(alts) < 33 {
			if lo, hi := y.bounds(y.N(t)); lo != nil && hi != nil && lo.Cmp(hi) > 0 {
				break
			}
			v := y.slv.modelValue(y, t)
			if v == nil {
				if !y.Infeasible() {
					alts = nil
				}
				break
			}
			alts = append(alts, eqInt0(Sub(t, BigT(v))))
			y.Assume(Not(eqInt0(Sub(t, BigT(v)))))
			if y.dead {
				break
			}
		}
		if len(alts) > 0 && len(alts) <= 32 {
			panic(needSplit{alts})
		}
	}
	if os.Getenv("GOVER_W") != "" {
		fmt.Println("wantConst", what, t, e.guessing)
	}
	unsup("%s", what)
	return nil
}

func nz(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
func cloneEnv(m map[ssa.Value]Value) map[ssa.Value]Value {
	o := make(map[ssa.Value]Value, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}
func cloneCnt(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
	o := make(map[*ssa.BasicBlock]int, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}
func cloneUn(m map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	o := make(map[*ssa.BasicBlock]bool, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// decide: 1 true, -1 false, 0 open.
func (e *Eng) decide(st *State, t *Term) int {
	t = st.c.N(t)
	if t == True {
		return 1
	}
	if t == False {
		return -1
	}
	if st.c.prove(t, true) {
		return 1
	}
	if st.c.prove(Not(t), true) {
		return -1
	}
	return 0
}

func (e *Eng) branch(it *item, x *ssa.If) ([]*item, []Outcome) {
	t, ok := e.val(it, x.Cond).(*Term)
	if !ok {
		unsup("condition %s", x.Cond)
	}
	goTo := func(i *item, k int) *item {
		i.prev, i.blk, i.idx, i.phis = i.blk, i.blk.Succs[k], 0, false
		return i
	}
	t = it.st.c.N(t)
	if t == True {
		return []*item{goTo(it, 0)}, nil
	}
	if t == False {
		return []*item{goTo(it, 1)}, nil
	}
	if !(it.st.merges > 0 && e.mergeable(it, it.blk.Succs[0], it.blk.Succs[1])) {
		switch e.decide(it.st, t) {
		case 1:
			return []*item{goTo(it, 0)}, nil
		case -1:
			return []*item{goTo(it, 1)}, nil
		}
	}
	base := it.fork()
	a, b := goTo(it.fork(), 0), goTo(it, 1)
	a.st.c.Assume(t)
	b.st.c.Assume(Not(t))
	if base.st.merges > 0 {
		if its, outs, ok := e.tryMerge(base, a, b); ok {
			return its, outs
		}
		// the attempt consumed the states
		a, b = goTo(base.fork(), 0), goTo(base, 1)
		a.st.c.Assume(t)
		b.st.c.Assume(Not(t))
	}
	e.pathCount++
	return []*item{a, b}, nil
}

// mergeable: both sides of a branch inside an unrolled loop meet again without leaving the loop.
func (e *Eng) mergeable(base *item, sa, sb *ssa.BasicBlock) bool {
	join := e.ipdom(base.blk)
	if join == nil {
		return false
	}
	for _, l := range e.loopsOf(base.blk.Parent()) {
		if !l.body[base.blk] {
			continue
		}
		if !l.body[join] || join == l.head && !base.unroll[join] {
			return false
		}
		h := l.head
		seen := map[*ssa.BasicBlock]bool{join: true}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if seen[x] {
				return true
			}
			seen[x] = true
			if !l.body[x] || x == h && x != join {
				return false
			}
			for _, s := range x.Succs {
				if !walk(s) {
					return false
				}
			}
			return true
		}
		if !walk(sa) || !walk(sb) {
			return false
		}
	}
	return true
}

// tryMerge joins the two sides of a branch inside an unrolled loop at the join point.
func (e *Eng) tryMerge(base, a, b *item) ([]*item, []Outcome, bool) {
	if !e.mergeable(base, a.blk, b.blk) {
		return nil, nil, false
	}
	join := e.ipdom(base.blk)
	stop := func(it *item) bool { return it.blk == join }
	sa, oa := e.region([]*item{a.fork()}, stop)
	sb, ob := e.region([]*item{b.fork()}, stop)
	outs := append(oa, ob...)
	if len(sa) == 0 || len(sb) == 0 {
		return append(sa, sb...), outs, true
	}
	all := append(sa, sb...)
	// evaluate the phis on each side, then merge pairwise
	if l := e.loopAt(join); l != nil && !l.body[base.blk] {
		return all, outs, true // about to enter a loop: kept apart
	}
	for _, x := range all {
		if !x.joined {
			e.evalPhis(x)
		}
		x.joined, x.phis = true, true
		x.idx = len(phisOf(join))
	}
	cur := all[0]
	for _, x := range all[1:] {
		m := e.mergeItems(base, cur, x)
		if m == nil {
			// keep them apart
			return all, outs, true
		}
		cur = m
	}
	return []*item{cur}, outs, true
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var o []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		o = append(o, p)
	}
	return o
}

func (e *Eng) mergeItems(base, a, b *item) *item {
	st, cond := e.mergeStates(base.st, a.st, b.st)
	if st == nil {
		return nil
	}
	env := map[ssa.Value]Value{}
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		if v, ok := e.mergeVal(st.c, cond, va, vb); ok {
			env[k] = v
		} else if _, ph := k.(*ssa.Phi); ph || base.env[k] != nil {
			return nil
		}
	}
	return &item{st: st, env: env, blk: a.blk, prev: a.prev, idx: a.idx, phis: true, joined: true, counts: a.counts, unroll: a.unroll}
}

func hasForall(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	if t.sort != SBool {
		return false
	}
	for _, a := range t.args {
		if hasForall(a) {
			return true
		}
	}
	return false
}

// bareChoice is the first fact that st adds to base, where the others follow from it.
func bareChoice(base, st *State) *Term {
	pc := st.c.pc[len(base.c.pc):]
	if len(pc) == 0 {
		return nil
	}
	d := base.c.clone()
	d.Assume(pc[0])
	for _, f := range pc[1:] {
		if !d.pcset[f] && d.N(f) != True {
			return nil
		}
	}
	return pc[0]
}

// mergeStates: one state for two paths from base; the second result holds on the first of them.
func (e *Eng) mergeStates(base, a, b *State) (*State, *Term) {
	n := len(base.c.pc)
	if len(a.c.pc) < n || len(b.c.pc) < n || len(a.draws) != len(base.draws) || len(b.draws) != len(base.draws) || a.rfail != b.rfail {
		return nil, nil
	}
	ca, cb := And(a.c.pc[n:]...), And(b.c.pc[n:]...)
	if x, y := bareChoice(base, a), bareChoice(base, b); x != nil && y != nil && x == Not(y) {
		ca, cb = x, y
	}
	st := base.clone()
	if hasForall(ca) || hasForall(cb) {
		// a name for the choice, which carries the history of the loop with it when it is decided
		br := BVar(freshName("way"))
		st.c.Assume(Or(And(br, ca), And(Not(br), cb)))
		st.c.define(br, ca, cb)
		ca = br
	} else {
		st.c.Assume(Or(ca, cb))
	}
	st.merges = a.merges
	st.depth = a.depth
	if len(a.io) != len(b.io) || len(a.defers) != len(b.defers) {
		return nil, nil
	}
	for i := range a.defers {
		x, y := a.defers[i], b.defers[i]
		if x.depth != y.depth || x.in != y.in || x.f != y.f || len(x.args) != len(y.args) {
			return nil, nil
		}
		for j := range x.args {
			if !sameVal(x.args[j], y.args[j]) {
				return nil, nil
			}
		}
	}
	st.defers = a.defers
	st.io = a.io
	for id, oa := range a.heap {
		ob, ok := b.heap[id]
		if !ok {
			st.heap[id] = oa
			continue
		}
		if oa == ob {
			st.heap[id] = oa
			continue
		}
		if oa.kind != ob.kind || len(oa.arr) != len(ob.arr) || oa.kind == "map" || oa.kind == "hmap" || oa.kind == "iter" {
			return nil, nil
		}
		o := *oa
		o.shared = oa.shared || ob.shared
		if oa.t != ob.t {
			if oa.t.sort == SList {
				return nil, nil
			}
			o.t = st.c.Ite(ca, oa.t, ob.t)
		}
		if oa.v != nil {
			v, ok := e.mergeVal(st.c, ca, oa.v, ob.v)
			if !ok {
				return nil, nil
			}
			o.v = v
		}
		if oa.arr != nil {
			o.arr = make([]Value, len(oa.arr))
			for i := range oa.arr {
				v, ok := e.mergeVal(st.c, ca, oa.arr[i], ob.arr[i])
				if !ok {
					return nil, nil
				}
				o.arr[i] = v
			}
		}
		st.heap[id] = &o
	}
	for id, ob := range b.heap {
		if _, ok := a.heap[id]; !ok {
			st.heap[id] = ob
		}
	}
	return st, ca
}

func (e *Eng) mergeVal(c *Ctx, cond *Term, a, b Value) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.sort == SList {
			return nil, false
		}
		return c.Ite(cond, x, y), true
	case VPtr:
		y, ok := b.(VPtr)
		return x, ok && x == y
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || x.obj != y.obj || x.off != y.off || x.ln != y.ln || x.cp != y.cp {
			return nil, false
		}
		return x, true
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		o := &VStruct{}
		for i := range x.f {
			v, ok := e.mergeVal(c, cond, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			o.f = append(o.f, v)
		}
		return o, true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.v) != len(y.v) {
			return nil, false
		}
		o := VTuple{}
		for i := range x.v {
			v, ok := e.mergeVal(c, cond, x.v[i], y.v[i])
			if !ok {
				return nil, false
			}
			o.v = append(o.v, v)
		}
		return o, true
	case VIface:
		y, ok := b.(VIface)
		if ok && x.kind == "" && y.kind == "" {
			return x, true
		}
		if ok && x.kind == "err" && y.kind == "err" {
			return x, true
		}
		if ok && x.kind == y.kind && x.typ == y.typ {
			v, ok := e.mergeVal(c, cond, x.v, y.v)
			return VIface{x.kind, x.typ, v}, ok
		}
		return nil, false
	case *VFunc:
		y, ok := b.(*VFunc)
		return x, ok && x == y
	case VMap:
		y, ok := b.(VMap)
		return x, ok && x == y
	}
	return nil, false
}

// ---- operands ----

func (e *Eng) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return e.zeroVal(k.Type())
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(k.Value))
	case constant.String:
		return Lit(constant.StringVal(k.Value))
	case constant.Int:
		b, ok := new(big.Int).SetString(k.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", k)
		}
		return BigT(b)
	}
	if v := constant.ToInt(k.Value); v.Kind() == constant.Int {
		if bt, ok := k.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return BigT(b)
		}
	}
	return VOpaque{k.String()}
}

func (e *Eng) val(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &VFunc{fn: x}
	case *ssa.Builtin:
		return &VFunc{blt: x.Name()}
	case *ssa.Global:
		return e.globalPtr(it.st, x)
	}
	r, ok := it.env[v]
	if !ok {
		unsup("value %s of %s", v.Name(), v.Parent())
	}
	if t, ok := r.(*Term); ok {
		return it.st.c.N(t)
	}
	return r
}

func (e *Eng) globalPtr(st *State, g *ssa.Global) Value {
	if why, ok := e.mutable[g]; ok && !e.initing && e.opaque[g] {
		hidden("history: package variable %s %s, and the result is not shown to be independent of it", g.Name(), why)
	}
	id, ok := e.globals[g]
	if ok {
		if _, ok := st.heap[id]; ok {
			return VPtr{obj: id}
		}
	}
	name := ""
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + g.Name()
	}
	t := g.Type().(*types.Pointer).Elem()
	var o *Obj
	switch {
	case name == "crypto/rand.Reader":
		o = &Obj{kind: "cell", v: VIface{kind: "reader"}, pre: true, label: name}
	case g.Pkg != nil && e.inline[g.Pkg.Pkg.Path()]:
		p := e.alloc(st, t)
		oo := *st.heap[p.obj]
		oo.pre, oo.label = true, name
		o = &oo
		delete(st.heap, p.obj)
	case name == "encoding/binary.BigEndian":
		o = &Obj{kind: "cell", v: e.zeroVal(t), pre: true, label: name}
	case strings.HasPrefix(name, "github.com/mr-tron/base58.") && strings.Contains(name, "Alphabet"):
		o = &Obj{kind: "cell", v: VPtr{obj: -1, path: name}, pre: true, label: name}
	default:
		if types.Implements(t, errorIface) {
			o = &Obj{kind: "cell", v: VIface{kind: "err"}, pre: true, label: name}
		} else {
			unsup("global variable %s", name)
		}
	}
	if id == 0 {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	st.heap[id] = o
	return VPtr{obj: id}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// ---- memory access ----

func (st *State) obj(id int) *Obj {
	o := st.heap[id]
	if o == nil {
		unsup("dangling reference %d", id)
	}
	return o
}

func pathParts(p string) []int {
	if p == "" {
		return nil
	}
	var o []int
	for _, s := range strings.Split(p[1:], ".") {
		n := 0
		fmt.Sscanf(s, "%d", &n)
		o = append(o, n)
	}
	return o
}

func getPath(v Value, p []int) Value {
	for _, i := range p {
		switch x := v.(type) {
		case *VStruct:
			v = x.f[i]
		case *VArr:
			v = x.e[i]
		default:
			unsup("path into %T", v)
		}
	}
	return v
}
func setPath(v Value, p []int, n Value) Value {
	if len(p) == 0 {
		return n
	}
	switch x := v.(type) {
	case *VStruct:
		f := append([]Value{}, x.f...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return &VStruct{f}
	case *VArr:
		f := append([]Value{}, x.e...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return &VArr{f}
	}
	unsup("path into %T", v)
	return nil
}

// pointer to an element of an array object: path "@" + term id
var elemIdx = map[string]*Term{}

func elemPath(t *Term) string {
	k := fmt.Sprintf("@%d", t.id)
	elemIdx[k] = t
	return k
}

func (e *Eng) load(st *State, p VPtr, t types.Type) Value {
	o := st.obj(p.obj)
	switch o.kind {
	case "cell":
		v := getPath(o.v, pathParts(p.path))
		if hasUnk(v) {
			v = e.resolve(st, v)
			n := *st.obj(p.obj)
			n.v = setPath(n.v, pathParts(p.path), v)
			st.heap[p.obj] = &n
		}
		return v
	case "bytes", "list", "arr":
		if p.path == "" { // whole array
			if _, ok := t.Underlying().(*types.Array); ok {
				if o.kind == "arr" {
					return &VArr{append([]Value{}, o.arr...)}
				}
				return o.t // array of bytes as its content
			}
			unsup("load of %s", t)
		}
		path := p.path
		rest := ""
		if i := strings.IndexByte(path, '.'); i >= 0 {
			path, rest = path[:i], path[i:]
		}
		return getPath(e.index(st, o, elemIdx[path]), pathParts(rest))
	case "big":
		unsup("big.Int by value")
	}
	unsup("load from %s", o.kind)
	return nil
}

func (e *Eng) index(st *State, o *Obj, i *Term) Value {
	i = st.c.N(i)
	switch o.kind {
	case "bytes":
		return st.c.At(st.c.N(o.t), i)
	case "list":
		if l := st.c.N(o.t); l.op == "mklist" && len(l.args) <= 8 && !i.isConst() && st.c.constOf(i) == nil {
			return st.c.Elem(l, BigT(e.wantConst(st, i, "index of a short list")))
		}
		return st.c.Elem(st.c.N(o.t), i)
	case "arr":
		if k, ok := i.int64(); ok {
			return o.arr[k]
		}
		if v := st.c.constOf(i); v != nil && v.IsInt64() && int(v.Int64()) < len(o.arr) {
			return o.arr[v.Int64()]
		}
		if len(o.arr) <= 8 {
			if v := e.wantConst(st, i, "index of a short array"); v.IsInt64() && v.Sign() >= 0 && int(v.Int64()) < len(o.arr) {
				return o.arr[v.Int64()]
			}
		}
		if l := e.asList(st, o); l != nil {
			return st.c.Elem(l, i)
		}
		if bs := e.byteTable(o); bs != nil {
			return mk("at", SInt, nil, "", bs, i)
		}
	}
	unsup("index %s of %s", i, o.kind)
	return nil
}

func (e *Eng) byteTable(o *Obj) *Term { return nil }

// asList views an array of strings as a list term.
func (e *Eng) asList(st *State, o *Obj) *Term {
	if o.kind == "list" {
		return st.c.N(o.t)
	}
	if o.kind != "arr" || o.elem == nil || !isStr(o.elem) {
		return nil
	}
	var ts []*Term
	for _, v := range o.arr {
		ts = append(ts, st.c.N(v.(*Term)))
	}
	return mk("mklist", SList, nil, "", ts...)
}

func (e *Eng) store(st *State, p VPtr, v Value) {
	o := *st.obj(p.obj)
	if o.shared {
		unsup("write through a slice that may share memory")
	}
	switch o.kind {
	case "cell":
		o.v = setPath(o.v, pathParts(p.path), v)
	case "arr", "bytes", "list":
		if p.path == "" {
			switch x := v.(type) {
			case *VArr:
				o.arr = append([]Value{}, x.e...)
			case *Term:
				o.t = x
			}
			break
		}
		path, rest := p.path, ""
		if i := strings.IndexByte(path, '.'); i >= 0 {
			path, rest = path[:i], path[i:]
		}
		i := st.c.N(elemIdx[path])
		switch o.kind {
		case "arr":
			k, ok := i.int64()
			if !ok {
				if cv := st.c.constOf(i); cv != nil {
					k, ok = cv.Int64(), true
				}
			}
			if !ok {
				unsup("store at symbolic index")
			}
			if !e.initing {
				o.arr = append([]Value{}, o.arr...)
			}
			o.arr[k] = setPath(o.arr[k], pathParts(rest), v)
		case "bytes":
			t := st.c.N(o.t)
			n := st.c.Len(t)
			o.t = st.c.Cat(st.c.Slice(t, zero, i), st.c.Chr(v.(*Term)), st.c.Slice(t, Add(i, one), n))
		default:
			unsup("store into list")
		}
	default:
		unsup("store into %s", o.kind)
	}
	st.heap[p.obj] = &o
}

// content of a byte slice as a sequence term.
func (e *Eng) bytesOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case VSlice:
		if x.obj == 0 {
			return Empty
		}
		o := st.obj(x.obj)
		if o.kind == "arr" && o.elem != nil && isByte(o.elem) {
			unsup("byte array representation")
		}
		if o.kind != "bytes" {
			unsup("bytes of %s", o.kind)
		}
		return st.c.Slice(st.c.N(o.t), st.c.N(x.off), Add(st.c.N(x.off), st.c.N(x.ln)))
	case *Term:
		if x.sort == SSeq {
			return st.c.N(x)
		}
	}
	unsup("bytes of %T", v)
	return nil
}

// content of a []string as list term.
func (e *Eng) listOf(st *State, v Value) *Term {
	x, ok := v.(VSlice)
	if !ok {
		unsup("list of %T", v)
	}
	if x.obj == 0 {
		return mk("mklist", SList, nil, "")
	}
	o := st.obj(x.obj)
	off, ln := st.c.N(x.off), st.c.N(x.ln)
	if o.kind == "list" {
		if off != zero || st.c.LLen(st.c.N(o.t)) != ln {
			unsup("part of a list")
		}
		return st.c.N(o.t)
	}
	a, ok1 := off.int64()
	b, ok2 := ln.int64()
	if !ok1 || !ok2 {
		unsup("list of symbolic length")
	}
	return e.asList(st, &Obj{kind: "arr", arr: o.arr[a : a+b], elem: o.elem})
}

// ---- integers ----

func intRange(t types.Type) (lo, hi *big.Int, w int64, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		w, signed = 64, true
	case types.Int32, types.UntypedRune:
		w, signed = 32, true
	case types.Int16:
		w, signed = 16, true
	case types.Int8:
		w, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		w = 64
	case types.Uint32:
		w = 32
	case types.Uint16:
		w = 16
	case types.Uint8:
		w = 8
	}
	if w == 0 {
		return
	}
	if signed {
		hi = new(big.Int).Sub(pow(2, w-1), big.NewInt(1))
		lo = new(big.Int).Neg(pow(2, w-1))
	} else {
		hi = new(big.Int).Sub(pow(2, w), big.NewInt(1))
		lo = new(big.Int)
	}
	return
}

// wrap reduces a mathematical integer to the machine type.
func (e *Eng) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi, w, signed := intRange(ty)
	if w == 0 {
		unsup("arithmetic on %s", ty)
	}
	t = st.c.N(t)
	l, h := st.c.bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	okLo := l != nil && l.Cmp(lo) >= 0 || st.c.Prove(Le(BigT(lo), t))
	okHi := okLo && (h != nil && h.Cmp(hi) <= 0 || st.c.Prove(Le(t, BigT(hi))))
	if okLo && okHi {
		return t
	}
	if signed {
		off := BigT(pow(2, w-1))
		return Sub(st.c.Mod(Add(t, off), BigT(pow(2, w))), off)
	}
	return st.c.Mod(t, BigT(pow(2, w)))
}

func (e *Eng) binop(it *item, x *ssa.BinOp) (Value, *Term) {
	st := it.st
	c := st.c
	a, b := e.val(it, x.X), e.val(it, x.Y)
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if !oka || !okb {
		switch x.Op {
		case token.EQL:
			return e.eqVal(st, a, b), nil
		case token.NEQ:
			return Not(e.eqVal(st, a, b)), nil
		}
		unsup("%s on %T", x.Op, a)
	}
	switch ta.sort {
	case SBool:
		switch x.Op {
		case token.EQL:
			return Iff(ta, tb), nil
		case token.NEQ:
			return Not(Iff(ta, tb)), nil
		case token.AND:
			return And(ta, tb), nil
		case token.OR:
			return Or(ta, tb), nil
		}
	case SSeq:
		switch x.Op {
		case token.ADD:
			return c.Cat(ta, tb), nil
		case token.EQL:
			return c.EqSeq(ta, tb), nil
		case token.NEQ:
			return Not(c.EqSeq(ta, tb)), nil
		}
		if ta.op == "lit" && tb.op == "lit" {
			switch x.Op {
			case token.LSS:
				return boolT(ta.s < tb.s), nil
			case token.LEQ:
				return boolT(ta.s <= tb.s), nil
			case token.GTR:
				return boolT(ta.s > tb.s), nil
			case token.GEQ:
				return boolT(ta.s >= tb.s), nil
			}
		}
		unsup("string comparison %s", x.Op)
	case SInt:
		switch x.Op {
		case token.ADD:
			return e.wrap(st, Add(ta, tb), x.Type()), nil
		case token.SUB:
			return e.wrap(st, Sub(ta, tb), x.Type()), nil
		case token.MUL:
			return e.wrap(st, Mul(ta, tb), x.Type()), nil
		case token.QUO, token.REM:
			bad := c.EqInt(tb, zero)
			if !tb.isConst() || tb.c.Sign() <= 0 {
				if !tb.isConst() && c.Prove(Lt(zero, tb)) {
					// fine
				} else if tb == zero {
					return zero, True
				} else {
					unsup("division by %s", tb)
				}
			}
			lo, _ := c.bounds(ta)
			if lo == nil || lo.Sign() < 0 {
				if !c.Prove(Le(zero, ta)) {
					if ta.isConst() {
						q, r := new(big.Int).QuoRem(ta.c, tb.c, new(big.Int))
						if x.Op == token.QUO {
							return BigT(q), nil
						}
						return BigT(r), nil
					}
					unsup("division of a possibly negative integer")
				}
			}
			_ = bad
			if x.Op == token.QUO {
				return c.Div(ta, tb), nil
			}
			return c.Mod(ta, tb), nil
		case token.EQL:
			return c.EqInt(ta, tb), nil
		case token.NEQ:
			return Not(c.EqInt(ta, tb)), nil
		case token.LSS:
			return c.Lt(ta, tb), nil
		case token.LEQ:
			return c.Le(ta, tb), nil
		case token.GTR:
			return c.Lt(tb, ta), nil
		case token.GEQ:
			return c.Le(tb, ta), nil
		case token.SHL:
			k, ok := tb.int64()
			if !ok {
				if v := c.constOf(tb); v != nil {
					k, ok = v.Int64(), true
				}
			}
			if !ok || k < 0 {
				unsup("shift by %s", tb)
			}
			if k > 64 {
				return zero, nil
			}
			return e.wrap(st, scale(ta, pow(2, k)), x.Type()), nil
		case token.SHR:
			k, ok := tb.int64()
			if !ok {
				if v := c.constOf(tb); v != nil {
					k, ok = v.Int64(), true
				}
			}
			if !ok || k < 0 {
				unsup("shift by %s", tb)
			}
			return c.Div(ta, BigT(pow(2, minI(k, 64)))), nil
		case token.AND:
			if ta.isConst() && tb.isConst() && ta.c.Sign() >= 0 && tb.c.Sign() >= 0 {
				return BigT(new(big.Int).And(ta.c, tb.c)), nil
			}
			if ta.isConst() {
				ta, tb = tb, ta
			}
			if tb.isConst() && tb.c.Sign() >= 0 {
				// contiguous low mask
				if k, ok := log2(new(big.Int).Add(tb.c, big.NewInt(1))); ok {
					return c.Mod(ta, BigT(pow(2, k))), nil
				}
				// single bit
				if k, ok := log2(tb.c); ok {
					return scale(c.Mod(c.Div(ta, BigT(pow(2, k))), Int(2)), pow(2, k)), nil
				}
			}
		case token.OR, token.XOR:
			if ta.isConst() && tb.isConst() && ta.c.Sign() >= 0 && tb.c.Sign() >= 0 {
				if x.Op == token.OR {
					return BigT(new(big.Int).Or(ta.c, tb.c)), nil
				}
				return BigT(new(big.Int).Xor(ta.c, tb.c)), nil
			}
			if r := e.disjointOr(c, ta, tb); r != nil {
				return r, nil
			}
		}
		if r := e.bitwise(it.st, x.Op, ta, tb); r != nil {
			return r, nil
		}
	}
	unsup("operator %s on %s and %s", x.Op, ta, tb)
	return nil, nil
}

// bitwise: the operators on non-negative numbers, in terms of the common bits of the operands.
func (e *Eng) bitwise(st *State, op token.Token, a, b *Term) *Term {
	c := st.c
	for _, t := range []*Term{a, b} {
		if lo, _ := c.bounds(t); (lo == nil || lo.Sign() < 0) && !c.Prove(Le(zero, t)) {
			return nil
		}
	}
	k, x := b, a
	if a.isConst() {
		k, x = a, b
	}
	var and *Term
	if k.isConst() {
		and = zero
		for lo := 0; lo < k.c.BitLen(); {
			if k.c.Bit(lo) == 0 {
				lo++
				continue
			}
			hi := lo
			for k.c.Bit(hi) == 1 {
				hi++
			}
			and = Add(and, scale(c.Mod(c.Div(x, BigT(pow(2, int64(lo)))), BigT(pow(2, int64(hi-lo)))), pow(2, int64(lo))))
			lo = hi
		}
	} else {
		if op == token.OR || op == token.XOR {
			if a == b && op == token.XOR {
				return zero
			} else if a == b {
				return a
			}
			name := map[token.Token]string{token.OR: "bor", token.XOR: "bxor"}[op]
			if a.id > b.id {
				a, b = b, a
			}
			r := UF(name, SInt, a, b)
			c.Assume(Le(zero, r))
			c.Assume(Le(r, Add(a, b)))
			if op == token.OR {
				c.Assume(Le(a, r))
				c.Assume(Le(b, r))
			}
			_, ha := c.bounds(a)
			_, hb := c.bounds(b)
			if ha != nil && hb != nil {
				c.Assume(Lt(r, BigT(pow(2, int64(maxBig(ha, hb).BitLen())))))
			}
			return r
		}
		if a.id > b.id {
			and = UF("band", SInt, b, a)
		} else {
			and = UF("band", SInt, a, b)
		}
		c.Assume(Le(zero, and))
		c.Assume(Le(and, a))
		c.Assume(Le(and, b))
	}
	switch op {
	case token.AND:
		return and
	case token.OR:
		return Sub(Add(a, b), and)
	case token.XOR:
		return Sub(Add(a, b), scale(and, big.NewInt(2)))
	case token.AND_NOT:
		return Sub(a, and)
	}
	return nil
}

// disjointOr: a|b as a+b when their bits cannot overlap.
func (e *Eng) disjointOr(c *Ctx, a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		_, hb := c.bounds(b)
		lb, _ := c.bounds(b)
		la, _ := c.bounds(a)
		if hb != nil && lb != nil && lb.Sign() >= 0 && la != nil && la.Sign() >= 0 {
			if _, ok := divExactBig(a, pow(2, int64(hb.BitLen()))); ok {
				return Add(a, b)
			}
		}
		a, b = b, a
	}
	return nil
}

func divExactBig(t *Term, k *big.Int) (*Term, bool) {
	for _, m := range asPoly(t) {
		if new(big.Int).Mod(m.coef, k).Sign() != 0 {
			return nil, false
		}
	}
	return t, true
}

func (e *Eng) eqVal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("comparison")
		}
		return st.c.Eq(st.c.N(x), st.c.N(y))
	case VPtr:
		y, ok := b.(VPtr)
		if !ok {
			unsup("comparison of pointer and %T", b)
		}
		if x != y && x.obj > 0 && y.obj > 0 && (st.obj(x.obj).alias || st.obj(y.obj).alias) {
			return BVar(freshName("same"))
		}
		return boolT(x == y)
	case VSlice:
		y, ok := b.(VSlice)
		if ok && y.obj == 0 {
			return boolT(x.obj == 0)
		}
		if ok && x.obj == 0 {
			return boolT(y.obj == 0)
		}
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			unsup("comparison of interface and %T", b)
		}
		if x.kind == "" || y.kind == "" {
			return boolT(x.kind == y.kind)
		}
		if x.kind == "val" && y.kind == "val" {
			if !types.Identical(x.typ, y.typ) {
				return False
			}
			return e.eqVal(st, x.v, y.v)
		}
	case *VStruct:
		y, ok := b.(*VStruct)
		if ok {
			var o []*Term
			for i := range x.f {
				o = append(o, e.eqVal(st, x.f[i], y.f[i]))
			}
			return And(o...)
		}
	case *VFunc:
		if y, ok := b.(*VFunc); ok && (x == nil || y == nil) {
			return boolT(x == nil && y == nil)
		}
	case VMap:
		if y, ok := b.(VMap); ok && (x.obj == 0 || y.obj == 0) {
			return boolT(x.obj == y.obj)
		}
	case *VArr:
		y, ok := b.(*VArr)
		if ok && len(x.e) == len(y.e) {
			var o []*Term
			for i := range x.e {
				o = append(o, e.eqVal(st, x.e[i], y.e[i]))
			}
			return And(o...)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// guard splits off a panic outcome unless cond always holds; the state continues under cond.
func (e *Eng) guard(st *State, cond *Term, msg, pos string) (outs []Outcome, alive bool) {
	cond = st.c.N(cond)
	switch e.decide(st, cond) {
	case 1:
		return nil, true
	case -1:
		return []Outcome{{st: st, kind: "panic", msg: msg, pos: pos}}, false
	}
	p := st.clone()
	p.c.Assume(Not(cond))
	st.c.Assume(cond)
	e.pathCount++
	return []Outcome{{st: p, kind: "panic", msg: msg, pos: pos}}, true
}

func (e *Eng) sliceLen(st *State, v Value) *Term {
	switch x := v.(type) {
	case VSlice:
		return st.c.N(x.ln)
	case *Term:
		return st.c.Len(st.c.N(x))
	case *VArr:
		return Int(int64(len(x.e)))
	case VPtr:
		o := st.obj(x.obj)
		if o.kind == "arr" {
			return Int(int64(len(o.arr)))
		}
		return st.c.Len(st.c.N(o.t))
	case VMap:
		if x.obj == 0 {
			return zero
		}
	}
	unsup("len of %T", v)
	return nil
}

func (e *Eng) instr(it *item, in ssa.Instruction) (outs []Outcome, alive bool) {
	st := it.st
	pos := e.pos(in.Pos())
	die := func(msg string) ([]Outcome, bool) {
		return append(outs, Outcome{st: st, kind: "panic", msg: msg, pos: pos}), false
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		it.env[x] = e.alloc(st, x.Type().(*types.Pointer).Elem())
	case *ssa.BinOp:
		v, p := e.binop(it, x)
		if p == True {
			return die("division by zero")
		}
		it.env[x] = v
	case *ssa.UnOp:
		a := e.val(it, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := a.(VPtr)
			if !ok {
				unsup("load through %T", a)
			}
			if p.obj == 0 {
				return die("nil dereference")
			}
			it.env[x] = e.load(st, p, x.Type())
		case token.NOT:
			it.env[x] = Not(a.(*Term))
		case token.SUB:
			it.env[x] = e.wrap(st, Neg(a.(*Term)), x.Type())
		case token.XOR:
			_, hi, _, signed := intRange(x.Type())
			if signed {
				it.env[x] = Sub(Neg(a.(*Term)), one)
			} else {
				it.env[x] = Sub(BigT(hi), a.(*Term))
			}
		default:
			unsup("%s", x)
		}
	case *ssa.Store:
		p, ok := e.val(it, x.Addr).(VPtr)
		if !ok {
			unsup("store")
		}
		if p.obj == 0 {
			return die("nil dereference")
		}
		e.store(st, p, e.val(it, x.Val))
	case *ssa.FieldAddr:
		p := e.val(it, x.X).(VPtr)
		if p.obj == 0 {
			return die("nil dereference")
		}
		it.env[x] = VPtr{p.obj, fmt.Sprintf("%s.%d", p.path, x.Field)}
	case *ssa.Field:
		s, ok := e.val(it, x.X).(*VStruct)
		if !ok {
			unsup("field of %T", e.val(it, x.X))
		}
		it.env[x] = s.f[x.Field]
	case *ssa.IndexAddr:
		b := e.val(it, x.X)
		i := e.val(it, x.Index).(*Term)
		var id int
		var off *Term
		n := zero
		switch y := b.(type) {
		case VSlice:
			id, off, n = y.obj, y.off, st.c.N(y.ln)
		case VPtr:
			if y.obj == 0 {
				return die("nil dereference")
			}
			if y.path != "" {
				// array inside a struct: constant index only
				k, ok := i.int64()
				if !ok {
					unsup("index into nested array")
				}
				it.env[x] = VPtr{y.obj, fmt.Sprintf("%s.%d", y.path, k)}
				return outs, true
			}
			id, off, n = y.obj, zero, e.sliceLen(st, y)
		default:
			unsup("index of %T", b)
		}
		os, ok := e.guard(st, And(st.c.Le(zero, i), st.c.Lt(i, n)), "index out of range", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		it.env[x] = VPtr{id, elemPath(st.c.N(Add(off, i)))}
	case *ssa.Index:
		b := e.val(it, x.X)
		i := e.val(it, x.Index).(*Term)
		os, ok := e.guard(st, And(st.c.Le(zero, i), st.c.Lt(i, e.sliceLen(st, b))), "index out of range", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		switch y := b.(type) {
		case *Term:
			it.env[x] = st.c.At(st.c.N(y), st.c.N(i))
		case *VArr:
			k, ok := i.int64()
			if !ok {
				var v Value
				for j := range y.e {
					if j == 0 {
						v, ok = y.e[0], true
					} else if ok {
						v, ok = e.mergeVal(st.c, st.c.N(st.c.EqInt(i, Int(int64(j)))), y.e[j], v)
					}
				}
				if !ok || len(y.e) > 64 {
					k, ok = e.wantConst(st, i, "symbolic index into array value").Int64(), true
				} else {
					it.env[x] = v
					break
				}
			}
			it.env[x] = y.e[k]
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		switch y := e.val(it, x.X).(type) {
		case *Term:
			i := e.val(it, x.Index).(*Term)
			os, ok := e.guard(st, And(st.c.Le(zero, i), st.c.Lt(i, st.c.Len(y))), "index out of range", pos)
			outs = append(outs, os...)
			if !ok {
				return outs, false
			}
			it.env[x] = st.c.At(y, st.c.N(i))
		case VMap:
			return e.mapLookup(it, x, y)
		default:
			unsup("lookup in %T", y)
		}
	case *ssa.Slice:
		return e.sliceInstr(it, x)
	case *ssa.MakeSlice:
		n := e.val(it, x.Len).(*Term)
		cp := e.val(it, x.Cap).(*Term)
		os, ok := e.guard(st, And(st.c.Le(zero, n), st.c.Le(n, cp)), "makeslice: len out of range", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		if _, hi := st.c.bounds(st.c.N(cp)); !isByte(el) && e.guessing == 0 && hi != nil && hi.Cmp(big.NewInt(64)) <= 0 {
			// one of a few lengths: each a path of its own
			cp = BigT(e.wantConst(st, cp, "make with a symbolic length"))
			n = BigT(e.wantConst(st, n, "make with a symbolic length"))
		}
		id := e.allocArr(st, el, st.c.N(cp))
		it.env[x] = VSlice{id, zero, st.c.N(n), st.c.N(cp)}
	case *ssa.MakeInterface:
		it.env[x] = e.mkIface(e.val(it, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		it.env[x] = e.val(it, x.X)
	case *ssa.ChangeType:
		it.env[x] = e.val(it, x.X)
	case *ssa.Convert:
		it.env[x] = e.convert(st, e.val(it, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		it.env[x] = e.convert(st, e.val(it, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t, ok := e.val(it, x.Tuple).(VTuple)
		if !ok {
			unsup("extract from %T", e.val(it, x.Tuple))
		}
		it.env[x] = t.v[x.Index]
	case *ssa.MakeClosure:
		f := &VFunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.val(it, b))
		}
		it.env[x] = f
	case *ssa.TypeAssert:
		v, ok := e.val(it, x.X).(VIface)
		if !ok || v.kind != "val" {
			unsup("type assertion")
		}
		okT := types.Identical(v.typ, x.AssertedType)
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			unsup("interface assertion")
		}
		if x.CommaOk {
			if okT {
				it.env[x] = VTuple{[]Value{v.v, True}}
			} else {
				it.env[x] = VTuple{[]Value{e.zeroVal(x.AssertedType), False}}
			}
		} else if okT {
			it.env[x] = v.v
		} else {
			return die("type assertion")
		}
	case *ssa.MakeMap:
		it.env[x] = VMap{e.newObj(st, &Obj{kind: "map", elem: x.Type()})}
	case *ssa.MapUpdate:
		m := e.val(it, x.Map).(VMap)
		if m.obj == 0 {
			return die("assignment to nil map")
		}
		e.mapUpdate(st, m, e.val(it, x.Key), e.val(it, x.Value))
	case *ssa.Range:
		it.env[x] = e.mkIter(st, e.val(it, x.X))
	case *ssa.Next:
		return e.next(it, x)
	case *ssa.Defer:
		if e.guessing > 0 {
			unsup("defer in a loop")
		}
		d := deferred{depth: st.depth, in: x}
		if x.Call.IsInvoke() {
			unsup("deferred method call")
		}
		f, ok := e.val(it, x.Call.Value).(*VFunc)
		if !ok || f == nil || f.fn == nil {
			unsup("deferred call")
		}
		d.f = f
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(it, a))
		}
		st.defers = append(append([]deferred{}, st.defers...), d)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("%T in %s", in, in.Parent())
	case *ssa.SliceToArrayPointer:
		s := e.val(it, x.X).(VSlice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		os, ok := e.guard(st, st.c.Le(Int(n), st.c.N(s.ln)), "slice too short for array", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		unsup("slice to array pointer")
	default:
		unsup("%T", in)
	}
	return outs, true
}

func (e *Eng) mkIface(v Value, t types.Type) Value {
	if f, ok := v.(VIface); ok {
		return f
	}
	return VIface{kind: "val", typ: t, v: v}
}

func (e *Eng) convert(st *State, v Value, from, to types.Type) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if t, ok := v.(*Term); ok {
		if t.sort == SInt && tb != nil && tb.Info()&types.IsInteger != 0 {
			return e.wrap(st, t, to)
		}
		if t.sort == SInt && tb != nil && tb.Info()&types.IsString != 0 {
			if k, ok := t.int64(); ok && k >= 0 {
				return Lit(string(rune(k)))
			}
			lo, hi := st.c.bounds(t)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(127)) <= 0 || st.c.Prove(And(Le(zero, t), Le(t, Int(127)))) {
				return st.c.Chr(t)
			}
			unsup("string of a rune that may not be ASCII")
		}
		if t.sort == SSeq {
			if s, ok := to.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				return e.newBytes(st, t)
			}
			if tb != nil && tb.Info()&types.IsString != 0 {
				return t
			}
		}
	}
	if s, ok := v.(VSlice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return e.bytesOf(st, s)
		}
	}
	_ = fb
	unsup("conversion of %s to %s", from, to)
	return nil
}

func (e *Eng) sliceInstr(it *item, x *ssa.Slice) (outs []Outcome, alive bool) {
	st := it.st
	c := st.c
	pos := e.pos(x.Pos())
	b := e.val(it, x.X)
	lo := zero
	if x.Low != nil {
		lo = e.val(it, x.Low).(*Term)
	}
	switch y := b.(type) {
	case *Term: // string
		n := c.Len(y)
		hi := n
		if x.High != nil {
			hi = e.val(it, x.High).(*Term)
		}
		os, ok := e.guard(st, And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, n)), "slice bounds out of range", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		it.env[x] = c.Slice(c.N(y), c.N(lo), c.N(hi))
		return outs, true
	case VPtr, VSlice:
		var s VSlice
		if p, ok := b.(VPtr); ok {
			if p.obj == 0 {
				outs = append(outs, Outcome{st: st, kind: "panic", msg: "nil dereference", pos: pos})
				return outs, false
			}
			n := zero
			if p.path != "" {
				unsup("slice of a nested array")
			}
			n = e.sliceLen(st, p)
			s = VSlice{p.obj, zero, n, n}
		} else {
			s = b.(VSlice)
		}
		hi := c.N(s.ln)
		if x.High != nil {
			hi = e.val(it, x.High).(*Term)
		}
		cp := s.cp
		limit := cp
		if limit == nil {
			// unknown capacity: slicing within the length is safe, beyond it is out of reach
			if !c.Prove(c.Le(hi, c.N(s.ln))) {
				if x.High != nil && c.Prove(c.Lt(c.N(s.ln), hi)) {
					// beyond the length; may be within an unknown capacity: treat as a panic
				}
			}
			limit = s.ln
		}
		os, ok := e.guard(st, And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, c.N(limit))), "slice bounds out of range", pos)
		outs = append(outs, os...)
		if !ok {
			return outs, false
		}
		var ncp *Term
		if cp != nil {
			ncp = Sub(cp, lo)
		}
		if x.Max != nil {
			mx := e.val(it, x.Max).(*Term)
			if cp == nil || !c.Prove(And(c.Le(hi, mx), c.Le(mx, c.N(cp)))) {
				if !c.Prove(And(c.Le(hi, mx), c.Le(mx, c.N(limit)))) {
					unsup("full slice expression")
				}
			}
			ncp = Sub(mx, lo)
		}
		it.env[x] = VSlice{s.obj, Add(c.N(s.off), lo), Sub(hi, lo), ncp}
		return outs, true
	}
	unsup("slice of %T", b)
	return
}

// ---- append and copy ----

func (e *Eng) appendTo(st *State, s VSlice, elem types.Type, addB *Term, addV []Value) Value {
	c := st.c
	n := int64(len(addV))
	var nT *Term
	if addB != nil {
		nT = c.Len(addB)
	} else {
		nT = Int(n)
	}
	if s.obj != 0 && s.cp != nil {
		fits := c.Le(Add(c.N(s.ln), nT), c.N(s.cp))
		if nT == zero {
			return s
		}
		if c.Prove(fits) { // in place
			o := *st.obj(s.obj)
			if o.shared {
				unsup("append to a slice that may share memory")
			}
			end := Add(c.N(s.off), c.N(s.ln))
			if addB != nil {
				t := c.N(o.t)
				o.t = c.Cat(c.Slice(t, zero, end), addB, c.Slice(t, Add(end, nT), c.Len(t)))
			} else {
				k, ok := end.int64()
				if !ok {
					unsup("append at symbolic position")
				}
				o.arr = append([]Value{}, o.arr...)
				for i, v := range addV {
					o.arr[int(k)+i] = v
				}
			}
			st.heap[s.obj] = &o
			return VSlice{s.obj, s.off, Add(c.N(s.ln), nT), s.cp}
		}
		if !c.Prove(Not(fits)) {
			s.cp = nil // it may or may not be extended in place
		}
	}
	// a new array, or spare capacity of unknown size: nobody else sees the spare part unless the
	// same array is appended to again
	if s.obj != 0 && s.cp == nil {
		o := *st.obj(s.obj)
		if o.label == "appended" && nT != zero {
			unsup("second append to the same array")
		}
		o.label = "appended"
		o.shared = true
		st.heap[s.obj] = &o
	}
	if addB != nil {
		var old *Term = Empty
		if s.obj != 0 {
			old = e.bytesOf(st, s)
		}
		t := c.Cat(old, addB)
		r := e.newBytes(st, t)
		if s.obj != 0 && s.cp == nil {
			oo := *st.obj(r.obj)
			oo.shared = true
			st.heap[r.obj] = &oo
		}
		return r
	}
	o := &Obj{kind: "arr", elem: elem}
	if s.obj != 0 {
		so := st.obj(s.obj)
		if so.kind == "list" {
			unsup("append to a symbolic list")
		}
		a, ok1 := c.N(s.off).int64()
		l, ok2 := c.N(s.ln).int64()
		if !ok1 || !ok2 {
			unsup("append to a slice of symbolic length")
		}
		o.arr = append(o.arr, so.arr[a:a+l]...)
	}
	o.arr = append(o.arr, addV...)
	id := e.newObj(st, o)
	return VSlice{id, zero, Int(int64(len(o.arr))), nil}
}

func (e *Eng) builtin(it *item, call *ssa.Call, name string, args []Value) []Outcome {
	st := it.st
	c := st.c
	ret := func(v ...Value) []Outcome { return []Outcome{{st: st, kind: "ret", vals: v}} }
	switch name {
	case "len":
		if m, ok := args[0].(VMap); ok && m.obj != 0 {
			if st.obj(m.obj).kind == "hmap" {
				n := IVar(freshName("len"))
				st.c.Assume(Le(zero, n))
				st.c.Assume(Le(n, BigT(maxLen)))
				return ret(n)
			}
			unsup("len of map")
		}
		return ret(e.sliceLen(st, args[0]))
	case "cap":
		if s, ok := args[0].(VSlice); ok && s.cp != nil {
			return ret(c.N(s.cp))
		}
		unsup("cap")
	case "append":
		s := args[0].(VSlice)
		el := call.Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case *Term: // append([]byte, string...)
			return ret(e.appendTo(st, s, el, y, nil))
		case VSlice:
			if isByte(el) {
				return ret(e.appendTo(st, s, el, e.bytesOf(st, y), nil))
			}
			if y.obj == 0 {
				return ret(s)
			}
			o := st.obj(y.obj)
			a, ok1 := c.N(y.off).int64()
			l, ok2 := c.N(y.ln).int64()
			if !ok1 || !ok2 || o.kind != "arr" {
				unsup("append of a symbolic slice")
			}
			return ret(e.appendTo(st, s, el, nil, append([]Value{}, o.arr[a:a+l]...)))
		}
	case "copy":
		d := args[0].(VSlice)
		var src *Term
		if d.obj == 0 {
			return ret(zero)
		}
		o := *st.obj(d.obj)
		if o.kind == "bytes" {
			src = e.bytesOf(st, args[1])
			ls, ld := c.Len(src), c.N(d.ln)
			var n *Term
			if c.Prove(c.Le(ls, ld)) {
				n = ls
			} else if c.Prove(c.Le(ld, ls)) {
				n = ld
			} else {
				unsup("copy of undecided length")
			}
			if o.shared {
				unsup("copy into a slice that may share memory")
			}
			t := c.N(o.t)
			off := c.N(d.off)
			o.t = c.Cat(c.Slice(t, zero, off), c.Slice(src, zero, n), c.Slice(t, Add(off, n), c.Len(t)))
			st.heap[d.obj] = &o
			return ret(n)
		}
		if o.kind == "arr" {
			s := args[1].(VSlice)
			if s.obj == 0 {
				return ret(zero)
			}
			so := st.obj(s.obj)
			a, ok1 := c.N(d.off).int64()
			l, ok2 := c.N(d.ln).int64()
			a2, ok3 := c.N(s.off).int64()
			l2, ok4 := c.N(s.ln).int64()
			if !ok1 || !ok2 || !ok3 || !ok4 || so.kind != "arr" {
				unsup("copy")
			}
			n := minI(l, l2)
			o.arr = append([]Value{}, o.arr...)
			copy(o.arr[a:a+n], so.arr[a2:a2+n])
			st.heap[d.obj] = &o
			return ret(Int(n))
		}
		unsup("copy into %s", o.kind)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			lt := c.Lt(r, y)
			if name == "max" {
				lt = c.Lt(y, r)
			}
			r = c.Ite(c.N(lt), r, y)
		}
		return ret(r)
	case "print", "println":
		st.io = append(st.io, "builtin "+name+" at "+e.pos(call.Pos()))
		return ret()
	case "recover":
		return ret(VIface{}) // panics never reach a deferred call here, see exec
	case "delete":
		m := args[0].(VMap)
		if m.obj == 0 {
			return ret()
		}
		o := *st.obj(m.obj)
		if o.kind == "hmap" {
			return ret()
		}
		kt, ok := args[1].(*Term)
		if !ok || o.t != nil {
			unsup("delete")
		}
		for i, x := range o.keys {
			switch e.decide(st, st.c.Eq(x, kt)) {
			case 1:
				o.keys = append(append([]*Term{}, o.keys[:i]...), o.keys[i+1:]...)
				o.vals = append(append([]Value{}, o.vals[:i]...), o.vals[i+1:]...)
				st.heap[m.obj] = &o
				return ret()
			case 0:
				unsup("delete")
			}
		}
		return ret()
	case "clear":
		unsup("clear")
	case "panic":
		return []Outcome{{st: st, kind: "panic", msg: "explicit panic", pos: e.pos(call.Pos())}}
	}
	unsup("builtin %s", name)
	return nil
}

// ---- maps ----

func (e *Eng) mapUpdate(st *State, m VMap, k, v Value) {
	o := *st.obj(m.obj)
	kt, ok := k.(*Term)
	if !ok && o.kind != "hmap" {
		unsup("map key %T", k)
	}
	if o.kind == "hmap" { // stays unknown
		o.vals = append(append([]Value{}, o.vals...), v)
		st.heap[m.obj] = &o
		return
	}
	if o.t != nil {
		unsup("update of a summarised map")
	}
	kt = st.c.N(kt)
	keys := append([]*Term{}, o.keys...)
	vals := append([]Value{}, o.vals...)
	for i, x := range keys {
		switch e.decide(st, st.c.Eq(x, kt)) {
		case 1:
			vals[i] = v
			o.keys, o.vals = keys, vals
			st.heap[m.obj] = &o
			return
		case 0:
			e.split(st, st.c.Eq(x, kt))
		}
	}
	o.keys, o.vals = append(keys, kt), append(vals, v)
	st.heap[m.obj] = &o
}

func (e *Eng) mapLookup(it *item, x *ssa.Lookup, m VMap) ([]Outcome, bool) {
	st := it.st
	kt, ok := e.val(it, x.Index).(*Term)
	if !ok && (m.obj == 0 || st.obj(m.obj).kind != "hmap") {
		unsup("map key")
	}
	set := func(v Value, found *Term) ([]Outcome, bool) {
		if x.CommaOk {
			it.env[x] = VTuple{[]Value{v, found}}
		} else {
			it.env[x] = v
		}
		return nil, true
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	z := e.zeroVal(vt)
	if m.obj == 0 {
		return set(z, False)
	}
	o := st.obj(m.obj)
	if o.kind == "hmap" {
		b := st.pend
		if b == nil {
			if e.guessing > 0 {
				unsup("lookup in package state in a loop")
			}
			b = BVar(freshName(o.label + "?"))
			st.pend = b
			e.split(st, b)
		}
		st.pend = nil
		if e.decide(st, b) == -1 {
			return set(z, False)
		}
		v := e.unknownVal(st, vt, o.label)
		if v == nil {
			hidden("history: the result is not shown to be independent of package variable %s", o.label)
		}
		return set(v, True)
	}
	if o.label == "building" {
		unsup("lookup in a map that is being filled")
	}
	if o.t != nil { // word -> last index (+ off)
		l := st.c.N(o.t)
		ix := st.c.App("lastindexof", SInt, l, st.c.N(kt))
		found := st.c.N(Le(zero, ix))
		off := o.v.(*Term)
		return set(st.c.Ite(found, Add(ix, off), zero), found)
	}
	var val Value = z
	found := False
	for i := range o.keys {
		eq := st.c.N(st.c.Eq(o.keys[i], kt))
		v, ok := e.mergeVal(st.c, eq, o.vals[i], val)
		if !ok {
			unsup("map lookup")
		}
		val = v
		found = Or(found, eq)
	}
	return set(val, found)
}

func (e *Eng) mkIter(st *State, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return VIter{e.newObj(st, &Obj{kind: "iter", t: x, v: zero})}
	}
	unsup("range over %T", v)
	return nil
}

func (e *Eng) next(it *item, x *ssa.Next) ([]Outcome, bool) {
	st := it.st
	i := e.val(it, x.Iter).(VIter)
	o := *st.obj(i.obj)
	p := o.v.(*Term)
	s := st.c.N(o.t)
	in := st.c.N(st.c.Lt(p, st.c.Len(s)))
	d := e.decide(st, in)
	if d == 0 && e.guessing > 0 {
		panic(needSplit{[]*Term{in, Not(in)}})
	}
	switch d {
	case 1:
		a := st.c.At(s, p)
		ascii := st.c.N(st.c.Le(a, Int(127)))
		switch e.decide(st, ascii) {
		case 1:
			o.v = Add(p, one)
			st.heap[i.obj] = &o
			it.env[x] = VTuple{[]Value{True, p, a}}
		case -1: // some character outside ASCII, of one to four bytes
			r, w := IVar(freshName("rune")), IVar(freshName("width"))
			for _, f := range []*Term{Le(Int(128), r), Le(r, Int(0x10ffff)), Le(one, w), Le(w, Int(4)), Le(Add(p, w), st.c.Len(s))} {
				st.c.Assume(f)
			}
			o.v = Add(p, w)
			st.heap[i.obj] = &o
			it.env[x] = VTuple{[]Value{True, p, r}}
		default:
			if e.guessing == 0 {
				e.split(st, ascii)
			}
			panic(needSplit{[]*Term{ascii, Not(ascii)}})
		}
	case -1:
		it.env[x] = VTuple{[]Value{False, zero, zero}}
	default:
		unsup("range over a string of symbolic length")
	}
	return nil, true
}

// ---- calls ----

func (e *Eng) callInstr(it *item, x *ssa.Call) []Outcome {
	base := it.st
	var baseC *State
	if base.merges > 0 {
		baseC = base.clone()
	}
	outs := e.callInstr1(it, x)
	if baseC == nil || len(outs) < 2 {
		return outs
	}
	// inside an unrolled loop: join the returning outcomes of a call
	var rets, rest []Outcome
	for _, o := range outs {
		if o.kind == "ret" && !o.st.c.dead {
			rets = append(rets, o)
		} else if o.kind != "ret" {
			rest = append(rest, o)
		}
	}
	if len(rets) < 2 {
		return append(rets, rest...)
	}
	cur := rets[0]
	for _, r := range rets[1:] {
		st, cond := e.mergeStates(baseC, cur.st, r.st)
		if st == nil {
			return outs
		}
		var vals []Value
		for i := range cur.vals {
			v, ok := e.mergeVal(st.c, cond, cur.vals[i], r.vals[i])
			if !ok {
				return outs
			}
			vals = append(vals, v)
		}
		cur = Outcome{st: st, kind: "ret", vals: vals}
	}
	return append([]Outcome{cur}, rest...)
}

func (e *Eng) callInstr1(it *item, x *ssa.Call) []Outcome {
	st := it.st
	cc := x.Common()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(it, a))
	}
	if cc.IsInvoke() {
		recv, ok := e.val(it, cc.Value).(VIface)
		if !ok {
			unsup("method call on %T", e.val(it, cc.Value))
		}
		return e.invoke(st, recv, cc.Method.Name(), args, x)
	}
	f, ok := e.val(it, cc.Value).(*VFunc)
	if !ok || f == nil {
		if ok {
			return []Outcome{{st: st, kind: "panic", msg: "call of nil function"}}
		}
		unsup("call of %s", cc.Value)
	}
	if f.blt != "" {
		return e.builtin(it, x, f.blt, args)
	}
	return e.callFn(st, f.fn, args, f.bind, x)
}

func (e *Eng) callFn(st *State, fn *ssa.Function, args []Value, bind []Value, x *ssa.Call) []Outcome {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if e.initing && fn.Name() == "init" && fn.Pkg != e.pkg {
		return []Outcome{{st: st, kind: "ret"}}
	}
	if c := e.useC(fn); c != nil && e.reqHolds(st, c, args) {
		e.usedCont[c.name] = true
		return e.applyContract(st, c, args, x)
	}
	if m, ok := models[name]; ok {
		e.usedModel[name] = true
		mc := &MC{e: e, st: st, args: args, fn: fn, name: name}
		if x != nil {
			mc.pos = e.pos(x.Pos())
		}
		return m(mc)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		pk = fn.Parent().Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if e.inline[pk] || len(fn.Blocks) > 0 && (strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "bound")) {
		e.inlined[name] = true
		return e.exec(fn, args, bind, st)
	}
	if ambient(name) {
		hidden("history: the result is not shown to be independent of %s", name)
	}
	unsup("call of %s: no contract or model", name)
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func printHist(h map[string]int) {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return h[ks[i]] > h[ks[j]] })
	for i, k := range ks {
		if i < 60 {
			fmt.Fprintln(os.Stderr, h[k], k)
		}
	}
}
