package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Package state outside the contracts. The contracts make every result a function of the arguments and the random
// draws, so variables the package changes after its initialisation are arbitrary at every call: their values are
// replaced by unknowns of their type (no invariant is assumed of them), and again after every call that is seen
// through its contract. What cannot be represented that way fails the obligation "history" when it is used.

// hidden raises the use of something a result must not depend on.
func hidden(f string, a ...interface{}) {
	defer func() {
		u := recover().(Unsupported)
		u.hidden = true
		panic(u)
	}()
	unsup(f, a...)
}

// ambient functions: their results are no function of arguments or of the cryptographic random source.
func ambient(name string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "os.", "(*os.", "math/rand", "(*math/rand", "runtime.", "runtime/debug.", "os/exec.", "(*os/exec.", "net.", "net/http.", "syscall.",
		"io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.ReadDir", "flag.", "os/user.", "os/signal.", "golang.org/x/sys", "(time.Time)", "expvar."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isSync(t types.Type) bool {
	for _, n := range []string{"Mutex", "RWMutex", "Once", "Map", "Pool", "WaitGroup"} {
		if namedIs(t, "sync", n) {
			return true
		}
	}
	return false
}

// capturedState: a function keeps variables of its own and changes them.
func capturedState(f *ssa.Function) string {
	for _, fv := range f.FreeVars {
		for _, in := range *fv.Referrers() {
			if w := onlyRead(fv, in, 0); w != "" {
				return "keeps " + fv.Name() + ", which " + w
			}
		}
	}
	return ""
}

func (v *Verifier) mutableSorted() []*ssa.Global {
	var gs []*ssa.Global
	for g := range v.mutable {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	return gs
}

// havocState replaces the package state outside the contracts by unknowns.
func (e *Eng) havocState(st *State) {
	for _, g := range e.mutSorted {
		e.havocGlobal(st, g)
	}
}

func (e *Eng) havocGlobal(st *State, g *ssa.Global) {
	t := g.Type().(*types.Pointer).Elem()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
			e.opaque[g] = true
		}
	}()
	id, ok := e.globals[g]
	if !ok {
		id = e.alloc(st, t).obj
		e.globals[g] = id
	}
	if st.heap[id] == nil {
		p := e.alloc(st, t)
		st.heap[id] = st.heap[p.obj]
		delete(st.heap, p.obj)
	}
	if !e.havocObj(st, id, t, g.Name(), e.written[g], map[int]bool{}) {
		e.opaque[g] = true
	}
}

// havocObj gives the object id (a variable of type t) an arbitrary content; rebound: references in it may have been
// replaced, otherwise they keep their targets and the targets' contents become arbitrary.
func (e *Eng) havocObj(st *State, id int, t types.Type, name string, rebound bool, seen map[int]bool) bool {
	if id <= 0 || seen[id] {
		return id == 0 || seen[id]
	}
	seen[id] = true
	o := st.heap[id]
	if o == nil {
		return false
	}
	n := *o
	n.pre, n.label, n.scratch = true, name, true
	switch o.kind {
	case "big":
		n.t = IVar(freshName(name))
	case "bytes":
		L := st.c.Len(o.t)
		s := SVar(freshName(name))
		st.c.Assume(eqInt0(Sub(st.c.Len(s), L)))
		n.t = st.c.N(s)
	case "cell":
		v, ok := e.havocVal(st, o.v, t, name, rebound, seen)
		if !ok {
			return false
		}
		n.v = v
	case "map":
		n.kind, n.keys, n.vals, n.t = "hmap", nil, nil, nil
	case "hmap":
	case "arr":
		a, ok := t.Underlying().(*types.Array)
		var el types.Type
		if ok {
			el = a.Elem()
		} else if s, ok := t.Underlying().(*types.Slice); ok {
			el = s.Elem()
		} else {
			return false
		}
		n.arr = make([]Value, len(o.arr))
		if len(o.arr) > 4096 {
			return false
		}
		for i := range o.arr {
			v, ok := e.havocVal(st, o.arr[i], el, name, rebound, seen)
			if !ok {
				return false
			}
			n.arr[i] = v
		}
	case "builder", "hash":
		n.t = SVar(freshName(name))
		if o.kind == "hash" {
			n.label = o.label // the hash function
		}
	default:
		return false
	}
	st.heap[id] = &n
	return true
}

func (e *Eng) havocVal(st *State, old Value, t types.Type, name string, rebound bool, seen map[int]bool) (Value, bool) {
	if isSync(t) {
		return old, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := SVar(freshName(name))
			st.c.Assume(Le(st.c.Len(s), BigT(maxLen)))
			return s, true
		case u.Info()&types.IsBoolean != 0:
			return BVar(freshName(name)), true
		case u.Info()&types.IsInteger != 0:
			x := IVar(freshName(name))
			lo, hi, _, _ := intRange(t)
			st.c.Assume(Le(BigT(lo), x))
			st.c.Assume(Le(x, BigT(hi)))
			return x, true
		}
	case *types.Struct:
		s, ok := old.(*VStruct)
		if !ok {
			return nil, false
		}
		r := &VStruct{}
		for i := range s.f {
			v, ok := e.havocVal(st, s.f[i], u.Field(i).Type(), name, rebound, seen)
			if !ok {
				return nil, false
			}
			r.f = append(r.f, v)
		}
		return r, true
	case *types.Array:
		if isByte(u.Elem()) {
			s := SVar(freshName(name))
			st.c.Assume(eqInt0(Sub(st.c.Len(s), Int(u.Len()))))
			return s, true
		}
	case *types.Map:
		m, _ := old.(VMap)
		if m.obj == 0 || rebound { // a map of unknown content
			return VMap{e.newObj(st, &Obj{kind: "hmap", pre: true, scratch: true, label: name})}, true
		}
		if !e.havocObj(st, m.obj, t, name, rebound, seen) {
			return nil, false
		}
		return m, true
	case *types.Pointer:
		p, ok := old.(VPtr)
		if rebound {
			return VUnk{t, BVar(freshName(name + "=nil")), name}, true
		}
		if !ok || p.path != "" {
			return nil, false
		}
		if p.obj == 0 {
			return old, true
		}
		if !e.havocObj(st, p.obj, u.Elem(), name, rebound, seen) {
			return nil, false
		}
		return old, true
	case *types.Interface:
		i, ok := old.(VIface)
		if rebound || !ok {
			return nil, false
		}
		if p, ok := i.v.(VPtr); ok && i.kind == "hash" && e.havocObj(st, p.obj, t, name, rebound, seen) {
			return old, true
		}
		return nil, false
	case *types.Slice:
		p, ok := old.(VSlice)
		if rebound && isByte(u.Elem()) {
			return VUnk{t, BVar(freshName(name + "=nil")), name}, true
		}
		if rebound || !ok {
			return nil, false
		}
		if p.obj == 0 {
			return old, true
		}
		if !e.havocObj(st, p.obj, t, name, rebound, seen) {
			return nil, false
		}
		return old, true
	}
	return nil, false
}

// unknownVal: an arbitrary value of type t that package state holds; nil if it cannot be represented.
func (e *Eng) unknownVal(st *State, t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v, ok := e.havocVal(st, nil, t, name, false, nil)
		if !ok {
			return nil
		}
		return v
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v := e.unknownVal(st, u.Field(i).Type(), name)
			if v == nil {
				return nil
			}
			s.f = append(s.f, v)
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			v, _ := e.havocVal(st, nil, t, name, false, nil)
			return v
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			s := SVar(freshName(name))
			st.c.Assume(Le(st.c.Len(s), BigT(maxLen)))
			return VSlice{e.newAlias(st, &Obj{kind: "bytes", t: s, label: name}), zero, st.c.Len(s), nil}
		}
	case *types.Pointer:
		if isBigInt(u.Elem()) {
			return VPtr{obj: e.newAlias(st, &Obj{kind: "big", t: IVar(freshName(name)), label: name})}
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && !isSync(u.Elem()) {
			val := e.unknownVal(st, u.Elem(), name)
			_ = s
			if val == nil {
				return nil
			}
			return VPtr{obj: e.newAlias(st, &Obj{kind: "cell", v: val, label: name})}
		}
	}
	return nil
}

// newAlias: an object that package state refers to and that anyone else may refer to as well.
func (e *Eng) newAlias(st *State, o *Obj) int {
	o.pre, o.scratch, o.alias = true, true, true
	id := e.newObj(st, o)
	st.heap[id].birth = st.heap[id]
	return id
}

// VUnk is a reference that package state holds, nil or to an unknown object, before it is first read.
type VUnk struct {
	t    types.Type
	none *Term
	name string
}

func hasUnk(v Value) bool {
	switch x := v.(type) {
	case VUnk:
		return true
	case *VStruct:
		for _, f := range x.f {
			if hasUnk(f) {
				return true
			}
		}
	}
	return false
}

// resolve decides whether unknown references are nil. Nothing may have been changed yet when it is called.
func (e *Eng) resolve(st *State, v Value) Value {
	switch x := v.(type) {
	case VUnk:
		switch e.decide(st, st.c.N(x.none)) {
		case 1:
			return e.zeroVal(x.t)
		case 0:
			if e.guessing > 0 {
				unsup("package state read in a loop")
			}
			e.split(st, x.none)
		}
		r := e.unknownVal(st, x.t, x.name)
		if r == nil {
			hidden("history: the result is not shown to be independent of package variable %s", x.name)
		}
		return r
	case *VStruct:
		r := &VStruct{}
		for _, f := range x.f {
			r.f = append(r.f, e.resolve(st, f))
		}
		return r
	}
	return v
}

// kept: the objects that package state outside the contracts refers to.
func (e *Eng) kept(st *State) map[int]bool {
	seen := map[int]bool{}
	var walk func(v Value)
	obj := func(id int) {
		if id <= 0 || seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		o := st.heap[id]
		walk(o.v)
		for _, x := range o.arr {
			walk(x)
		}
		for _, x := range o.vals {
			walk(x)
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			obj(x.obj)
		case VSlice:
			obj(x.obj)
		case VMap:
			obj(x.obj)
		case *VStruct:
			for _, f := range x.f {
				walk(f)
			}
		case *VArr:
			for _, f := range x.e {
				walk(f)
			}
		case VIface:
			walk(x.v)
		}
	}
	for _, g := range e.mutSorted {
		if id, ok := e.globals[g]; ok {
			obj(id)
		}
	}
	return seen
}

// writtenGlobals: the variables that code other than the initialisation may assign to (not just what they refer to).
func writtenGlobals(pkg *ssa.Package) map[*ssa.Global]bool {
	res := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(pkg.Prog) {
		if f.Pkg != pkg || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != pkg {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok {
						_ = u
						continue // a load
					}
					if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() != nil {
						n := c.Common().StaticCallee().String()
						if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(*math/big.Int).") {
							continue
						}
					}
					res[g] = true
				}
			}
		}
	}
	return res
}

func init() {
	none := func(m *MC) []Outcome { return m.ret() }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		models[n] = none
	}
	models["(*sync.Once).Do"] = func(m *MC) []Outcome {
		f, ok := m.args[1].(*VFunc)
		if !ok || f == nil || f.fn == nil {
			hidden("sync.Once")
		}
		p, _ := m.args[0].(VPtr)
		if o := m.st.heap[p.obj]; o == nil || !o.scratch {
			hidden("sync.Once")
		}
		// done before, or not
		b := m.st.clone()
		m.e.pathCount++
		outs := []Outcome{{st: b, kind: "ret"}}
		return append(outs, m.e.callFn(m.st, f.fn, nil, f.bind, nil)...)
	}
}
