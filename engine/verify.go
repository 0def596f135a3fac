package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const btcPkg = "github.com/aureleoules/btc"

type Ob struct {
	id     string
	props  []string
	ok     bool
	how    string // normaliser, z3, cvc5
	detail string
	goal   string
	inv    bool // library-state invariant
}

type FnResult struct {
	c        *Contract
	obs      []*Ob
	unsup    string
	hidden   string
	outcomes int
	hits     map[string]int
	dt       time.Duration
	inlined  map[string]bool
	models   map[string]bool
	used     map[string]bool
	loops    map[string]bool
	queries  int
	assumed  map[string]bool
	cands    []map[string]string
}

func (r *FnResult) proved() bool {
	if r.unsup != "" {
		return false
	}
	for _, o := range r.obs {
		if !o.ok {
			return false
		}
	}
	return len(r.obs) > 0
}

type Verifier struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	deps      map[string]*ssa.Package
	spec      *Spec
	slv       *Solver
	initSt    *State
	globals   map[*ssa.Global]int
	initErr   string
	results   map[*Contract]*FnResult
	busy      map[*Contract]bool
	missing   []string
	known     map[string]bool // labels of the library state under contract
	mutable   map[*ssa.Global]string
	mutSorted []*ssa.Global
	written   map[*ssa.Global]bool
	nobj      int
	initEng   *Eng
	maxStep   int
	lemmaErr  string
	target    *Contract
	nmodel    int
	onlyPart  string          // verify only this part of the target's case distinction
	status    map[string]bool // contracts verified (or not) by another process
}

func load(repo string, overlay map[string][]byte) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Overlay: overlay, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, ".", ecPkg, "github.com/mr-tron/base58")
	if err != nil {
		return nil, nil, err
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(msgs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	m := map[string]*ssa.Package{}
	for _, p := range sp {
		if p != nil {
			m[p.Pkg.Path()] = p
		}
	}
	return prog, m, nil
}

func (v *Verifier) newEng() *Eng {
	e := &Eng{prog: v.prog, pkg: v.pkg, slv: v.slv, nobj: v.nobj, inline: map[string]bool{btcPkg: true, ecPkg: true},
		contracts: map[*ssa.Function]*Contract{}, useC: func(*ssa.Function) *Contract { return nil },
		globals: map[*ssa.Global]int{}, loops: map[*ssa.Function][]*Loop{}, pdom: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{},
		noSum: map[*ssa.BasicBlock]string{}, noRetry: map[*ssa.BasicBlock]bool{}, maxSteps: v.maxStep, usedModel: map[string]bool{}, inlined: map[string]bool{}, usedCont: map[string]bool{},
		loopNotes: map[string]bool{}, assumed: map[string]bool{}, spec: v.spec}
	for g, id := range v.globals {
		e.globals[g] = id
	}
	e.mutable, e.mutSorted, e.written, e.opaque = v.mutable, v.mutSorted, v.written, map[*ssa.Global]bool{}
	if v.initSt != nil {
		e.maxSteps = stepLimit(e.maxSteps)
	}
	if os.Getenv("GOVER_HIST") != "" {
		e.hist = map[string]int{}
	}
	return e
}

func newVerifier(repo, contractDir string, slv *Solver) (*Verifier, error) {
	specFile := contractDir + "/btc.spec"
	lem, err := os.ReadFile(contractDir + "/lemmas.go")
	if err != nil {
		return nil, err
	}
	lemmaErr := ""
	prog, pk, err := load(repo, map[string][]byte{repo + "/zz_verif_lemmas.go": lem})
	if err != nil {
		lemmaErr = err.Error()
		prog, pk, err = load(repo, nil)
	}
	if err != nil {
		return nil, err
	}
	v := &Verifier{prog: prog, pkg: pk[btcPkg], deps: pk, slv: slv, results: map[*Contract]*FnResult{}, busy: map[*Contract]bool{}, known: map[string]bool{}, maxStep: 3000000, lemmaErr: lemmaErr}
	if v.pkg == nil {
		return nil, fmt.Errorf("package %s not found", btcPkg)
	}
	v.spec = parseSpec(specFile)
	v.missing = v.spec.bind(v.pkg)
	v.mutable = mutableGlobals(v.pkg)
	v.mutSorted = v.mutableSorted()
	v.written = writtenGlobals(v.pkg)
	v.runInit()
	return v, nil
}

// runInit executes the package initialisation symbolically (it has no inputs).
func (v *Verifier) runInit() {
	e := v.newEng()
	e.initing = true
	st := &State{heap: map[int]*Obj{}, c: newCtx(v.slv), rfail: False}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				v.initErr = u.msg
				v.initSt = &State{heap: map[int]*Obj{}, c: newCtx(v.slv), rfail: False}
				return
			}
			panic(r)
		}
	}()
	outs := e.exec(v.pkg.Func("init"), nil, nil, st)
	if len(outs) != 1 || outs[0].kind != "ret" {
		unsup("initialisation does not return normally")
	}
	v.initSt = outs[0].st
	v.globals = e.globals
	v.nobj = e.nobj
	v.initEng = e
	// label everything reachable from the globals
	type gl struct {
		n  string
		id int
	}
	var gs []gl
	for g, id := range e.globals {
		gs = append(gs, gl{g.Name(), id})
		if f, ok := v.initSt.heap[id].v.(VFunc); ok && g.Pkg == v.pkg && f.fn != nil && len(f.bind) > 0 && v.mutable[g] == "" {
			if why := capturedState(f.fn); why != "" {
				v.mutable[g] = why
			}
		}
	}
	v.mutSorted = v.mutableSorted()
	sort.Slice(gs, func(i, j int) bool { return gs[i].n < gs[j].n })
	for _, g := range gs {
		v.label(g.id, g.n)
	}
}

func (v *Verifier) label(id int, name string) {
	if id <= 0 {
		return
	}
	o := v.initSt.heap[id]
	if o == nil || o.pre && o.label != "" && !strings.Contains(o.label, "/") {
		return
	}
	n := *o
	n.pre, n.label = true, name
	v.initSt.heap[id] = &n
	var walk func(x Value, nm string)
	walk = func(x Value, nm string) {
		switch y := x.(type) {
		case VPtr:
			v.label(y.obj, nm)
		case VSlice:
			v.label(y.obj, nm)
		case VMap:
			v.label(y.obj, nm)
		case *VStruct:
			for i, f := range y.f {
				walk(f, fmt.Sprintf("%s.%d", nm, i))
			}
		case *VArr:
			for i, f := range y.e {
				walk(f, fmt.Sprintf("%s[%d]", nm, i))
			}
		}
	}
	walk(n.v, name)
	for i, x := range n.arr {
		if _, ok := x.(*Term); ok {
			break
		}
		walk(x, fmt.Sprintf("%s[%d]", name, i))
	}
}

// libVars are the package variables whose values the contracts rely on and protect.
var libVars = map[string]bool{"secp256k1": true, "MainNetwork": true, "TestNetwork": true, "EnglishWordlist": true, "FrenchWordlist": true,
	"JapaneseWordlist": true, "ItalianWordlist": true, "SpanishWordlist": true, "KoreanWordlist": true, "CzechWordlist": true,
	"TraditionalChineseWordlist": true, "SimplifiedChineseWordlist": true, "ChineseTraditionalWordlist": true, "ChineseSimplifiedWordlist": true}

// mutableGlobals finds package variables outside the contracts that code other than the initialisation may change:
// state the contracts cannot speak about.
func mutableGlobals(pkg *ssa.Package) map[*ssa.Global]string {
	res := map[*ssa.Global]string{}
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for f := range ssautil.AllFunctions(pkg.Prog) {
		if f.Pkg != pkg || isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != pkg || libVars[g.Name()] || strings.HasPrefix(g.Name(), "init$") {
						continue
					}
					if why := onlyRead(g, in, 0); why != "" {
						res[g] = why
					}
				}
			}
		}
	}
	return res
}

// pureValue: values of the type hold no reference through which anything could be changed.
func pureValue(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !pureValue(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return pureValue(u.Elem())
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Signature:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !pureValue(u.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func pureResults(s *types.Signature) bool { return pureValue(s.Results()) }

// onlyRead: instruction in uses v (an address or reference) without letting it be written.
func onlyRead(v ssa.Value, in ssa.Instruction, depth int) string {
	if depth > 12 {
		return "is used in a way that is not followed"
	}
	follow := func(r ssa.Value) string {
		if r.Referrers() == nil {
			return ""
		}
		for _, q := range *r.Referrers() {
			if w := onlyRead(r, q, depth+1); w != "" {
				return w
			}
		}
		return ""
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.Type().Underlying().(type) {
			case *types.Basic, *types.Signature:
				return ""
			case *types.Interface:
				if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) { // errors are immutable
					return ""
				}
			}
			if pureValue(x.Type()) {
				return ""
			}
			return follow(x)
		}
	case *ssa.FieldAddr:
		return follow(x)
	case *ssa.IndexAddr:
		if x.X == v {
			return follow(x)
		}
		return ""
	case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		return ""
	case *ssa.Lookup, *ssa.Index, *ssa.Field, *ssa.Extract, *ssa.Next:
		r := in.(ssa.Value)
		if pureValue(r.Type()) {
			return ""
		}
		return follow(r)
	case *ssa.Range:
		return follow(x)
	case *ssa.Slice:
		return follow(x)
	case *ssa.Phi:
		return follow(x)
	case *ssa.ChangeType:
		return follow(x)
	case *ssa.Convert:
		if pureValue(x.Type()) {
			return ""
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return ""
			case "copy", "append":
				if s, ok := v.Type().Underlying().(*types.Slice); ok && pureValue(s.Elem()) && x.Common().Args[0] != v {
					return ""
				}
			}
		}
		if f := x.Common().StaticCallee(); f != nil {
			if f.Pkg == in.Parent().Pkg && f.Blocks != nil && depth < 6 {
				for i, a := range x.Common().Args {
					if a == v {
						if w := follow(f.Params[i]); w != "" {
							return w
						}
					}
				}
				return ""
			}
			if f.Pkg != nil && f.Signature.Recv() == nil && pureResults(f.Signature) {
				switch f.Pkg.Pkg.Path() {
				case "strings", "bytes", "crypto/sha256", "crypto/sha512", "encoding/hex", "crypto/subtle", "crypto/hmac":
					if f.Name() != "Encode" && f.Name() != "Decode" && f.Name() != "ConstantTimeCopy" {
						return ""
					}
				}
			}
			switch f.String() {
			case "(*math/big.Int).Cmp", "(*math/big.Int).Sign", "(*math/big.Int).Bit", "(*math/big.Int).BitLen", "(*math/big.Int).Bytes", "(*math/big.Int).Text":
				return ""
			}
			if strings.HasPrefix(f.String(), "(*math/big.Int).") && len(x.Common().Args) > 0 && x.Common().Args[0] != v {
				return ""
			}
		}
		if x.Common().IsInvoke() && x.Common().Value == v {
			switch x.Common().Method.Name() {
			case "Error", "String", "Sum", "Size", "BlockSize", "Len":
				return ""
			}
			return "may be changed by its method " + x.Common().Method.Name()
		}
		if x.Common().Value == v {
			return ""
		}
		return "is passed to a call"
	case *ssa.Store:
		if x.Addr == v {
			return "is written"
		}
		return "is stored elsewhere"
	}
	return fmt.Sprintf("is used by %T", in)
}

// ---- inputs ----

type Input struct {
	st    *State
	args  []Value
	names []string // paths, sorted
	terms map[string]*Term
}

func (v *Verifier) input(e *Eng, c *Contract, variant string) *Input {
	st := v.initSt.clone()
	st.c = newCtx(v.slv)
	st.rfail = False
	in := &Input{st: st, terms: map[string]*Term{}}
	variant, part, _ := strings.Cut(variant, "#")
	type vop struct{ op, a, b string }
	var ops []vop
	for _, o := range strings.Split(variant, "&") {
		if i := strings.IndexByte(o, '('); i >= 0 {
			a, b, _ := strings.Cut(strings.TrimSuffix(o[i+1:], ")"), "+")
			ops = append(ops, vop{o[:i], a, b})
		}
	}
	made := map[string]Value{}
	reg := func(n string, t *Term) *Term {
		in.terms[n] = t
		in.names = append(in.names, n)
		return t
	}
	var mkv func(path string, t types.Type) Value
	mkv = func(path string, t types.Type) Value {
		// aliasing variants
		for _, o := range ops {
			switch {
			case (o.op == "same" || o.op == "share") && path == o.b:
				return made[o.a]
			case o.op == "nil" && path == o.a:
				return e.zeroVal(t)
			case o.op == "lib" && path == o.a: // the library's own object
				for g, id := range v.globals {
					if g.Name() == o.b {
						made[path] = e.load(st, VPtr{obj: id}, t)
						return made[path]
					}
				}
				unsup("variable %s", o.b)
			}
		}
		var r Value
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				r = reg(path, SVar(path))
			case u.Info()&types.IsBoolean != 0:
				r = reg(path, BVar(path))
			case u.Info()&types.IsInteger != 0:
				x := reg(path, IVar(path))
				lo, hi, _, _ := intRange(t)
				st.c.Assume(Le(BigT(lo), x))
				st.c.Assume(Le(x, BigT(hi)))
				r = x
			}
		case *types.Pointer:
			if isBigInt(u.Elem()) {
				id := e.newObj(st, &Obj{kind: "big", t: reg(path, IVar(path)), pre: true, label: path})
				r = VPtr{obj: id}
			} else if s, ok := u.Elem().Underlying().(*types.Struct); ok {
				val := &VStruct{}
				for i := 0; i < s.NumFields(); i++ {
					val.f = append(val.f, mkv(path+"."+s.Field(i).Name(), s.Field(i).Type()))
				}
				r = VPtr{obj: e.newObj(st, &Obj{kind: "cell", v: val, pre: true, label: path})}
			}
		case *types.Slice:
			if isStr(u.Elem()) {
				l := reg(path, LVar(path))
				st.c.Assume(Le(st.c.LLen(l), BigT(maxLen)))
				r = VSlice{e.newObj(st, &Obj{kind: "list", t: l, pre: true, label: path}), zero, st.c.LLen(l), nil}
			} else if isByte(u.Elem()) {
				s := reg(path, SVar(path))
				r = VSlice{e.newObj(st, &Obj{kind: "bytes", t: s, pre: true, label: path}), zero, st.c.Len(s), nil}
			}
		}
		if r == nil {
			unsup("parameter of type %s", t)
		}
		made[path] = r
		return r
	}
	e.havocState(st)
	for i, p := range c.fn.Params {
		in.args = append(in.args, mkv(c.params[i], p.Type()))
	}
	env := e.specEnv(st, c, in.args)
	for _, r := range c.req {
		st.c.Assume(st.c.N(env.T(r)))
	}
	if part != "" {
		n, _ := strconv.Atoi(part)
		for i, x := range c.split {
			if t := st.c.N(env.T(x)); i == n {
				st.c.Assume(t)
				break
			} else {
				st.c.Assume(st.c.N(Not(t)))
			}
		}
	}
	return in
}

// ---- verification of one function against its contract ----

func (v *Verifier) verify(c *Contract) *FnResult {
	if r, ok := v.results[c]; ok {
		return r
	}
	r := &FnResult{c: c, hits: map[string]int{}, inlined: map[string]bool{}, models: map[string]bool{}, used: map[string]bool{}, loops: map[string]bool{}, assumed: map[string]bool{}}
	if c.fn == nil {
		r.unsup = "function not found"
		v.results[c] = r
		return r
	}
	v.busy[c] = true
	t0 := time.Now()
	q0 := v.slv.queries
	for _, va := range c.variants() {
		if v.onlyPart == "" || strings.HasSuffix(va, "#"+v.onlyPart) || c != v.target {
			v.verifyVariant(r, c, va)
		}
	}
	if c != v.target || v.onlyPart == "" {
		r.vacuity()
	}
	r.dt = time.Since(t0)
	r.queries = v.slv.queries - q0
	delete(v.busy, c)
	v.results[c] = r
	return r
}

// vacuity: every case of the contract is reached.
func (r *FnResult) vacuity() {
	if r.unsup == "" {
		for _, k := range r.c.cases {
			if r.hits[k.name] == 0 {
				r.unsup = "vacuous: no execution reaches case " + k.name
			}
		}
	}
}

// variants: the shapes of input to verify, each split into the parts of the case distinction.
func (c *Contract) variants() []string {
	vars := c.vars
	if len(vars) == 0 {
		vars = []string{"distinct"}
	}
	if len(c.split) == 0 {
		return vars
	}
	var out []string
	for _, va := range vars {
		for i := 0; i <= len(c.split); i++ {
			out = append(out, fmt.Sprintf("%s#%d", va, i))
		}
	}
	return out
}

func (v *Verifier) verifyVariant(r *FnResult, c *Contract, variant string) {
	e := v.newEng()
	defer func() {
		for k := range e.inlined {
			r.inlined[k] = true
		}
		for k := range e.usedModel {
			r.models[k] = true
		}
		for k := range e.usedCont {
			r.used[k] = true
		}
		for k := range e.loopNotes {
			r.loops[k] = true
		}
		for k := range e.assumed {
			r.assumed[k] = true
		}
		if x := recover(); x != nil {
			if u, ok := x.(Unsupported); ok {
				if u.hidden && r.hidden == "" {
					r.hidden = u.msg
					props := []string{"C21"}
					for _, k := range c.cases {
						props = union(props, k.props)
						for _, p := range k.rprops {
							props = union(props, p)
						}
					}
					r.obs = append(r.obs, &Ob{id: c.name + "/" + variant + "/history", props: props, detail: u.msg})
				}
				if r.unsup == "" {
					r.unsup = u.msg
				}
				return
			}
			if os.Getenv("GOVER_PANIC") != "" {
				panic(x)
			}
			if r.unsup == "" {
				r.unsup = fmt.Sprintf("internal: %v", x)
			}
		}
	}()
	if v.initErr != "" {
		unsup("package initialisation: %s", v.initErr)
	}
	e.useC = func(fn *ssa.Function) *Contract {
		for _, d := range v.spec.contracts {
			if d.fn != fn {
				continue
			}
			if v.busy[d] {
				if d == c {
					return d // recursion: the contract under verification
				}
				return nil
			}
			if ok, known := v.status[d.name]; known {
				if ok {
					return d
				}
				return nil
			}
			if v.verify(d).proved() {
				return d
			}
			return nil
		}
		return nil
	}
	in := v.input(e, c, variant)
	if in.st.c.dead || !in.st.c.Feasible() {
		unsup("vacuous: the precondition of %s is unsatisfiable", c.name)
	}
	pre := in.st.clone()
	args := in.args
	outs := e.exec(c.fn, args, nil, in.st)
	n := 0
	for _, o := range outs {
		if os.Getenv("GOVER_O") != "" {
			fmt.Println("outcome", o.kind, o.msg, o.pos, "dead", o.st.c.dead, "rfail", o.st.rfail)
			e.dbg(&item{st: o.st}, 0)
		}
		if o.st.c.dead {
			continue
		}
		if !o.st.c.Feasible() {
			continue
		}
		n++
		v.checkOutcome(r, e, c, variant, pre, args, in, o, n)
	}
	r.outcomes += n
	if n == 0 {
		unsup("%s has no outcome", c.name)
	}
}

func (v *Verifier) checkOutcome(r *FnResult, e *Eng, c *Contract, variant string, pre *State, args []Value, in *Input, o Outcome, n int) {
	rest := o.st.c.clone()
	for _, k := range c.cases {
		if rest.dead {
			return
		}
		mkst := func(cx *Ctx) *State { // pre-state heap, path condition of the outcome
			s := *pre
			s.c = cx
			return &s
		}
		cx := rest
		env := e.specEnv(mkst(cx), c, args)
		env.rf = o.st.rfail
		if k.when != nil {
			w := cx.N(env.T(k.when))
			if w == False || cx.Prove(Not(w)) {
				continue
			}
			cx = rest.clone()
			cx.Assume(w)
			if w != True {
				rest.Assume(Not(w))
			} else {
				rest = newCtx(nil)
				rest.dead = true
			}
			if cx.dead || !cx.Feasible() {
				continue
			}
		} else {
			if !cx.Feasible() {
				return
			}
		}
		r.hits[k.name]++
		v.checkCase(r, e, c, k, variant, mkst(cx), args, in, o, n)
		if k.when == nil {
			return
		}
	}
}

func (v *Verifier) checkCase(r *FnResult, e *Eng, c *Contract, k *Case, variant string, pre *State, args []Value, in *Input, o Outcome, n int) {
	cx := pre.c
	id := func(what string) string { return fmt.Sprintf("%s/%s/%s/path%d/%s", c.name, variant, k.name, n, what) }
	fail := func(props []string, what, detail string, goal *Term) {
		if cx.Infeasible() {
			r.obs = append(r.obs, &Ob{id: id(what), props: props, ok: true, how: "infeasible path (" + v.slv.last + ")"})
			return
		}
		if os.Getenv("GOVER_F") != "" {
			fmt.Println("FAIL", id(what), goal)
			e.dbg(&item{st: &State{c: cx}}, 0)
		}
		ob := &Ob{id: id(what), props: props, detail: detail}
		if goal != nil {
			ob.goal = trunc(goal.String(), 2000)
		}
		r.cands = append(r.cands, v.model(cx, goal, in)...)
		r.obs = append(r.obs, ob)
	}
	prove := func(props []string, what string, goal *Term) *Ob {
		goal = cx.N(goal)
		q := v.slv.queries
		ob := &Ob{id: id(what), props: props, how: "normaliser"}
		if !cx.Prove(goal) && !cx.proveBits(goal) {
			fail(props, what, "not provable at "+o.pos, goal)
			return r.obs[len(r.obs)-1]
		}
		if v.slv.queries > q {
			ob.how = v.slv.last
		}
		ob.ok = true
		r.obs = append(r.obs, ob)
		return ob
	}
	pass := func(props []string, what string) {
		r.obs = append(r.obs, &Ob{id: id(what), props: props, ok: true, how: "execution"})
	}
	if k.any {
		pass(k.props, "anything")
		return
	}
	// no panic, no exit
	if k.nokey {
		switch {
		case o.kind == "panic":
			pass(k.props, "no-key")
			return
		case o.kind == "exit":
			fail(k.props, "no-exit", o.msg+" at "+o.pos, nil)
			return
		}
		if p, ok := o.vals[0].(VPtr); ok && p.obj == 0 {
			pass(k.props, "no-key")
		} else {
			fail(k.props, "no-key", "a result is returned", nil)
		}
		return
	}
	if o.kind != "ret" {
		fail(k.props, "no-"+o.kind, o.msg+" at "+o.pos, nil)
		return
	}
	pass(k.props, "returns")
	st := &State{heap: o.st.heap, c: cx, draws: o.st.draws, rfail: o.st.rfail, io: o.st.io}
	env := e.specEnv(pre, c, args)
	env.rf = o.st.rfail
	if ch := k.choose; ch != nil {
		cand := v.chosen(e, st, env, ch, o, k)
		if cand == nil {
			fail(k.props, "drawn", "the result is not a number drawn from the random source with the required bound", nil)
			return
		}
		env = env.with(ch.name, SV{v: cand})
		pass(k.props, "drawn")
		if ch.kind == "bits" {
			// uniform: no draw is thrown away because of its value
			if v.thrownAway(st, o, cand) {
				fail(k.props, "drawn-uniformly", "an earlier draw is discarded depending on its value", nil)
			} else {
				pass(k.props, "drawn-uniformly")
			}
		}
		if ch.such != nil {
			prove(k.props, "drawn-range", env.T(ch.such))
		}
	}
	for _, l := range k.lets {
		env = env.with(l.name, SV{v: env.T(l.e)})
	}
	for i, x := range k.rets {
		props := k.props
		if p, ok := k.rprops[i]; ok {
			props = p
		}
		v.compare(e, st, env, o.vals[i], x, c.fn.Signature.Results().At(i).Type(), fmt.Sprintf("result%d", i), props, k.props, prove, fail, pass)
	}
	// frame
	if c.lemma {
		return
	}
	if len(e.mutSorted) > 0 {
		keep := e.kept(o.st)
		for _, x := range o.vals {
			if b, ok := x.(VSlice); ok && b.obj > 0 && keep[b.obj] && !st.obj(b.obj).pre {
				fail([]string{"C21"}, "kept", "package state keeps a reference to the result", nil)
			}
			p, ok := x.(VPtr)
			if !ok || p.obj == 0 {
				continue
			}
			bad := keep[p.obj] && !st.obj(p.obj).pre
			if s, ok := st.obj(p.obj).v.(*VStruct); ok {
				for _, f := range s.f {
					if q, ok := f.(VPtr); ok && q.obj != 0 && st.obj(q.obj).kind == "big" && keep[q.obj] && !st.obj(q.obj).pre {
						bad = true
					}
				}
			}
			if bad {
				fail([]string{"C21"}, "kept", "package state keeps a reference to the result", nil)
			}
		}
	}
	var ids []int
	for _, b := range o.st.heap {
		// an object that package state refers to may be anyone's
		if b.birth != nil && b.birth != b {
			if g, eq := v.objEq(e, st, b.birth, b); !eq || (g != True && !cx.Prove(g)) {
				fail([]string{"C21"}, "frame:"+b.label, "an object that package variable "+b.label+" refers to is changed", g)
			}
		}
	}
	for i := range pre.heap {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	changedLib, changedArg := 0, 0
	for _, i := range ids {
		a, b := pre.heap[i], o.st.heap[i]
		if a == b || b == nil || a.scratch {
			continue
		}
		g, eq := v.objEq(e, st, a, b)
		lib := false
		for root := range libVars {
			if a.label == root || strings.HasPrefix(a.label, root+".") || strings.HasPrefix(a.label, root+"[") {
				lib = true
			}
		}
		if eq && (g == True || cx.Prove(g)) {
			continue
		}
		if lib {
			changedLib++
			fail([]string{"C21"}, "frame:"+a.label, "library state "+a.label+" is changed", g)
			r.obs[len(r.obs)-1].inv = true
		} else {
			changedArg++
			fail([]string{"C21"}, "frame:"+a.label, "argument "+a.label+" is changed", g)
		}
	}
	if changedLib == 0 {
		r.obs = append(r.obs, &Ob{id: id("frame:library"), props: []string{"C21"}, ok: true, how: "execution", inv: true})
	}
	if changedArg == 0 {
		pass([]string{"C21"}, "frame:arguments")
	}
	if len(o.st.io) > 0 {
		fail([]string{"C21"}, "no-output", "writes to "+strings.Join(o.st.io, ", "), nil)
	} else {
		pass([]string{"C21"}, "no-output")
	}
}

func (v *Verifier) objEq(e *Eng, st *State, a, b *Obj) (*Term, bool) {
	c := st.c
	if a.kind != b.kind {
		la, lb := e.asListAny(st, a), e.asListAny(st, b)
		if la != nil && lb != nil {
			return c.EqList(la, lb), true
		}
		return nil, false
	}
	switch a.kind {
	case "big":
		return c.EqInt(c.N(a.t), c.N(b.t)), true
	case "bytes":
		return c.EqSeq(c.N(a.t), c.N(b.t)), true
	case "list":
		return c.EqList(c.N(a.t), c.N(b.t)), true
	case "cell":
		return e.sameValue(st, a.v, b.v)
	case "arr":
		if len(a.arr) != len(b.arr) {
			return nil, false
		}
		g := True
		for i := range a.arr {
			if sameVal(a.arr[i], b.arr[i]) {
				continue
			}
			t, ok := e.sameValue(st, a.arr[i], b.arr[i])
			if !ok {
				return nil, false
			}
			g = And(g, t)
		}
		return g, true
	}
	return nil, false
}

func (e *Eng) asListAny(st *State, o *Obj) *Term {
	if o.kind == "list" {
		return st.c.N(o.t)
	}
	if o.kind == "arr" {
		return e.asList(st, o)
	}
	return nil
}

func (e *Eng) sameValue(st *State, a, b Value) (*Term, bool) {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return st.c.Eq(st.c.N(x), st.c.N(y)), true
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok && len(x.f) == len(y.f) {
			g := True
			for i := range x.f {
				t, ok := e.sameValue(st, x.f[i], y.f[i])
				if !ok {
					return nil, false
				}
				g = And(g, t)
			}
			return g, true
		}
	default:
		if sameVal(a, b) {
			return True, true
		}
	}
	return nil, false
}

// chosen finds the draw a result was made from.
// thrownAway: a draw other than the chosen one decided that this path is taken.
func (v *Verifier) thrownAway(st *State, o Outcome, cand *Term) bool {
	for _, d := range o.st.draws {
		if d.lost {
			return true
		}
		if n := st.c.N(d.v); occurs(n, cand) || occurs(d.v, cand) {
			continue
		}
		for _, p := range st.c.pc {
			// what the draw's own contract says about it
			if !occursValue(d.v, p) {
				continue
			}
			if !d.bytes && (p == Le(zero, d.v) || p == Lt(d.v, d.bound) || p == st.c.N(Lt(d.v, d.bound)) || p == st.c.N(Le(zero, d.v))) {
				continue
			}
			return true
		}
	}
	return false
}

// occursValue: d occurs in t other than as len(d).
func occursValue(d, t *Term) bool {
	if t == d {
		return true
	}
	if t.op == "len" && t.args[0] == d || !occurs(d, t) {
		return false
	}
	for _, a := range t.args {
		if occursValue(d, a) {
			return true
		}
	}
	return len(t.args) == 0
}

func (v *Verifier) chosen(e *Eng, st *State, env *Env, ch *Choose, o Outcome, k *Case) *Term {
	c := st.c
	var cands []*Term
	for _, d := range o.st.draws {
		if d.lost {
			continue
		}
		if ch.kind == "key" {
			if d.bytes {
				n := c.Len(d.v)
				if c.Prove(Le(Int(32), n)) {
					cands = append(cands, c.Val(256, c.N(d.v)))
				}
			} else if c.Prove(Le(BigT(pow(2, 255)), d.bound)) {
				cands = append(cands, c.N(d.v), Add(c.N(d.v), one))
			}
		} else {
			L := env.constInt(ch.nbits)
			if d.bytes {
				if c.Prove(c.EqInt(c.Len(c.N(d.v)), Int(L/8))) {
					cands = append(cands, c.Val(256, c.N(d.v)))
				}
			} else if c.Prove(c.EqInt(c.N(d.bound), BigT(pow(2, L)))) {
				cands = append(cands, c.N(d.v))
			}
		}
	}
	if len(cands) == 0 {
		return nil
	}
	if ch.kind == "bits" {
		return cands[len(cands)-1]
	}
	// the key: the number in the result
	if p, ok := o.vals[0].(VPtr); ok && p.obj != 0 {
		if s, ok := st.obj(p.obj).v.(*VStruct); ok && len(s.f) > 0 {
			if q, ok := s.f[0].(VPtr); ok && q.obj != 0 && st.obj(q.obj).kind == "big" {
				t := c.N(st.obj(q.obj).t)
				for _, x := range cands {
					if c.Prove(c.EqInt(t, x)) {
						return x
					}
				}
			}
		}
	}
	return nil
}

func (v *Verifier) compare(e *Eng, st *State, env *Env, got Value, x ast.Expr, t types.Type, what string, props, cprops []string,
	prove func([]string, string, *Term) *Ob, fail func([]string, string, string, *Term), pass func([]string, string)) {
	if id, ok := x.(*ast.Ident); ok {
		switch id.Name {
		case "nil":
			ok := false
			switch y := got.(type) {
			case VPtr:
				ok = y.obj == 0
			case VSlice:
				ok = y.obj == 0 || st.c.Prove(st.c.EqInt(y.ln, zero))
			case VIface:
				ok = y.kind == ""
			}
			if ok {
				pass(cprops, what+"=nil")
			} else {
				fail(cprops, what+"=nil", "the result is not nil", nil)
			}
			return
		case "err":
			if y, ok := got.(VIface); ok && y.kind != "" {
				pass(cprops, what+"=err")
			} else {
				fail(cprops, what+"=err", "no error is returned", nil)
			}
			return
		}
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
		p, ok := got.(VPtr)
		if !ok || p.obj == 0 {
			fail(cprops, what, "the result is nil", nil)
			return
		}
		ro := st.obj(p.obj)
		if ro.pre {
			fail([]string{"C21"}, what+":fresh", "the result is an argument or library object", nil)
		} else {
			pass([]string{"C21"}, what+":fresh")
		}
		pt := t.Underlying().(*types.Pointer).Elem()
		s := pt.Underlying().(*types.Struct)
		val, ok := e.load(st, p, pt).(*VStruct)
		if !ok {
			unsup("result object")
		}
		for _, el := range u.X.(*ast.CompositeLit).Elts {
			kv := el.(*ast.KeyValueExpr)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == kv.Key.(*ast.Ident).Name {
					v.compare(e, st, env, val.f[i], kv.Value, s.Field(i).Type(), what+"."+s.Field(i).Name(), props, cprops, prove, fail, pass)
				}
			}
		}
		return
	}
	want := env.eval(x)
	switch y := got.(type) {
	case VPtr:
		if y.obj == 0 {
			fail(props, what, "is nil", nil)
			return
		}
		ob := st.obj(y.obj)
		if ob.kind == "big" {
			if ob.pre {
				fail([]string{"C21"}, what+":fresh", "shares memory with "+ob.label, nil)
			} else {
				pass([]string{"C21"}, what+":fresh")
			}
			prove(props, what, st.c.EqInt(st.c.N(ob.t), env.term(want)))
			return
		}
		w, ok := want.v.(VPtr)
		if !ok {
			unsup("comparison of results")
		}
		if w == y {
			pass(props, what)
			return
		}
		prove(props, what, e.deepEq(&State{heap: mergeHeaps(st.heap, env.st.heap), c: st.c}, y, w, t))
	case VSlice:
		prove(props, what, st.c.Eq(e.bytesOf(st, y), env.term(want)))
		if y.obj != 0 && st.obj(y.obj).pre {
			fail([]string{"C21"}, what+":fresh", "shares memory with "+st.obj(y.obj).label, nil)
		}
	case *Term:
		prove(props, what, st.c.Eq(st.c.N(y), env.term(want)))
	default:
		unsup("result %T", got)
	}
}

// mergeHeaps: the post-state objects, and pre-state objects that no longer exist.
func mergeHeaps(a, b map[int]*Obj) map[int]*Obj {
	m := make(map[int]*Obj, len(a))
	for k, v := range b {
		m[k] = v
	}
	for k, v := range a {
		m[k] = v
	}
	return m
}

func stepLimit(n int) int {
	if s := os.Getenv("GOVER_STEPS"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}
