package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- contracts ----

type Contract struct {
	name    string
	fn      *ssa.Function
	params  []string
	vars    []string   // input variants
	split   []ast.Expr // case distinction over the inputs (and the rest), to prove the parts separately
	req     []ast.Expr
	reqSrc  []string
	cases   []*Case
	lemma   bool
	trusted bool
}

type Case struct {
	name    string
	props   []string
	rprops  map[int][]string
	when    ast.Expr // nil: otherwise
	whenSrc string
	choose  *Choose
	lets    []letDef
	rets    []ast.Expr
	retSrc  string
	nokey   bool // a panic, or a nil first result
	any     bool // any return is fine (lemma preconditions)
}

type letDef struct {
	name string
	e    ast.Expr
}

type Choose struct {
	name  string
	kind  string // "key": a draw bounded by >= 2^255; "bits": uniform bits
	nbits ast.Expr
	such  ast.Expr
}

type Define struct {
	params []string
	body   ast.Expr
}

type Spec struct {
	defs      map[string]*Define
	contracts []*Contract
	byName    map[string]*Contract
	pkg       *ssa.Package
}

func parseExpr(src string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("contract expression %q: %v", src, err))
	}
	return e
}

var reFunc = regexp.MustCompile(`^(func|lemma) (\S+?)\(([^)]*)\)$`)
var reCase = regexp.MustCompile(`^case (\S+) \[([^\]]*)\]$`)
var reDef = regexp.MustCompile(`^define (\w+)\(([^)]*)\) = (.*)$`)
var reChoose = regexp.MustCompile(`^choose (\w+) = (drawnkey|drawnbits)\((.*?)\)( such that (.*))?$`)

func splitComma(s string) []string {
	var o []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			o = append(o, x)
		}
	}
	return o
}

func parseSpec(file string) *Spec {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	sp := &Spec{defs: map[string]*Define{}, byName: map[string]*Contract{}}
	// physical lines -> logical lines (a trailing backslash continues), then for-blocks
	var lines []string
	cur := ""
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if strings.HasSuffix(l, "\\") {
			cur += strings.TrimSuffix(l, "\\") + " "
			continue
		}
		l = strings.TrimSpace(cur + l)
		cur = ""
		if l != "" {
			lines = append(lines, l)
		}
	}
	var out []string
	for i := 0; i < len(lines); i++ {
		if m := regexp.MustCompile(`^for (\w+) in (.*) \{$`).FindStringSubmatch(lines[i]); m != nil {
			j := i + 1
			for lines[j] != "}" {
				j++
			}
			for _, v := range splitComma(m[2]) {
				for _, l := range lines[i+1 : j] {
					out = append(out, strings.ReplaceAll(l, "$"+m[1], v))
				}
			}
			i = j
			continue
		}
		out = append(out, lines[i])
	}
	var c *Contract
	var k *Case
	for _, l := range out {
		switch {
		case strings.HasPrefix(l, "define "):
			m := reDef.FindStringSubmatch(l)
			if m == nil {
				panic("bad define: " + l)
			}
			sp.defs[m[1]] = &Define{splitComma(m[2]), parseExpr(m[3])}
		case strings.HasPrefix(l, "func "), strings.HasPrefix(l, "lemma "):
			m := reFunc.FindStringSubmatch(l)
			if m == nil {
				panic("bad func: " + l)
			}
			k = nil
			c = &Contract{name: m[2], params: splitComma(m[3]), lemma: m[1] == "lemma"}
			sp.contracts = append(sp.contracts, c)
			sp.byName[c.name] = c
		case strings.HasPrefix(l, "variants "):
			c.vars = splitComma(strings.TrimPrefix(l, "variants "))
		case strings.HasPrefix(l, "split "):
			for _, x := range strings.Split(strings.TrimPrefix(l, "split "), ";") {
				c.split = append(c.split, parseExpr(x))
			}
		case strings.HasPrefix(l, "requires "):
			s := strings.TrimPrefix(l, "requires ")
			c.req = append(c.req, parseExpr(s))
			c.reqSrc = append(c.reqSrc, s)
		case strings.HasPrefix(l, "case "):
			m := reCase.FindStringSubmatch(l)
			if m == nil {
				panic("bad case: " + l)
			}
			k = &Case{name: m[1], rprops: map[int][]string{}}
			for _, p := range strings.Split(m[2], ";") {
				p = strings.TrimSpace(p)
				if strings.HasPrefix(p, "r") {
					i := strings.IndexByte(p, ':')
					n, _ := strconv.Atoi(p[1:i])
					k.rprops[n] = splitComma(p[i+1:])
				} else {
					k.props = splitComma(p)
				}
			}
			c.cases = append(c.cases, k)
		case strings.HasPrefix(l, "when "):
			k.whenSrc = strings.TrimPrefix(l, "when ")
			k.when = parseExpr(k.whenSrc)
		case l == "otherwise":
			k.whenSrc = "otherwise"
		case strings.HasPrefix(l, "let "):
			i := strings.Index(l, "=")
			k.lets = append(k.lets, letDef{strings.TrimSpace(l[4:i]), parseExpr(l[i+1:])})
		case strings.HasPrefix(l, "choose "):
			m := reChoose.FindStringSubmatch(l)
			if m == nil {
				panic("bad choose: " + l)
			}
			k.choose = &Choose{name: m[1], kind: strings.TrimPrefix(m[2], "drawn")}
			if m[3] != "" {
				k.choose.nbits = parseExpr(m[3])
			}
			if m[5] != "" {
				k.choose.such = parseExpr(m[5])
			}
		case strings.HasPrefix(l, "returns "):
			k.retSrc = strings.TrimPrefix(l, "returns ")
			e := parseExpr("f(" + k.retSrc + ")").(*ast.CallExpr)
			k.rets = e.Args
		case l == "nokey":
			k.nokey = true
		case l == "anything":
			k.any = true
		default:
			panic("bad contract line: " + l)
		}
	}
	return sp
}

// bind attaches the contracts to the functions of the program.
func (sp *Spec) bind(pkg *ssa.Package) (missing []string) {
	sp.pkg = pkg
	for _, c := range sp.contracts {
		c.fn = findFunc(pkg, c.name)
		if c.fn == nil {
			missing = append(missing, c.name)
		} else if len(c.fn.Params) != len(c.params) {
			missing = append(missing, c.name+" (parameters)")
			c.fn = nil
		}
	}
	return
}

func findFunc(pkg *ssa.Package, name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := pkg.Pkg.Scope().Lookup(name[:i])
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := pkg.Prog.MethodSets.MethodSet(ty)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == name[i+1:] {
					f := pkg.Prog.FuncValue(ms.At(j).Obj().(*types.Func))
					return f
				}
			}
		}
		return nil
	}
	return pkg.Func(name)
}

// ---- evaluation ----

type SV struct {
	v Value
	t types.Type
}

type Env struct {
	e    *Eng
	st   *State // the state in which pointers are read (the pre-state heap)
	vars map[string]SV
	sp   *Spec
	rf   *Term // randfail
}

func (v *Env) with(n string, x SV) *Env {
	m := make(map[string]SV, len(v.vars)+1)
	for k, y := range v.vars {
		m[k] = y
	}
	m[n] = x
	return &Env{v.e, v.st, m, v.sp, v.rf}
}

func (v *Env) c() *Ctx { return v.st.c }

// term converts a value to its logical content.
func (v *Env) term(x SV) *Term {
	switch y := x.v.(type) {
	case *Term:
		return v.c().N(y)
	case VPtr:
		if y.obj == 0 {
			panic("contract: value of a nil pointer")
		}
		o := v.st.obj(y.obj)
		if o.kind == "big" {
			return v.c().N(o.t)
		}
	case VSlice:
		if s, ok := x.t.Underlying().(*types.Slice); ok && isStr(s.Elem()) {
			return v.e.listOf(v.st, y)
		}
		return v.e.bytesOf(v.st, y)
	}
	panic(fmt.Sprintf("contract: no logical content of %T", x.v))
}

func (v *Env) T(x ast.Expr) *Term { return v.term(v.eval(x)) }

func (v *Env) constInt(x ast.Expr) int64 {
	t := v.T(x)
	n, ok := t.int64()
	if !ok {
		panic(fmt.Sprintf("contract: %s is not a constant", t))
	}
	return n
}

func (v *Env) eval(x ast.Expr) SV {
	c := v.c()
	tm := func(t *Term) SV { return SV{v: t} }
	switch x := x.(type) {
	case *ast.ParenExpr:
		return v.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(x.Value, 0)
			return tm(BigT(n))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return tm(Lit(s))
		}
	case *ast.Ident:
		if y, ok := v.vars[x.Name]; ok {
			return y
		}
		switch x.Name {
		case "N":
			return tm(ecNT)
		case "P":
			return tm(ecPT)
		case "true":
			return tm(True)
		case "false":
			return tm(False)
		case "nil":
			return SV{v: nilPtr}
		case "randfail":
			return tm(v.rf)
		}
		if d, ok := v.sp.defs[x.Name]; ok && len(d.params) == 0 {
			return v.eval(d.body)
		}
		panic("contract: unknown name " + x.Name)
	case *ast.SelectorExpr:
		b := v.eval(x.X)
		p, ok := b.v.(VPtr)
		if !ok || p.obj == 0 {
			panic("contract: selector on " + fmt.Sprintf("%T", b.v))
		}
		st := b.t.Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == x.Sel.Name {
				val := v.e.load(v.st, p, st).(*VStruct)
				return SV{val.f[i], s.Field(i).Type()}
			}
		}
		panic("contract: no field " + x.Sel.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return tm(Not(v.T(x.X)))
		case token.SUB:
			return tm(Neg(v.T(x.X)))
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a := v.T(x.X)
			if a == False {
				return tm(False)
			}
			return tm(And(a, v.T(x.Y)))
		case token.LOR:
			a := v.T(x.X)
			if a == True {
				return tm(True)
			}
			return tm(Or(a, v.T(x.Y)))
		}
		if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
			p, ok := v.eval(x.X).v.(VPtr)
			if !ok {
				panic("contract: comparison with nil")
			}
			return tm(boolT((p.obj == 0) == (x.Op == token.EQL)))
		}
		a, b := v.T(x.X), v.T(x.Y)
		switch x.Op {
		case token.ADD:
			return tm(Add(a, b))
		case token.SUB:
			return tm(Sub(a, b))
		case token.MUL:
			return tm(Mul(a, b))
		case token.QUO:
			return tm(c.Div(a, b))
		case token.REM:
			return tm(c.Mod(a, b))
		case token.EQL:
			return tm(c.Eq(a, b))
		case token.NEQ:
			return tm(Not(c.Eq(a, b)))
		case token.LSS:
			return tm(c.Lt(a, b))
		case token.LEQ:
			return tm(c.Le(a, b))
		case token.GTR:
			return tm(c.Lt(b, a))
		case token.GEQ:
			return tm(c.Le(b, a))
		}
	case *ast.CallExpr:
		name := x.Fun.(*ast.Ident).Name
		if d, ok := v.sp.defs[name]; ok {
			if len(d.params) != len(x.Args) {
				panic("contract: arguments of " + name)
			}
			m := map[string]SV{}
			for i, p := range d.params {
				m[p] = v.eval(x.Args[i])
			}
			return (&Env{v.e, v.st, m, v.sp, v.rf}).eval(d.body)
		}
		return tm(v.builtin(name, x.Args))
	}
	panic(fmt.Sprintf("contract: expression %T", x))
}

func (v *Env) builtin(name string, a []ast.Expr) *Term {
	c := v.c()
	switch name {
	case "len":
		t := v.T(a[0])
		if t.sort == SList {
			return c.LLen(t)
		}
		return c.Len(t)
	case "val":
		return c.Val(v.constInt(a[0]), v.T(a[1]))
	case "dig":
		return c.Dig(v.constInt(a[0]), v.T(a[1]), v.T(a[2]))
	case "isdig":
		return c.IsDig(v.constInt(a[0]), v.T(a[1]))
	case "cat":
		var o []*Term
		for _, x := range a {
			o = append(o, v.T(x))
		}
		return c.Cat(o...)
	case "slice":
		return c.Slice(v.T(a[0]), v.T(a[1]), v.T(a[2]))
	case "at":
		return c.At(v.T(a[0]), v.T(a[1]))
	case "sha256", "ripemd160", "b58enc", "b58dec":
		return c.App(name, SSeq, v.T(a[0]))
	case "tolower":
		return c.App("tolower", SSeq, v.T(a[0]))
	case "isb58":
		return c.App("isb58", SBool, v.T(a[0]))
	case "split":
		return c.App("split", SList, v.T(a[0]), v.T(a[1]))
	case "elem":
		return c.Elem(v.T(a[0]), v.T(a[1]))
	case "indexof":
		return c.App("indexof", SInt, v.T(a[0]), v.T(a[1]))
	case "pbkdf2_sha512":
		return c.App("pbkdf2", SSeq, v.T(a[0]), v.T(a[1]), v.T(a[2]), v.T(a[3]), Lit("crypto/sha512.New"))
	case "distinct":
		return UF("distinctlist", SBool, v.T(a[0]))
	case "nospace":
		return UF("nospace", SBool, v.T(a[0]))
	case "nonempty":
		return UF("nonempty", SBool, v.T(a[0]))
	case "mulx", "muly":
		return c.App(name, SInt, v.T(a[0]))
	case "addx", "addy":
		return c.App(name, SInt, v.T(a[0]), v.T(a[1]), v.T(a[2]), v.T(a[3]))
	case "oncurve":
		x, y := v.T(a[0]), v.T(a[1])
		return And(Le(zero, x), Lt(x, ecPT), Le(zero, y), Lt(y, ecPT), ecOn(c, x, y))
	case "root":
		return ecRoot(c, v.T(a[0]))
	case "ite":
		b := v.T(a[0])
		return c.Ite(c.N(b), v.T(a[1]), v.T(a[2]))
	case "imp":
		return Implies(v.T(a[0]), v.T(a[1]))
	case "iff":
		return Iff(v.T(a[0]), v.T(a[1]))
	case "allfor":
		n := v.constInt(a[1])
		var o []*Term
		for i := int64(0); i < n; i++ {
			o = append(o, v.with(a[0].(*ast.Ident).Name, SV{v: Int(i)}).T(a[2]))
		}
		return And(o...)
	case "catfor":
		n := v.constInt(a[1])
		var o []*Term
		for i := int64(0); i < n; i++ {
			o = append(o, v.with(a[0].(*ast.Ident).Name, SV{v: Int(i)}).T(a[2]))
		}
		return c.Cat(o...)
	case "joinfor":
		n := v.constInt(a[1])
		var o []*Term
		for i := int64(0); i < n; i++ {
			o = append(o, v.with(a[0].(*ast.Ident).Name, SV{v: Int(i)}).T(a[2]))
		}
		return c.App("join", SSeq, mk("mklist", SList, nil, "", o...), Lit(" "))
	case "samenet":
		x, y := v.eval(a[0]), v.eval(a[1])
		return v.e.deepEq(v.st, x.v, y.v, x.t)
	}
	panic("contract: unknown function " + name)
}

// ---- use mode: a call is replaced by its contract ----

func (e *Eng) specEnv(st *State, c *Contract, args []Value) *Env {
	m := map[string]SV{}
	for i, p := range c.params {
		m[p] = SV{args[i], c.fn.Params[i].Type()}
	}
	return &Env{e, st, m, e.spec, st.rfail}
}

// build makes a value from a return template.
func (v *Env) build(x ast.Expr, t types.Type) Value {
	if id, ok := x.(*ast.Ident); ok {
		switch id.Name {
		case "nil":
			return v.e.zeroVal(t)
		case "err":
			return errV
		}
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
		cl := u.X.(*ast.CompositeLit)
		st := t.Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		val := v.e.zeroVal(st).(*VStruct)
		for _, el := range cl.Elts {
			kv := el.(*ast.KeyValueExpr)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == kv.Key.(*ast.Ident).Name {
					val.f[i] = v.build(kv.Value, s.Field(i).Type())
				}
			}
		}
		return VPtr{obj: v.e.newObj(v.st, &Obj{kind: "cell", v: val})}
	}
	y := v.eval(x)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if isBigInt(p.Elem()) {
			return v.e.newBig(v.st, v.term(y))
		}
		return y.v
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if isByte(s.Elem()) {
			return v.e.newBytes(v.st, v.term(y))
		}
		return (&MC{e: v.e, st: v.st}).newList(v.term(y))
	}
	return v.term(y)
}

func (e *Eng) applyContract(st *State, c *Contract, args []Value, x *ssa.Call) []Outcome {
	e.havocState(st)
	pos := ""
	if x != nil {
		pos = e.pos(x.Pos())
	}
	var outs []Outcome
	rest := st
	cond := False // some earlier case applies
	var rfv *Term
	for _, k := range c.cases {
		if rest.c.dead {
			break
		}
		env := e.specEnv(rest, c, args)
		if rfv == nil {
			rfv = BVar(freshName("randfail"))
		}
		env.rf = rfv
		cur := rest
		if k.when != nil {
			w := rest.c.N(env.T(k.when))
			switch e.decide(rest, w) {
			case -1:
				continue
			case 1:
				rest = nil
			default:
				e.pathCount++
				cur = rest.clone()
				cur.c.Assume(w)
				rest.c.Assume(Not(w))
			}
			if cur.c.dead {
				if rest == nil {
					break
				}
				continue
			}
		} else {
			rest = nil
		}
		env = e.specEnv(cur, c, args)
		env.rf = rfv
		o := Outcome{st: cur, kind: "ret", pos: pos}
		if k.when != nil && mentions(k.when, "randfail") {
			cur.rfail = Or(cur.rfail, rfv)
		}
		if k.nokey {
			o.kind, o.msg = "panic", c.name+" "+k.name
		} else {
			if ch := k.choose; ch != nil {
				d := IVar(freshName("drawn"))
				cur.c.Assume(Le(zero, d))
				var b *Term
				if ch.kind == "key" {
					b = BigT(pow(2, 256))
				} else {
					b = BigT(pow(2, env.constInt(ch.nbits)))
				}
				cur.c.Assume(Lt(d, b))
				env = env.with(ch.name, SV{v: d})
				if ch.such != nil {
					cur.c.Assume(cur.c.N(env.T(ch.such)))
				}
				cur.draws = append(cur.draws, Draw{v: d, bound: b})
			}
			for _, l := range k.lets {
				env = env.with(l.name, SV{v: env.T(l.e)})
			}
			if k.any {
				// some values of the result types; an error that may be nil gives two outcomes
				sig := c.fn.Signature.Results()
				o2 := Outcome{kind: "ret", pos: pos}
				for i := 0; i < sig.Len(); i++ {
					if t := sig.At(i).Type(); i == sig.Len()-1 && t.String() == "error" {
						o2.vals = append(append([]Value{}, o.vals...), errV)
						o.vals = append(o.vals, nilV)
						continue
					}
					v := e.unknownVal(cur, sig.At(i).Type(), "any")
					if v == nil {
						unsup("result of %s: %s", c.name, k.name)
					}
					o.vals = append(o.vals, v)
				}
				if len(o2.vals) > 0 {
					o2.st = cur.clone()
					outs = append(outs, o2)
				}
			}
			for i, r := range k.rets {
				o.vals = append(o.vals, env.build(r, c.fn.Signature.Results().At(i).Type()))
			}
		}
		outs = append(outs, o)
		if rest == nil {
			break
		}
	}
	_ = cond
	return outs
}

func mentions(x ast.Expr, name string) bool {
	f := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

// reqHolds: the precondition of a call is provable at the call site.
func (e *Eng) reqHolds(st *State, c *Contract, args []Value) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	for i, a := range args {
		if !e.wellFormed(st, a, c.fn.Params[i].Type()) {
			return false
		}
	}
	env := e.specEnv(st, c, args)
	for _, r := range c.req {
		if !st.c.Prove(st.c.N(env.T(r))) {
			return false
		}
	}
	return true
}

// wellFormed: pointers to structures are non-nil (the implicit precondition of every contract).
func (e *Eng) wellFormed(st *State, v Value, t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		q, ok := v.(VPtr)
		if !ok {
			return false
		}
		if isBigInt(p.Elem()) {
			return true
		}
		if q.obj == 0 {
			return false
		}
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			val, ok := e.load(st, q, p.Elem()).(*VStruct)
			if !ok {
				return false
			}
			for i := range val.f {
				if namedIs(p.Elem(), e.pkg.Pkg.Path(), "PrivateKey") && s.Field(i).Name() == "Key" {
					continue
				}
				if f, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && isBigInt(f.Elem()) {
					if val.f[i].(VPtr).obj == 0 {
						return false
					}
				}
				if !e.wellFormed(st, val.f[i], s.Field(i).Type()) {
					return false
				}
			}
		}
	}
	return true
}
