package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---- one contract, in a process of its own ----

type JOb struct {
	Id     string   `json:"id"`
	Props  []string `json:"props"`
	Ok     bool     `json:"ok"`
	How    string   `json:"how,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Goal   string   `json:"goal,omitempty"`
	Inv    bool     `json:"inv,omitempty"`
}

type WRes struct {
	Name    string              `json:"name"`
	Part    string              `json:"part,omitempty"`
	Obs     []JOb               `json:"obs"`
	Unsup   string              `json:"unsup,omitempty"`
	Hits    map[string]int      `json:"hits,omitempty"`
	Secs    float64             `json:"secs"`
	Solver  float64             `json:"solver"`
	Queries int                 `json:"queries"`
	Unknown int                 `json:"unknown"`
	Unsat   map[string]int      `json:"unsat,omitempty"`
	Paths   int                 `json:"paths"`
	Inlined []string            `json:"inlined,omitempty"`
	Models  []string            `json:"models,omitempty"`
	Used    []string            `json:"used,omitempty"`
	Loops   []string            `json:"loops,omitempty"`
	Assumed []string            `json:"assumed,omitempty"`
	Cands   []map[string]string `json:"cands,omitempty"`
	Dict    *Dict               `json:"dict,omitempty"`
	Cases   []string            `json:"cases,omitempty"`
}

type Dict struct {
	Ints    []string            `json:"ints"`
	Strings []string            `json:"strings"`
	Models  []map[string]string `json:"models"`
	Funcs   []string            `json:"funcs"`
}

func keysOf(m map[string]bool) []string { return sortedKeys(m) }

func worker(repo, contracts, name, part, status string, timeout int) {
	slv := newSolver(timeout)
	res := &WRes{Name: name, Part: part}
	defer func() {
		slv.close()
		json.NewEncoder(os.Stdout).Encode(res)
	}()
	t0 := time.Now()
	v, err := newVerifier(repo, contracts, slv)
	if err != nil {
		res.Unsup = "load: " + err.Error()
		return
	}
	if status != "" {
		json.Unmarshal([]byte(status), &v.status)
	}
	if name == "init" {
		v.initObligations(res)
		res.Dict = v.dict()
	} else if r := v.verifyDep(name); r != nil {
		for _, o := range r.obs {
			res.Obs = append(res.Obs, JOb{o.id, o.props, o.ok, o.how, o.detail, o.goal, o.inv})
		}
		res.Unsup, res.Paths = r.unsup, r.outcomes
		res.Inlined, res.Models, res.Loops = keysOf(r.inlined), keysOf(r.models), keysOf(r.loops)
	} else {
		c := v.spec.byName[name]
		if c == nil {
			res.Unsup = "no such contract"
			return
		}
		if c.lemma && v.lemmaErr != "" {
			res.Unsup = "lemma programs do not compile with the package: " + v.lemmaErr
			return
		}
		v.target, v.onlyPart = c, part
		r := v.verify(c)
		for _, o := range r.obs {
			res.Obs = append(res.Obs, JOb{o.id, o.props, o.ok, o.how, o.detail, o.goal, o.inv})
		}
		res.Unsup, res.Hits, res.Paths = r.unsup, r.hits, r.outcomes
		res.Inlined, res.Models, res.Used, res.Loops, res.Assumed = keysOf(r.inlined), keysOf(r.models), keysOf(r.used), keysOf(r.loops), keysOf(r.assumed)
		res.Cands = r.cands
	}
	res.Secs, res.Solver = time.Since(t0).Seconds(), slv.time.Seconds()
	res.Queries, res.Unknown, res.Unsat = slv.queries, slv.unknown, slv.unsat
}

// ---- the state after initialisation: parameters (C22) and word lists (C20, C19) ----

var official = map[string]string{
	"EnglishWordlist":            "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
	"JapaneseWordlist":           "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
	"SpanishWordlist":            "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b",
	"ChineseSimplifiedWordlist":  "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
	"ChineseTraditionalWordlist": "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f",
	"FrenchWordlist":             "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59",
	"ItalianWordlist":            "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2",
	"KoreanWordlist":             "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60",
	"CzechWordlist":              "7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc",
}

func (v *Verifier) initObligations(res *WRes) {
	if v.initErr != "" {
		res.Unsup = "package initialisation: " + v.initErr
		return
	}
	e := v.newEng()
	e.initing = true
	st := v.initSt
	ob := func(id string, ok bool, detail string, props ...string) {
		o := JOb{Id: "init/" + id, Props: props, Ok: ok, How: "execution"}
		if !ok {
			o.Detail = detail
		}
		res.Obs = append(res.Obs, o)
	}
	undecided := func(f string, a ...interface{}) {
		if res.Unsup == "" {
			res.Unsup = fmt.Sprintf(f, a...)
		}
	}
	global := func(n string) (val Value, ok bool) {
		defer func() {
			if x := recover(); x != nil {
				ok = false
			}
		}()
		for g, id := range v.globals {
			if g.Name() == n && g.Pkg == v.pkg {
				return e.load(st, VPtr{obj: id}, deref(g.Type())), true
			}
		}
		return nil, false
	}
	lit := func(x Value) (string, bool) {
		t, ok := x.(*Term)
		if !ok {
			return "", false
		}
		t = st.c.N(t)
		if t.op != "lit" {
			return "", false
		}
		return t.s, true
	}
	// networks
	for n, want := range map[string][2]string{"MainNetwork": {"80", "00"}, "TestNetwork": {"EF", "6F"}} {
		x, ok := global(n)
		p, isp := x.(VPtr)
		if !ok || !isp {
			undecided("variable %s", n)
			continue
		}
		if p.obj == 0 {
			ob(n, false, "is nil", "C22")
			continue
		}
		s, ok := st.obj(p.obj).v.(*VStruct)
		if !ok || len(s.f) != 2 {
			undecided("variable %s", n)
			continue
		}
		for i, f := range []string{"PrivKeyPrefix", "PubKeyHashPrefix"} {
			if got, ok := lit(s.f[i]); ok {
				ob(n+"."+f, strings.ToUpper(got) == want[i], "is "+got+", not "+want[i], "C22")
			} else {
				undecided("%s.%s is not a constant", n, f)
			}
		}
	}
	// curve
	if x, ok := global("secp256k1"); ok {
		want := map[string]*Term{"A": zero, "B": Int(7), "P": ecPT, "N": ecNT, "G.X": BigT(ecGx), "G.Y": BigT(ecGy)}
		var g *ssa.Global
		for k := range v.globals {
			if k.Name() == "secp256k1" {
				g = k
			}
		}
		fields := map[string]Value{}
		collectFields(e, st, "", x, deref(g.Type()), fields)
		for f, w := range want {
			p, ok := fields[f].(VPtr)
			if !ok || p.obj == 0 || st.obj(p.obj).kind != "big" {
				undecided("secp256k1.%s", f)
				continue
			}
			t := st.c.N(st.obj(p.obj).t)
			ob("secp256k1."+f, t == w, fmt.Sprintf("is %s, not %s", t, w), "C22")
		}
	} else {
		undecided("variable secp256k1")
	}
	// word lists
	var names []string
	for n := range official {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x, ok := global(n)
		s, iss := x.(VSlice)
		if !ok || !iss {
			undecided("variable %s", n)
			continue
		}
		var ws []string
		good := true
		if s.obj != 0 {
			l := e.asListAny(st, st.obj(s.obj))
			lo, ok1 := s.off.int64()
			ln, ok2 := s.ln.int64()
			if l == nil || l.op != "mklist" || !ok1 || !ok2 || int(lo+ln) > len(l.args) {
				good = false
			} else {
				for _, a := range l.args[lo : lo+ln] {
					if a.op != "lit" {
						good = false
						break
					}
					ws = append(ws, a.s)
				}
			}
		}
		if !good {
			undecided("%s is not a list of constants", n)
			continue
		}
		h := sha256.Sum256([]byte(strings.Join(ws, "\n") + "\n"))
		got := hex.EncodeToString(h[:])
		ob(n+"/official", got == official[n] && len(ws) == 2048, fmt.Sprintf("%d words, SHA-256 %s, official list %s", len(ws), got, official[n]), "C20")
		seen := map[string]bool{}
		why := ""
		for i, w := range ws {
			if seen[w] || w == "" || strings.Contains(w, " ") {
				why = fmt.Sprintf("word %d, %q, is repeated, empty or contains a space", i, w)
			}
			seen[w] = true
		}
		if len(ws) != 2048 {
			why = fmt.Sprintf("%d words", len(ws))
		}
		ob(n+"/distinct-words", why == "", why, "C19", "C20")
	}
}

// dict: the constants of the code, as candidate inputs.
func (v *Verifier) dict() *Dict {
	d := &Dict{}
	seen := map[string]bool{}
	for f := range ssautil.AllFunctions(v.prog) {
		if f.Pkg != v.pkg || strings.HasPrefix(f.Name(), "lemma") || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.Int:
						if s := c.Value.ExactString(); !seen["i"+s] {
							seen["i"+s] = true
							d.Ints = append(d.Ints, s)
						}
					case constant.String:
						if s := constant.StringVal(c.Value); !seen["s"+s] && len(s) < 400 {
							seen["s"+s] = true
							d.Strings = append(d.Strings, s)
						}
					}
				}
			}
		}
	}
	sort.Strings(d.Ints)
	sort.Strings(d.Strings)
	return d
}

// ---- the check of one property ----

type job struct {
	name, part string
	lemma      bool
	res        *WRes
}

type checker struct {
	repo, verif, prop, tier, dir string
	seed                         int64
	self                         string
	harness                      string
	harnessErr                   string
	limit                        time.Duration
}

func (k *checker) run(j *job, status string, timeout int) *WRes {
	ctx, cancel := context.WithTimeout(context.Background(), k.limit)
	defer cancel()
	c := exec.CommandContext(ctx, k.self, "worker", k.repo, filepath.Join(k.verif, "contracts"), j.name, j.part, status, strconv.Itoa(timeout))
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=3")
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	r := &WRes{}
	if e := json.Unmarshal(out.Bytes(), r); e != nil || r.Name == "" {
		why := fmt.Sprint(err)
		if ctx.Err() != nil {
			why = fmt.Sprintf("no answer within %v", k.limit)
		}
		r = &WRes{Name: j.name, Part: j.part, Unsup: "verifier: " + why + " " + trunc(errb.String(), 400)}
	}
	return r
}

func (r *WRes) proved() bool {
	if r.Unsup != "" || len(r.Obs) == 0 {
		return false
	}
	for _, o := range r.Obs {
		if !o.Ok {
			return false
		}
	}
	return true
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (k *checker) buildHarness() {
	mk := func(access bool) error {
		m := map[string]string{}
		for _, f := range []string{"main.go", "ops.go", "gen.go", "oracle.go", "stat.go"} {
			m[k.repo+"/zz_verif_harness/"+f] = k.verif + "/harness/" + f
		}
		if access {
			m[k.repo+"/zz_verif_harness/access.go"] = k.verif + "/harness/access.go"
			m[k.repo+"/zz_verif_access.go"] = k.verif + "/harness/inpkg.go.txt"
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": m})
		ov := k.dir + "/overlay.json"
		os.WriteFile(ov, b, 0o644)
		c := exec.Command("go", "build", "-overlay", ov, "-o", k.dir+"/harness", "./zz_verif_harness")
		c.Dir = k.repo
		out, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v: %s", err, trunc(string(out), 800))
		}
		return nil
	}
	err := mk(true)
	if err != nil {
		err = mk(false)
	}
	if err != nil {
		k.harnessErr = err.Error()
		return
	}
	k.harness = k.dir + "/harness"
}

type HRes struct {
	Evaluations int             `json:"evaluations"`
	Distinct    int             `json:"distinct"`
	Replay      json.RawMessage `json:"replay"`
	Samples     json.RawMessage `json:"samples"`
	Note        string          `json:"note"`
}

func (k *checker) search(secs float64, workers int, seed int64, d *Dict) *HRes {
	if k.harness == "" {
		return nil
	}
	df := k.dir + fmt.Sprintf("/dict%d.json", seed)
	b, _ := json.Marshal(d)
	os.WriteFile(df, b, 0o644)
	of := k.dir + fmt.Sprintf("/found%d.json", seed)
	c := exec.Command(k.harness, "run", k.prop, fmt.Sprint(seed), fmt.Sprint(secs), df, fmt.Sprint(workers), of)
	c.Env = append(os.Environ(), "TMPDIR="+k.dir)
	c.Run()
	r := &HRes{}
	if b, err := os.ReadFile(of); err == nil {
		json.Unmarshal(b, r)
	}
	return r
}

func (k *checker) check() int {
	t0 := time.Now()
	os.MkdirAll(k.verif+"/evidence", 0o755)
	var hb sync.WaitGroup
	hb.Add(1)
	go func() { defer hb.Done(); k.buildHarness() }()

	sp := parseSpec(k.verif + "/contracts/btc.spec")
	timeout := 5000
	cross, deep := 15.0, 60.0
	k.limit = 280 * time.Second
	if k.tier == "thorough" {
		timeout, cross, deep, k.limit = 30000, 240, 400, 1500*time.Second
	}
	relevant := func(c *Contract) bool {
		if k.prop == "C21" && !c.lemma {
			return true
		}
		for _, x := range c.cases {
			if has(x.props, k.prop) {
				return true
			}
			for _, p := range x.rprops {
				if has(p, k.prop) {
					return true
				}
			}
		}
		return false
	}
	var fns, lemmas []*job
	initJob := &job{name: "init"}
	fns = append(fns, initJob)
	for _, c := range sp.contracts {
		if c.lemma {
			if relevant(c) {
				lemmas = append(lemmas, &job{name: c.name, lemma: true})
			}
			continue
		}
		if n := len(c.split); n > 0 {
			for i := n; i >= 0; i-- {
				p := strconv.Itoa((i + n) % (n + 1))
				fns = append([]*job{{name: c.name, part: p}}, fns...)
			}
		} else {
			fns = append(fns, &job{name: c.name})
		}
	}
	for _, n := range depNames {
		fns = append(fns, &job{name: n})
	}
	// the expensive ones first
	order := func(j *job) int {
		switch {
		case j.part != "":
			n, _ := strconv.Atoi(j.part)
			return -100 + (5-n)%6
		case j.name == "NewMnemonic":
			return -50
		}
		return 0
	}
	sort.SliceStable(fns, func(a, b int) bool { return order(fns[a]) < order(fns[b]) })

	runAll := func(js []*job, status string) {
		sem := make(chan bool, 8)
		var wg sync.WaitGroup
		for _, j := range js {
			wg.Add(1)
			sem <- true
			go func(j *job) {
				defer func() { <-sem; wg.Done() }()
				j.res = k.run(j, status, timeout)
				if !j.res.proved() && j.res.Unknown > 0 && j.res.Secs < 120 {
					// a query was left undecided: once more with more time
					if r := k.run(j, status, timeout*4); r.Unsup == "" || j.res.Unsup != "" {
						j.res = r
					}
				}
			}(j)
		}
		wg.Wait()
	}
	hb.Wait()
	// cross-check of the contracts by execution, meanwhile
	crossCh := make(chan *HRes, 1)
	go func() { crossCh <- k.search(cross, 2, k.seed, &Dict{}) }()
	runAll(fns, "")

	// results per contract
	results := map[string]*WRes{}
	for _, j := range fns {
		r := results[j.name]
		if r == nil {
			c := *j.res
			c.Part = ""
			results[j.name] = &c
			continue
		}
		r.Obs = append(r.Obs, j.res.Obs...)
		if r.Unsup == "" {
			r.Unsup = j.res.Unsup
		}
		for h, n := range j.res.Hits {
			if r.Hits == nil {
				r.Hits = map[string]int{}
			}
			r.Hits[h] += n
		}
		r.Secs += j.res.Secs
		r.Solver += j.res.Solver
		r.Queries += j.res.Queries
		r.Unknown += j.res.Unknown
		r.Paths += j.res.Paths
		for b, n := range j.res.Unsat {
			if r.Unsat == nil {
				r.Unsat = map[string]int{}
			}
			r.Unsat[b] += n
		}
		r.Inlined = union(r.Inlined, j.res.Inlined)
		r.Models = union(r.Models, j.res.Models)
		r.Used = union(r.Used, j.res.Used)
		r.Loops = union(r.Loops, j.res.Loops)
		r.Assumed = union(r.Assumed, j.res.Assumed)
		r.Cands = append(r.Cands, j.res.Cands...)
	}
	for _, c := range sp.contracts {
		if r := results[c.name]; r != nil && r.Unsup == "" {
			for _, x := range c.cases {
				if r.Hits[x.name] == 0 {
					r.Unsup = "vacuous: no execution reaches case " + x.name
				}
			}
		}
	}
	status := map[string]bool{}
	for _, c := range sp.contracts {
		if r := results[c.name]; r != nil {
			status[c.name] = r.proved()
		}
	}
	sb, _ := json.Marshal(status)
	runAll(lemmas, string(sb))
	for _, j := range lemmas {
		results[j.name] = j.res
	}

	// verdict
	var failed []JOb
	var undecided []string
	obs, done := 0, 0
	inv := map[string]bool{} // functions that may change library state
	var invObs, invOk int
	how := map[string]int{}
	dict := &Dict{}
	if initJob.res.Dict != nil {
		dict = initJob.res.Dict
	}
	base := map[string]bool{}
	var perFn []map[string]interface{}
	var solver float64
	queries := 0
	count := func(o JOb) {
		obs++
		if o.Ok {
			done++
			how[strings.SplitN(o.How, " ", 2)[0]]++
		} else {
			failed = append(failed, o)
		}
	}
	var names []string
	for _, c := range sp.contracts {
		names = append(names, c.name)
	}
	names = append(names, "init")
	deps := map[string]bool{} // contracts the relevant ones rest on
	var need func(n string)
	need = func(n string) {
		if r := results[n]; r != nil && !deps[n] {
			deps[n] = true
			for _, u := range r.Used {
				need(u)
			}
		}
	}
	for _, c := range sp.contracts {
		if relevant(c) {
			need(c.name)
		}
	}
	depUsed := map[string]bool{}
	for _, n := range names {
		r := results[n]
		if r == nil {
			continue
		}
		rel := n == "init" && (k.prop == "C20" || k.prop == "C22" || k.prop == "C19")
		if c := sp.byName[n]; c != nil {
			rel = relevant(c)
			for i := range r.Cands {
				dict.Models = append(dict.Models, r.Cands[i])
				dict.Funcs = append(dict.Funcs, n)
			}
		}
		if n == "init" && r.Unsup != "" && strings.HasPrefix(r.Unsup, "package initialisation") {
			undecided = append(undecided, r.Unsup)
		}
		mine, mineOk := 0, 0
		for _, o := range r.Obs {
			if o.Inv {
				invObs++
				if o.Ok {
					invOk++
				} else {
					inv[n] = true
				}
			}
			if has(o.Props, k.prop) && (rel || k.prop == "C21") {
				mine++
				if o.Ok {
					mineOk++
				}
				count(o)
			}
		}
		if c := sp.byName[n]; c != nil && !c.lemma && r.Unsup != "" && !rel {
			inv[n] = true
		}
		if !rel && !deps[n] {
			continue
		}
		if rel && r.Unsup != "" {
			undecided = append(undecided, n+": "+r.Unsup)
		}
		if !rel {
			for _, o := range r.Obs {
				mine++
				if o.Ok {
					mineOk++
				}
			}
		}
		for _, m := range r.Models {
			if ds := depModels[m]; ds != nil {
				for _, n := range ds {
					depUsed[n] = true
				}
				continue
			}
			base["assumed contract of "+m] = true
		}
		for _, m := range r.Assumed {
			base[m] = true
		}
		solver += r.Solver
		queries += r.Queries
		perFn = append(perFn, map[string]interface{}{"function": n, "obligations": mine, "discharged": mineOk, "paths": r.Paths, "inlined": r.Inlined,
			"callee_contracts": r.Used, "loops": r.Loops, "solver_s": round(r.Solver), "wall_s": round(r.Secs), "queries": r.Queries, "undecided": r.Unsup, "dependency": !rel})
	}
	// contracts of the curve arithmetic, verified against the source of its module
	for _, n := range depNames {
		r := results[n]
		if !depUsed[n] || r == nil {
			continue
		}
		good := 0
		for _, o := range r.Obs {
			obs++
			if o.Ok {
				good++
				done++
				how[strings.SplitN(o.How, " ", 2)[0]]++
			}
		}
		if !r.proved() {
			base["assumed contract of "+n] = true
			undecided = append(undecided, n+" is not verified "+r.Unsup)
		}
		for _, m := range r.Models {
			if depModels[m] == nil {
				base["assumed contract of "+m] = true
			}
		}
		base["the points of the curve are a group under chord and tangent addition (associativity)"] = true
		solver += r.Solver
		queries += r.Queries
		perFn = append(perFn, map[string]interface{}{"function": n, "obligations": len(r.Obs), "discharged": good, "paths": r.Paths, "inlined": r.Inlined,
			"solver_s": round(r.Solver), "wall_s": round(r.Secs), "queries": r.Queries, "undecided": r.Unsup, "dependency": true})
	}
	xr := <-crossCh
	var hr *HRes
	if xr != nil && len(xr.Replay) > 0 {
		hr = xr
	}
	if hr == nil && (len(failed) > 0 || len(undecided) > 0 || len(inv) > 0) && k.harness != "" {
		d := deep
		if len(failed) == 0 && len(undecided) == 0 {
			d = deep / 3
		}
		r2 := k.search(d, 8, k.seed+7, dict)
		if r2 != nil {
			if xr != nil {
				r2.Evaluations += xr.Evaluations
				r2.Distinct += xr.Distinct
			}
			xr = r2
			if len(r2.Replay) > 0 {
				hr = r2
			}
		}
	}
	// report
	var assumptions []string
	for b := range base {
		assumptions = append(assumptions, b)
	}
	sort.Strings(assumptions)
	trusted := append([]string{"gover (/verif/engine): symbolic execution of go/ssa, normaliser, loop summaries", "go/ssa (golang.org/x/tools v0.52.0)", "z3 4.13+/cvc5 1.1.2"}, assumptions...)
	level := "proof"
	if len(undecided) > 0 || len(failed) > 0 {
		level = "exploration"
	}
	var invNames []string
	for n := range inv {
		invNames = append(invNames, n)
	}
	sort.Strings(invNames)
	cov := map[string]interface{}{
		"obligations": obs, "discharged": done, "discharged_by": how,
		"checker_cmd":         fmt.Sprintf("bash /verif/check.sh %s %s", k.prop, k.tier),
		"trusted_base":        trusted,
		"functions":           perFn,
		"solver_s":            round(solver),
		"solver_queries":      queries,
		"library_state_frame": map[string]interface{}{"obligations": invObs, "discharged": invOk, "not_established_for": invNames},
	}
	if len(undecided) > 0 {
		cov["undecided"] = undecided
		cov["bounded_stand_in"] = "the property was not proved on this tree; the executions counted below stand in for it (bounded, not a proof)"
	}
	if xr != nil {
		cov["evaluations"] = xr.Evaluations
		cov["distinct_nontrivial"] = xr.Distinct
		cov["rule"] = "executions of the real code compared with an independent reference: boundary, structured, mutated and random inputs in random histories; distinct by operation and arguments, operations of this property only"
		if len(xr.Samples) > 0 {
			cov["samples"] = xr.Samples
		}
		if xr.Note != "" {
			cov["note"] = xr.Note
		}
	}
	if k.harnessErr != "" {
		cov["harness_error"] = k.harnessErr
	}
	viol := 0
	replay := filepath.Join(k.verif, "evidence", k.prop+"-replay.json")
	os.Remove(replay)
	code := 0
	if hr != nil || len(failed) > 0 {
		viol = 1
		code = 1
		rep := map[string]interface{}{}
		if hr != nil {
			json.Unmarshal(hr.Replay, &rep)
			rep["how"] = fmt.Sprintf("bash %s/check.sh replay %s", k.verif, replay)
		}
		rep["property"] = k.prop
		var fo []JOb
		for i, o := range failed {
			if i < 20 {
				fo = append(fo, o)
			}
		}
		rep["failed_obligations"] = fo
		rep["undecided"] = undecided
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(replay, b, 0o644)
	}
	ev := map[string]interface{}{"property": k.prop, "tier": k.tier, "seed": k.seed, "level": level, "coverage": cov,
		"assumptions": append(staticAssumptions, assumptions...), "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(k.verif, "evidence", k.prop+".json"), b, 0o644)

	fmt.Printf("%s: %d of %d obligations discharged", k.prop, done, obs)
	if len(undecided) > 0 {
		fmt.Printf(", undecided: %s (bounded stand-in)", strings.Join(undecided, "; "))
	}
	if len(invNames) > 0 {
		fmt.Printf(", library-state frame not established for %s", strings.Join(invNames, ", "))
	}
	if xr != nil {
		fmt.Printf("; %d executions", xr.Evaluations)
	}
	fmt.Printf("; %.1f s\n", time.Since(t0).Seconds())
	for i, o := range failed {
		if i < 5 {
			fmt.Printf("failed obligation %s: %s %s\n", o.Id, o.Detail, trunc(o.Goal, 300))
		}
	}
	if code == 1 {
		if hr != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", k.prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", k.prop, replay)
		}
	}
	return code
}

var staticAssumptions = []string{
	"the Go compiler and runtime implement the language semantics that go/ssa represents",
	"standard library, base58, ripemd160 and pbkdf2 functions behave as their assumed contracts say",
	"strings and slices are shorter than 2^47; allocation does not fail",
	"calls are sequential (concurrent use is C23, not claimed)",
}

func round(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		m[x] = true
	}
	return sortedKeys(m)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// collectFields lists the fields of a struct value (and of structs behind pointers) by path.
func collectFields(e *Eng, st *State, path string, x Value, t types.Type, out map[string]Value) {
	out[path] = x
	if p, ok := x.(VPtr); ok && p.obj != 0 && !isBigInt(deref(t)) {
		if _, ok := deref(t).Underlying().(*types.Struct); ok {
			collectFields(e, st, path, e.load(st, p, deref(t)), deref(t), out)
		}
		return
	}
	s, ok := x.(*VStruct)
	u, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	for i, f := range s.f {
		n := u.Field(i).Name()
		if path != "" {
			n = path + "." + n
		}
		collectFields(e, st, n, f, u.Field(i).Type(), out)
	}
}
