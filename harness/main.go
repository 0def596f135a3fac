// Bounded execution of the real code against the reference: finds a concrete failing input for a failed obligation, replays
// it, and stands in (labelled bounded) where the verifier cannot decide.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type msg struct {
	Op    *Op    `json:"op,omitempty"`
	Fails []Fail `json:"fails,omitempty"`
	Done  bool   `json:"done,omitempty"`
	Count int    `json:"count,omitempty"`
}

type Replay struct {
	Property string   `json:"property"`
	Message  string   `json:"message"`
	Ops      []*Op    `json:"ops"`
	Other    []string `json:"other,omitempty"`
}

func main() {
	switch os.Args[1] {
	case "work": // prop seed secs dict
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		secs, _ := strconv.ParseFloat(os.Args[4], 64)
		work(os.Args[2], seed, secs, os.Args[5])
	case "exec": // operations as JSON lines on stdin
		execAll()
	case "run": // prop seed secs dict workers out
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		secs, _ := strconv.ParseFloat(os.Args[4], 64)
		w, _ := strconv.Atoi(os.Args[6])
		parent(os.Args[2], seed, secs, os.Args[5], w, os.Args[7])
	case "replay": // file
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil || len(r.Ops) == 0 {
			fmt.Println("no recorded input", err)
			os.Exit(2)
		}
		if m := reproduce(r.Property, r.Ops); m != "" {
			fmt.Println("REPRODUCED", r.Property, m)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	}
}

var out = bufio.NewWriter(os.NewFile(3, "results"))

func size(fd int) int64 {
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil {
		return 0
	}
	return st.Size
}

var outSize int64

// doOp executes one operation and reports it; output of the library shows as growth of the files behind fds 1 and 2.
func doOp(enc *json.Encoder, op *Op, lists bool) []Fail {
	enc.Encode(msg{Op: op})
	out.Flush()
	f := execOp(op, lists)
	if n := size(1) + size(2); n != outSize {
		outSize = n
		f = append(f, Fail{"C21", op.Op + " writes to standard output or standard error"})
	}
	if len(f) > 0 {
		enc.Encode(msg{Fails: f})
		out.Flush()
	}
	return f
}

// calibrate finds how random draws become keys and mnemonics.
func calibrate() {
	r := mrand.New(mrand.NewSource(99))
	keyWindow, entWindow = false, false
	n := 0
	for i := 0; i < 40; i++ {
		op := &Op{Op: "GeneratePrivateKey", N1: &Net{Lib: "main"}, RSeed: r.Int63n(1 << 40)}
		if drawnKey(op) != nil {
			n++
		}
	}
	keyWindow = n >= 20
	entWindow = true
	for _, w := range []int{12, 15, 18, 21, 24} {
		n := 0
		for i := 0; i < 8; i++ {
			if drawnEnt(w, r.Int63n(1<<40)) >= 0 {
				n++
			}
		}
		entWindow = entWindow && n >= 4
	}
}

func execAll() {
	enc := json.NewEncoder(out)
	outSize = size(1) + size(2)
	calibrate()
	outSize = size(1) + size(2)
	sc := bufio.NewReader(os.Stdin)
	dec := json.NewDecoder(sc)
	for {
		var op Op
		if err := dec.Decode(&op); err == io.EOF {
			break
		} else if err != nil {
			os.Exit(7)
		}
		if op.Op == "Statistics" {
			statistics(enc, &op)
			continue
		}
		doOp(enc, &op, true)
	}
	enc.Encode(msg{Done: true})
	out.Flush()
}

func opsFor(prop string) (prim, rest []string) {
	for o, ps := range primary {
		in := false
		for _, p := range ps {
			if p == prop {
				in = true
			}
		}
		if in || prop == "C21" {
			prim = append(prim, o)
		} else {
			rest = append(rest, o)
		}
	}
	sort.Strings(prim)
	sort.Strings(rest)
	return
}

func work(prop string, seed int64, secs float64, dict string) {
	enc := json.NewEncoder(out)
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	outSize = size(1) + size(2)
	n := 0
	do := func(op *Op) {
		n++
		doOp(enc, op, n%16 == 0 || prop == "C21" && n%4 == 0)
	}
	// before anything else
	do(&Op{Op: "Params"})
	for _, b := range builtin {
		do(&Op{Op: "Wordlist", WL: b.name})
	}
	calibrate()
	outSize = size(1) + size(2)
	if prop == "C06" || prop == "C16" {
		statistics(enc, &Op{Op: "Statistics", S: Str(prop), RSeed: seed})
	}
	g := newGen(seed, dict)
	prim, rest := opsFor(prop)
	for i, m := range g.dict.Models {
		for _, op := range g.fromModel(g.dict.Funcs[i], m) {
			do(op)
		}
	}
	if len(rest) == 0 {
		rest = prim
	}
	var last []*Op
	for time.Now().Before(deadline) {
		if len(last) > 0 && g.p(20) { // an earlier call again, or nearly
			o := *last[g.n(len(last))]
			if g.p(60) {
				g.vary(&o)
			}
			do(&o)
		} else if g.p(75) {
			o := g.op(prim[g.n(len(prim))])
			do(o)
			if last = append(last, o); len(last) > 6 {
				last = last[1:]
			}
		} else {
			do(g.op(rest[g.n(len(rest))]))
		}
	}
	enc.Encode(msg{Done: true, Count: n})
	out.Flush()
}

type workerResult struct {
	hist  []*Op
	fails []Fail
	count int
	how   string
	other *Fail // C21: the first failure of another property
}

// drive runs a child and follows its reports until the first failure of prop ("" for none).
func drive(args []string, stdin io.Reader, prop string, hang time.Duration, known map[string]bool) workerResult {
	var res workerResult
	f, err := os.CreateTemp("", "verif-out-")
	if err != nil {
		return res
	}
	defer os.Remove(f.Name())
	pr, pw, _ := os.Pipe()
	c := exec.Command(os.Args[0], args...)
	c.Stdin = stdin
	c.Stdout, c.Stderr = f, f
	c.ExtraFiles = []*os.File{pw}
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.Start() != nil {
		return res
	}
	pw.Close()
	var mu sync.Mutex
	last := time.Now()
	hung, done := false, make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
				mu.Lock()
				if time.Since(last) > hang {
					hung = true
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				}
				mu.Unlock()
			}
		}
	}()
	dec := json.NewDecoder(bufio.NewReader(pr))
	finished := false
	for {
		var m msg
		if dec.Decode(&m) != nil {
			break
		}
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		if m.Op != nil {
			res.hist = append(res.hist, m.Op)
		}
		for _, x := range m.Fails {
			if x.Prop == prop {
				res.fails = append(res.fails, x)
			} else if known != nil && res.other == nil && !known[x.Prop] {
				y := x
				res.other = &y
			}
		}
		if m.Done {
			finished = true
			if m.Count > 0 {
				res.count = m.Count
			}
		}
		if len(res.fails) > 0 || res.other != nil {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			finished = true
			break
		}
	}
	close(done)
	c.Wait()
	if res.count == 0 {
		res.count = len(res.hist)
	}
	if !finished && len(res.hist) > 0 {
		op := res.hist[len(res.hist)-1]
		tail := make([]byte, 600)
		n, _ := f.ReadAt(tail, tailAt(f))
		mine := false
		for _, p := range primary[op.Op] {
			mine = mine || p == prop
		}
		if op.Op == "GeneratePrivateKey" && op.RFail > 0 {
			mine = false
		}
		what := "ends the process: " + string(tail[:n])
		if hung {
			what = "does not return"
		}
		res.how = what
		if mine {
			res.fails = append(res.fails, Fail{prop, op.Op + " " + what})
		} else if prop == "C21" && !hung && n > 0 {
			res.fails = append(res.fails, Fail{prop, op.Op + " writes to standard error and " + what})
		}
	}
	return res
}

func fileSize(f *os.File) int64 {
	st, err := f.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}

// reproduce: what fails. Property "C21/P": the last call breaks P after the others and does not alone.
func reproduce(prop string, ops []*Op) string {
	history, p, hist := strings.Cut(prop, "/")
	if !hist {
		p = history
	}
	run := func(ops []*Op) (string, int) {
		pr, pw := io.Pipe()
		go func() {
			e := json.NewEncoder(pw)
			for _, o := range ops {
				if e.Encode(o) != nil {
					return
				}
			}
			pw.Close()
		}()
		r := drive([]string{"exec"}, pr, p, 40*time.Second, nil)
		pr.Close()
		if len(r.fails) > 0 {
			return r.fails[0].Msg, len(r.hist)
		}
		return "", 0
	}
	m, n := run(ops)
	if !hist || m == "" {
		return m
	}
	if n != len(ops) || n < 2 {
		return ""
	}
	if alone, _ := run(ops[n-1:]); alone != "" {
		return ""
	}
	return "after earlier calls " + ops[n-1].Op + " breaks " + p + " (and does not without them): " + m
}

func copyOf(m map[string]bool, mu *sync.Mutex) map[string]bool {
	if m == nil {
		return nil
	}
	mu.Lock()
	defer mu.Unlock()
	c := map[string]bool{}
	for k := range m {
		c[k] = true
	}
	return c
}

// minimise: the shortest suffix of the history that still fails, then single operations dropped.
func minimise(prop string, hist []*Op) ([]*Op, string) {
	if _, p, ok := strings.Cut(prop, "/"); ok && reproduce(p, hist[len(hist)-1:]) != "" {
		return nil, "" // not the history's doing
	}
	for k := 1; ; k *= 2 {
		if k > len(hist) {
			k = len(hist)
		}
		ops := hist[len(hist)-k:]
		if m := reproduce(prop, ops); m != "" {
			best, msg := ops, m
			for chunk := len(best) / 2; chunk >= 1; chunk /= 2 {
				for i := 0; i+chunk < len(best); {
					c := append(append([]*Op{}, best[:i]...), best[i+chunk:]...)
					if m := reproduce(prop, c); m != "" {
						best, msg = c, m
					} else {
						i += chunk
					}
					if len(best) > 4000 {
						break
					}
				}
			}
			return best, msg
		}
		if k == len(hist) {
			return nil, ""
		}
	}
}

func parent(prop string, seed int64, secs float64, dict string, workers int, outFile string) {
	type rep struct {
		Evaluations int     `json:"evaluations"`
		Distinct    int     `json:"distinct"`
		Replay      *Replay `json:"replay,omitempty"`
		Samples     []*Op   `json:"samples,omitempty"`
		Note        string  `json:"note,omitempty"`
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var R rep
	seen := map[string]bool{}
	var known map[string]bool
	if prop == "C21" {
		known = map[string]bool{}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			s := seed*1000 + int64(w)
			end := time.Now().Add(time.Duration(secs * float64(time.Second)))
			for time.Now().Before(end) || s < 1000*(seed+1) && s == seed*1000+int64(w) {
				left := time.Until(end).Seconds()
				if left < 1 {
					left = 1
				}
				r := drive([]string{"work", prop, fmt.Sprint(s), fmt.Sprint(left), dict}, nil, prop, 40*time.Second, copyOf(known, &mu))
				s += int64(workers)
				mu.Lock()
				R.Evaluations += r.count
				for _, o := range r.hist {
					for _, p := range primary[o.Op] {
						if p == prop || prop == "C21" {
							c := *o
							c.RSeed = 0
							b, _ := json.Marshal(c)
							if !seen[string(b)] {
								seen[string(b)] = true
								if len(R.Samples) < 3 && len(seen)%7 == 3 {
									R.Samples = append(R.Samples, o)
								}
							}
						}
					}
				}
				stop := R.Replay != nil
				as := prop
				if r.other != nil && len(r.fails) == 0 {
					if as = prop + "/" + r.other.Prop; known[r.other.Prop] {
						mu.Unlock()
						continue
					}
				}
				if (len(r.fails) > 0 || r.other != nil) && !stop {
					mu.Unlock()
					ops, m := minimise(as, r.hist)
					mu.Lock()
					if ops == nil && as != prop {
						known[r.other.Prop] = true
						mu.Unlock()
						continue
					}
					if ops == nil {
						R.Note = "seen once, not reproduced in a fresh process: " + r.fails[0].Msg
					} else if R.Replay == nil {
						R.Replay = &Replay{Property: as, Message: m, Ops: ops}
					}
					stop = true
				}
				mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	R.Distinct = len(seen)
	b, _ := json.MarshalIndent(R, "", " ")
	os.WriteFile(outFile, b, 0644)
	if R.Replay != nil {
		os.Exit(1)
	}
}

var _ = big.NewInt

func tailAt(f *os.File) int64 {
	if n := fileSize(f); n > 600 {
		return n - 600
	}
	return 0
}
