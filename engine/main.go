package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

func main() {
	switch os.Args[1] {
	case "verify":
		debugVerify(os.Args[2:])
	case "worker": // repo contracts name part status timeout
		n, _ := strconv.Atoi(os.Args[7])
		worker(os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6], n)
	case "check", "replay": // repo verif prop tier | repo verif file
		dir, err := os.MkdirTemp("", "verif-check-")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		self, _ := os.Executable()
		k := &checker{repo: os.Args[2], verif: os.Args[3], dir: dir, self: self, seed: 1}
		code := 2
		if os.Args[1] == "replay" {
			k.buildHarness()
			c := exec.Command(dir+"/harness", "replay", os.Args[4])
			c.Stdout, c.Stderr = os.Stdout, os.Stderr
			c.Run()
			code = c.ProcessState.ExitCode()
		} else {
			k.prop, k.tier = os.Args[4], os.Args[5]
			if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
				k.seed = s
			}
			code = k.check()
		}
		os.RemoveAll(dir)
		os.Exit(code)
	}
}

func debugVerify(names []string) {
	slv := newSolver(5000)
	repo := os.Getenv("GOVER_REPO")
	if repo == "" {
		repo = "/repo"
	}
	t := time.Now()
	v, err := newVerifier(repo, "/verif/contracts", slv)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t), "init", v.initErr, "missing", v.missing, v.lemmaErr)
	for _, n := range names {
		if r := v.verifyDep(n); r != nil {
			ok := 0
			for _, o := range r.obs {
				if o.ok {
					ok++
				} else {
					fmt.Printf("  FAILED %s: %s\n     %s\n", o.id, o.detail, trunc(o.goal, 1500))
				}
			}
			fmt.Printf("%s: %d/%d obligations, %d outcomes, %v, %d queries, unsup=%q\n", n, ok, len(r.obs), r.outcomes, r.dt, r.queries, r.unsup)
		}
		for _, c := range v.spec.contracts {
			if n != "all" && c.name != n {
				continue
			}
			if p := os.Getenv("GOVER_PART"); p != "" {
				v.target, v.onlyPart = c, p
			}
			r := v.verify(c)
			ok := 0
			for _, o := range r.obs {
				if o.ok {
					ok++
				} else {
					fmt.Printf("  FAILED %s: %s\n     %s\n", o.id, o.detail, trunc(o.goal, 1500))
				}
			}
			fmt.Printf("%s: %d/%d obligations, %d outcomes, %v, %d queries, unsup=%q hits=%v\n", c.name, ok, len(r.obs), r.outcomes, r.dt, r.queries, r.unsup, r.hits)
			if os.Getenv("GOVER_V") != "" {
				fmt.Println("  models", strings.Join(sortedKeys(r.models), " "))
				fmt.Println("  inlined", strings.Join(sortedKeys(r.inlined), " "))
				fmt.Println("  contracts", strings.Join(sortedKeys(r.used), " "), "loops", strings.Join(sortedKeys(r.loops), "; "))
			}
		}
	}
	fmt.Println("total", time.Since(t), "solver", slv.time, "queries", slv.queries, slv.unsat)
	for _, s := range slv.slow {
		fmt.Println("  slow", s)
	}
}
