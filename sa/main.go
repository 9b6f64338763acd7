package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

type checkDef struct {
	id        string
	technique string
	run       func(r *Report)
}

var checks = map[string]*checkDef{}

func register(id, technique string, run func(r *Report)) {
	checks[id] = &checkDef{id, technique, run}
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if pf := os.Getenv("SA_PROF"); pf != "" {
		f, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) >= 2 && os.Args[1] == "dev" {
		devMain(os.Args[2:])
		return
	}
	if len(os.Args) == 5 && os.Args[1] == "part" {
		debug.SetMemoryLimit(2200 << 20) // seven of them run at once
		onePart(os.Args[2], os.Args[3], os.Args[4])
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: sa check ID [quick|thorough]")
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	ids := []string{os.Args[2]}
	if os.Args[2] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if x := runCheck(id, tier); x != 0 {
			rc = x
		}
	}
	os.Exit(rc)
}

// runCheck decides one property. Whatever keeps the analysis from deciding
// (code it cannot resolve, code that does not type-check, a failure of the
// analyser itself, no verdict in time) is reported as a violation.
func runCheck(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	r := newReport(id, tier)
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 850 * time.Second
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if fe, ok := e.(fatalErr); ok {
					r.viols = append(r.viols, Viol{"analysis", id, "", fe.msg})
					return
				}
				if os.Getenv("SA_PANIC") != "" {
					debug.PrintStack()
				}
				r.viols = append(r.viols, Viol{"analysis", id, "", fmt.Sprintf("the analysis could not decide the property: %v", e)})
			}
		}()
		c.run(r)
	}()
	select {
	case <-done:
	case <-time.After(limit):
		nr := newReport(id, tier)
		nr.start = r.start
		nr.viols = append(nr.viols, Viol{"analysis", id, "", fmt.Sprintf("no verdict within %v", limit)})
		return nr.finish(c.technique)
	}
	return r.finish(c.technique)
}
