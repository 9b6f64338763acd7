package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A check may consist of parts that do not need each other. Each is run by a
// process of its own, and the reports are put together.

type partReport struct {
	Done     bool
	Obls, OK int
	Rules    map[string][2]int
	Viols    [][4]string
	Analysed map[string]int
	Samples  []string
	Explain  []string
	Assume   []string
	Included []string
}

// thisPart is the part this process was started for.
var thisPart string

func (r *Report) parts(names []string, f func(s *Report, name string)) {
	if thisPart != "" {
		for _, n := range names {
			if n == thisPart {
				s := newReport(r.id, r.tier)
				f(s, n)
				s.print()
				os.Exit(0)
			}
		}
		return
	}
	if len(names) == 1 {
		f(r, names[0])
		return
	}
	exe, err := os.Executable()
	if err != nil {
		fatal("cannot find the analyser: %v", err)
	}
	limit := 480 * time.Second
	if r.tier == "thorough" {
		limit = 830 * time.Second
	}
	ctx, cancel := context.WithDeadline(context.Background(), r.start.Add(limit))
	defer cancel()
	res := make([]*partReport, len(names))
	errs := make([]string, len(names))
	slots := make(chan bool, 7)
	var wg sync.WaitGroup
	for k, n := range names {
		wg.Add(1)
		go func(k int, n string) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			cmd := exec.CommandContext(ctx, exe, "part", r.id, r.tier, n)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			const mark = "\nPART "
			if i := strings.LastIndex("\n"+string(out), mark); i >= 0 {
				var p partReport
				if e := json.Unmarshal([]byte(("\n" + string(out))[i+len(mark):]), &p); e == nil && p.Done {
					res[k] = &p
					return
				}
			}
			errs[k] = fmt.Sprintf("no verdict (%v)", err)
			if ctx.Err() != nil {
				errs[k] = fmt.Sprintf("no verdict within %v", limit)
			}
		}(k, n)
	}
	wg.Wait()
	for k, n := range names {
		p := res[k]
		if p == nil {
			r.viols = append(r.viols, Viol{"analysis", n, "", errs[k]})
			continue
		}
		s := newReport(r.id, r.tier)
		s.obls, s.done, s.analysed, s.samples = p.Obls, p.OK, p.Analysed, p.Samples
		for rule, c := range p.Rules {
			s.byRule[rule] = &ruleCount{c[0], c[1]}
		}
		for _, v := range p.Viols {
			s.viols = append(s.viols, Viol{v[0], v[1], v[2], v[3]})
		}
		r.include("part "+n, s)
		for i, x := range s.samples {
			if i < 12 {
				r.samples = append(r.samples, n+": "+x)
			}
		}
		for _, x := range p.Assume {
			dup := false
			for _, y := range r.assume {
				dup = dup || x == y
			}
			if !dup {
				r.assume = append(r.assume, x)
			}
		}
		for _, x := range p.Explain {
			if !strings.Contains(strings.Join(r.explain, " "), x) {
				r.explain = append(r.explain, x)
			}
		}
	}
}

func (r *Report) print() {
	p := partReport{Done: true, Obls: r.obls, OK: r.done, Rules: map[string][2]int{}, Analysed: r.analysed, Samples: r.samples, Explain: r.explain, Assume: r.assume}
	for k, c := range r.byRule {
		p.Rules[k] = [2]int{c.n, c.ok}
	}
	for _, v := range r.viols {
		p.Viols = append(p.Viols, [4]string{v.rule, v.construct, v.pos, v.msg})
	}
	for rule, n := range r.minimum {
		got := 0
		if rc := r.byRule[rule]; rc != nil {
			got = rc.n
		}
		if got < n {
			p.Viols = append(p.Viols, [4]string{"instances", rule, "", fmt.Sprintf("rule %q found %d instances, at least %d are known to exist: the analysis no longer sees what it has to check", rule, got, n)})
		}
	}
	js, _ := json.Marshal(p)
	fmt.Printf("\nPART %s\n", js)
}

func onePart(id, tier, name string) {
	c := checks[id]
	if c == nil {
		os.Exit(2)
	}
	thisPart = name
	r := newReport(id, tier)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("SA_PANIC") != "" {
					panic(e)
				}
				s := newReport(id, tier)
				m := fmt.Sprintf("the analysis could not decide the property: %v", e)
				if fe, ok := e.(fatalErr); ok {
					m = fe.msg
				}
				s.viols = append(s.viols, Viol{"analysis", name, "", m})
				s.print()
				os.Exit(0)
			}
		}()
		c.run(r)
	}()
	os.Exit(3)
}
