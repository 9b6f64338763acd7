package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analysis of one function from an entry state, for the checks.

type Ana struct {
	r    *Report
	w    *World
	it   *Interp
	fn   *ssa.Function
	name string
	res  []callRes
	ok   bool
}

// analyse runs the interpreter on fn; what cannot be decided is an undischarged obligation.
func analyse(r *Report, it *Interp, fn *ssa.Function, st *State, args []Value) (a *Ana) {
	a = &Ana{r: r, w: it.w, it: it, fn: fn, name: fn.RelString(nil) + " on " + it.w.cfg.String()}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case undecided:
					r.oblige(false, "the analysis decides every path", a.name, it.w.pos(fn.Pos()), "undecided: %s", x.msg)
				case deadPath:
				default:
					panic(e)
				}
			}
		}()
		a.res = it.run(fn, args, st, it.root, nil, nil)
		a.ok = true
	}()
	if a.ok {
		r.oblige(true, "the analysis decides every path", a.name, "", "")
	}
	for _, k := range sortedKeys(it.uses) {
		r.include(k+" on "+it.w.cfg.String(), it.uses[k])
	}
	r.count("paths", len(a.res))
	r.count("functions", len(it.stats.funcs))
	r.count("loops", len(it.stats.loops))
	r.count("sites", len(it.stats.sites))
	r.count("side conditions", it.stats.obls)
	return a
}

// noAlarms obliges every run-time check (index, slice, nil, division, type) to be discharged.
func (a *Ana) noAlarms(rule string, skip func(*Alarm) bool) {
	n := 0
	for _, k := range sortedKeys(a.it.alarms) {
		al := a.it.alarms[k]
		if skip != nil && skip(al) {
			continue
		}
		n++
		a.r.oblige(false, rule, short(al.fn)+" "+al.kind+" (from "+short(a.name)+")", al.pos, "%s", al.detail)
	}
	if n == 0 {
		a.r.oblige(true, rule, short(a.name), "", "")
	}
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

type specCase struct {
	when *Cond
	want Value
}

// equals: on every path, in every case that the path admits, got is the wanted value.
func (a *Ana) equals(rule, what string, x *Ctx, pos string, got Value, cases []specCase) {
	for _, c := range cases {
		y := x.assume(c.when)
		if y.infeasible() || y.prove(notC(c.when)) {
			continue
		}
		a.r.oblige(eqVal(y, got, c.want), rule, short(a.name)+": "+what, pos, "when %s the result is %s, not %s", c.when, showV(got), showV(c.want))
	}
}

func fmtCtx(x *Ctx) string {
	var l []string
	for _, c := range x.list() {
		l = append(l, c.String())
	}
	return strings.Join(l, ", ")
}

var sprintf = fmt.Sprintf
