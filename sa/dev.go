package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// findFn resolves "pkg.Func", "pkg.Type.Method".
func (w *World) findFn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := w.spkg[parts[0]]
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	for _, fn := range allFuncs(w.prog, sp) {
		if fn.Parent() == nil && fn.Name() == parts[2] && fn.Signature.Recv() != nil && strings.HasSuffix(strings.TrimPrefix(fn.Signature.Recv().Type().String(), "*"), "."+parts[1]) {
			return fn
		}
	}
	return nil
}

func newState() *State {
	return &State{objs: map[string]*Obj{}, flags: map[string]bool{}}
}

// entryArgs makes unconstrained arguments for a function.
func (it *Interp) entryArgs(st *State, fn *ssa.Function) []Value {
	var args []Value
	for _, p := range fn.Params {
		args = append(args, it.symbolicV(st, "in:"+p.Name(), p.Type(), nil, nil))
	}
	return args
}

func showRes(r callRes) string {
	s := ""
	if r.panic != "" {
		s = "PANIC " + r.panic + " @" + r.pos
	} else {
		s = "ret " + showV(r.val) + " @" + r.pos
	}
	return s
}

func devMain(args []string) {
	c := cfgAMD64
	switch args[0] {
	case "arm64":
		c = cfgARM64
	case "noasm":
		c = cfgNoasm
	}
	w := load(c)
	for _, name := range args[1:] {
		fn := w.findFn(name)
		if fn == nil {
			fmt.Println("no function", name)
			continue
		}
		it := newInterp(w, strings.Split(name, ".")[0])
		st := newState()
		t := time.Now()
		func() {
			defer func() {
				if os.Getenv("SA_PANIC") != "" {
					return
				}
				if r := recover(); r != nil {
					fmt.Printf("FAILED: %v\n", r)
				}
			}()
			if len(fn.Blocks) == 0 {
				g := w.asmSSA(fn)
				rs := it.run(g, it.entryArgs(st, g), st, "", nil, nil)
				fmt.Println(len(rs))
				for i, r := range rs {
					fmt.Printf("-- %d: %s\n", i, showRes(r))
					for _, c := range r.st.ctx.list() {
						fmt.Printf("     | %s\n", c)
					}
					for _, o := range r.st.objs {
						for _, e := range o.ents {
							fmt.Printf("        %s [%s] %s\n", o.site, e.g, showV(e.val))
						}
					}
				}
				return
			}
			rs := it.run(fn, it.entryArgs(st, fn), st, "", nil, nil)
			fmt.Printf("== %s: %d results, %d alarms, %d notes, %d/%d obligations, %d steps, %v\n", name, len(rs), len(it.alarms), len(it.notes), it.stats.proved, it.stats.obls, it.steps, time.Since(t))
			for i, r := range rs {
				fmt.Printf("-- %d: %s\n", i, showRes(r))
				for _, c := range r.st.ctx.list() {
					fmt.Printf("     | %s\n", c)
				}
				if os.Getenv("SA_OBJS") != "" {
					var ks []string
					for k, o := range r.st.objs {
						if len(o.ents) > 0 || os.Getenv("SA_OBJS") == "2" || strings.Contains(k, os.Getenv("SA_OBJS")) {
							ks = append(ks, k)
						}
					}
					sort.Strings(ks)
					for _, k := range ks {
						o := r.st.objs[k]
						fmt.Printf("     obj %s ninst=%d ln=%s kind=%s\n", k, o.ninst, o.ln, o.kind)
						for _, e := range o.ents {
							fmt.Printf("        [%s] %s\n", e.g, showV(e.val))
						}
						if o.base != nil {
							fmt.Printf("        base %s\n", showV(o.base))
						}
					}
				}
			}
		}()
		for _, k := range sortedKeys(it.alarms) {
			a := it.alarms[k]
			fmt.Printf("ALARM %s %s %s: %s\n", a.kind, a.pos, a.fn, a.detail)
		}
	}
}
