package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X06: the worker dispatches to the algorithm that was asked for.

func init() {
	register("X06", "abstract interpretation: the calls on every path, their arguments and what becomes of their results", checkX06)
}

type algorithm struct{ konst, name, split, combine string }

var algorithms = []algorithm{
	{"AlgShamir", "shamir", "shamir.SplitWithRandomizer", "shamir.Combine"},
	{"AlgSSMS", "krawczyk", "krawczyk.SplitWithRandomizer", "krawczyk.Combine"},
}

func checkX06(r *Report) {
	r.rule("On every path of a worker's Split and Combine: if the algorithm name is one of the two, its own operation is called exactly once, with the caller's unmodified data and parameters (and the worker's generator), and what the call returned is returned: its data with a nil error if it succeeded, no data and an error if it failed. Otherwise nothing is called and an error without data is returned. The worker's generator is a new CSPRNG made by its constructor and is never replaced.")
	r.rule(engineText)
	for _, c := range shamirConfigs(r) {
		w := load(c)
		sp := w.spkg["worker"]
		if !r.oblige(sp != nil, "entry point exists", "package worker", "", "no package worker") {
			continue
		}
		for _, al := range algorithms {
			k, _ := sp.Pkg.Scope().Lookup(al.konst).(*types.Const)
			ok := k != nil && k.Val().Kind() == constant.String && constant.StringVal(k.Val()) == al.name
			r.oblige(ok, "algorithm names", "worker."+al.konst, "", "is not %q", al.name)
		}
		workerOp(r, w, "Split", []string{"string", "[]byte", "int", "int"}, func(a algorithm) string { return a.split })
		workerOp(r, w, "Combine", []string{"string", bs2, "int", "int"}, func(a algorithm) string { return a.combine })
		workerNew(r, w)
	}
	r.atLeast("the algorithm asked for is run", 2)
	r.atLeast("arguments are passed on unchanged", 4)
	r.atLeast("results are passed on unchanged", 4)
	r.atLeast("any other name is an error", 2)
}

type workerCall struct {
	st   *State // when called
	args []Value
	ret  Value  // on success
	rst  *State // on success
}

func workerOp(r *Report, w *World, name string, params []string, target func(algorithm) string) {
	fn := w.fnOf(r, "worker.Worker."+name, append([]string{"*" + modPath + "/worker.Worker"}, params...)...)
	if fn == nil {
		return
	}
	it := newInterp(w, "worker")
	calls := map[string]*workerCall{}
	for _, al := range algorithms {
		for _, t := range []string{al.split, al.combine} {
			t := t
			it.contracts[modPath+"/"+t] = func(f *frame, p *Path, c *callSite) []callRes {
				st := p.st
				if len(st.inst) > 0 {
					giveUp("%s is called in a loop", t)
				}
				flag := func(st *State, s string) {
					st.flags = cloneFlags(st.flags)
					st.flags[s] = true
				}
				if st.flags["called"] {
					flag(st, "again")
				}
				flag(st, "called")
				key := "call:" + t + "@" + f.pos(c.instr) + "@" + strconv.Itoa(len(calls))
				wc := &workerCall{st: st.clone(), args: c.args}
				calls[key] = wc
				flag(st, key)
				bad := st.clone()
				flag(bad, "err")
				sig := w.findFn(t).Signature
				wc.ret = it.symbolicV(st, "ret:"+key, sig.Results().At(0).Type(), nil, nil)
				wc.rst = st.clone()
				return []callRes{f.errPath(bad, 1), {st: st, val: tup(wc.ret, nilErr())}}
			}
		}
	}
	st := newState()
	args := it.entryArgs(st, fn)
	recv := args[0].(PtrV)
	st0 := st.clone()
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return
	}
	a.noAlarms("no run-time panic", func(al *Alarm) bool {
		return al.kind == "nil" && strings.Contains(al.detail, "nil(in:"+fn.Params[0].Name()) // a nil or zero worker
	})
	a.noPanics()
	alg := asStreq(args[1])
	a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
		var key string
		for k := range calls {
			if res.st.flags[k] {
				key = k
			}
		}
		r.oblige(!res.st.flags["again"], "the algorithm asked for is run", nm, res.pos, "several operations are run on one path")
		if key == "" {
			for _, al := range algorithms {
				r.oblige(x.assume(alg(al.name)).infeasible(), "the algorithm asked for is run", nm, res.pos, "nothing is run for %q when %s", al.name, fmtCtx(x))
			}
			r.oblige(!isNil && nilData(x, data[0]), "any other name is an error", nm, res.pos, "returns %s", showV(res.val))
			return
		}
		wc := calls[key]
		var al algorithm
		for _, b := range algorithms {
			if strings.HasPrefix(key, "call:"+target(b)+"@") {
				al = b
			}
		}
		r.oblige(al.name != "" && x.prove(alg(al.name)), "the algorithm asked for is run", nm, res.pos, "%s is run when %s", key, fmtCtx(x))
		// arguments
		cx := wc.st.ctx
		want := args[2:]
		got := wc.args
		if name == "Combine" && al.combine == "shamir.Combine" {
			want = want[:1]
		}
		r.oblige(len(got) >= len(want), "arguments are passed on unchanged", nm, res.pos, "%d arguments", len(got))
		for i := 0; i < len(want) && i < len(got); i++ {
			r.oblige(sameValue(cx, st0, want[i], wc.st, got[i]), "arguments are passed on unchanged", nm, res.pos, "argument %d of %s is %s, not %s", i, key, showV(got[i]), showV(want[i]))
		}
		if name == "Split" {
			p, isP := got[len(got)-1].(PtrV)
			ok := isP && len(got) == 4 && p.obj != nil && strings.HasPrefix(p.obj.site, recv.obj.site+".") && generators(w) == 1
			r.oblige(ok, "the worker's own generator is used", nm, res.pos, "the generator is %s", showV(got[len(got)-1]))
		}
		// results
		if res.st.flags["err"] {
			r.oblige(!isNil && nilData(x, data[0]), "results are passed on unchanged", nm, res.pos, "the operation failed, but %s is returned", showV(res.val))
			return
		}
		r.oblige(isNil && sameValue(x, wc.rst, wc.ret, res.st, data[0]), "results are passed on unchanged", nm, res.pos, "the operation returned %s, but %s is returned", showV(wc.ret), showV(res.val))
	})
	for _, res := range a.res {
		if res.panic == "" {
			for _, k := range changed(res.st.ctx, st0, res.st) {
				r.oblige(strings.HasPrefix(k, "ret:"), "the worker and its input stay as they were", short(a.name), res.pos, "%s is written", k)
			}
		}
	}
	r.oblige(true, "the worker and its input stay as they were", short(a.name), "", "")
}

// asStreq gives the condition that a symbolic string is a constant.
func asStreq(v Value) func(string) *Cond {
	s, ok := v.(StringV)
	return func(name string) *Cond {
		if !ok {
			return condFalse
		}
		return atomC("streq:" + s.s + ":" + name)
	}
}

// generators counts the generator fields of a worker.
func generators(w *World) int {
	n := 0
	tn, _ := w.spkg["worker"].Pkg.Scope().Lookup("Worker").(*types.TypeName)
	if tn == nil {
		return 0
	}
	s, _ := tn.Type().Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "*"+modPath+"/csprng.CSPRNG" {
			n++
		}
	}
	return n
}

// sameValue: b in state sb is what a is in state sa: the same thing, or a list with equal elements.
func sameValue(x *Ctx, sa *State, a Value, sb *State, b Value) bool {
	switch v := a.(type) {
	case IntV:
		w, ok := b.(IntV)
		return ok && x.prove(mkEq(v.p, w.p))
	case ByteV:
		w, ok := b.(ByteV)
		return ok && x.simpB(bxor(v.b, w.b)) == bconst(0)
	case StringV:
		w, ok := b.(StringV)
		return ok && v.s == w.s
	case PtrV:
		w, ok := b.(PtrV)
		return ok && v.obj == w.obj && (v.obj == nil || x.prove(mkEq(v.idx, w.idx)))
	case SliceV:
		w, ok := b.(SliceV)
		if !ok || v.obj == nil || w.obj == nil {
			return ok && v.obj == nil && w.obj == nil
		}
		if !x.prove(mkEq(v.ln, w.ln)) {
			return false
		}
		if v.obj == w.obj && x.prove(mkEq(v.off, w.off)) && eqContent(x, sa.obj(v.obj), sb.obj(w.obj)) {
			return true
		}
		i := symP("#same")
		y := x.assume(mkGE(i), mkLT(i, v.ln))
		for _, ca := range cellCases(y, sa.obj(v.obj), v.obj.inst, add(v.off, i)) {
			z := y.assume(ca.g)
			if z.infeasible() {
				continue
			}
			for _, cb := range cellCases(z, sb.obj(w.obj), w.obj.inst, add(w.off, i)) {
				u := z.assume(cb.g)
				if !u.infeasible() && !sameValue(u, sa, ca.v, sb, cb.v) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// workerNew: the constructor makes one new generator; nothing else sets the field.
func workerNew(r *Report, w *World) {
	fn := w.fnOf(r, "worker.NewWorker")
	if fn == nil {
		return
	}
	tn, _ := w.spkg["worker"].Pkg.Scope().Lookup("Worker").(*types.TypeName)
	if !r.oblige(tn != nil, "entry point exists", "worker.Worker", "", "no such type") {
		return
	}
	it := newInterp(w, "worker")
	made := map[*Ref]bool{}
	gt := w.spkg["csprng"].Pkg.Scope().Lookup("CSPRNG").Type()
	it.contracts[modPath+"/csprng.NewCSPRNG"] = func(f *frame, p *Path, c *callSite) []callRes {
		if len(p.st.inst) > 0 {
			giveUp("a generator is made in a loop")
		}
		v := it.symbolicV(p.st, "new:"+c.site, types.NewPointer(gt), nil, nil).(PtrV)
		v.isNil = condFalse
		made[v.obj] = true
		return one(p.st, v)
	}
	a := analyse(r, it, fn, newState(), nil)
	if !a.ok {
		return
	}
	a.noAlarms("no run-time panic", nil)
	n := 0
	for _, res := range a.res {
		if res.panic != "" {
			r.oblige(res.st.ctx.infeasible(), "no panic", short(a.name), res.pos, "panics: %s", res.panic)
			continue
		}
		n++
		sv, ok := res.val.(StructV)
		found := false
		for i := 0; ok && i < len(sv.f); i++ {
			p, isP := sv.f[i].(PtrV)
			found = found || isP && made[p.obj]
		}
		r.oblige(found, "the worker's generator is made by its constructor", short(a.name), res.pos, "returns %s", showV(res.val))
	}
	r.oblige(n > 0, "the worker's generator is made by its constructor", short(a.name), w.pos(fn.Pos()), "no path returns")
	// nothing but the constructor and what only it calls sets the field
	inCtor := it.stats.funcs
	for _, sp := range w.spkg {
		for _, f := range allFuncs(w.prog, sp) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, isF := s.Addr.(*ssa.FieldAddr)
					if isF && types.Identical(deref(fa.X.Type()), tn.Type()) || types.Identical(s.Val.Type(), tn.Type()) {
						r.oblige(inCtor[f.RelString(nil)], "the worker's generator is never replaced", short(f.RelString(nil)), w.pos(s.Pos()), "a worker's field is set")
					}
				}
			}
		}
	}
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
