package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X02: concurrent calls, and the goroutines of one call, do not race.

func init() {
	register("X02", "shared-memory and lock-set analysis over the SSA; goroutine lifetimes (typestate over the SSA); accesses of goroutines proved disjoint in the relational abstract interpretation", checkX02)
}

const (
	ruleShared  = "shared memory is not written without a lock"
	ruleWaited  = "goroutines have finished when the call returns"
	ruleDoneEnd = "a goroutine is done after its last access"
	ruleRace    = "goroutines of a call do not share what one writes"
	ruleInput   = "calls only read what they are given"
)

func checkX02(r *Report) {
	r.rule("Memory that different calls can reach (package variables and what they refer to, the fields of the generator, the worker and the pool, and what those refer to) is found by a flow over the SSA of all library code; every access to a part of it that is written outside initialisation must hold one common lock (a mutex, a sync.Once, or an atomic operation). The csprng's own fields are decided as in R01. No operation writes to memory the caller passed in (interpretation as in X01). Every goroutine signals a WaitGroup after its last access to memory, and every path from its start to the return of the exported operation waits for that WaitGroup (typestate over the SSA, interprocedural). While goroutines run, the accesses of one goroutine are compared with those of every other instance and with those of the function that started them: where one of a pair writes, the index ranges must be provably disjoint for different rounds of the starting loop, or the objects different, or both hold a common lock.")
	r.rule(engineText)
	cfgs := shamirConfigs(r)
	var names []string
	ops := allOps()
	for _, c := range cfgs {
		names = append(names, c.String()+"/shared")
		for _, o := range ops {
			names = append(names, c.String()+"/"+o.pkg+"."+o.name)
		}
	}
	r.parts(names, func(s *Report, name string) {
		for _, c := range shamirConfigs(s) {
			w := load(c)
			if name == c.String()+"/shared" {
				sharedState(s, w)
				csprngGen.confined(s, w)
				goLifetimes(s, w)
				t := newReport(s.id, s.tier)
				if fn := w.fnOf(s, "krawczyk.Combine", bs2, "int", "int"); fn != nil {
					aliasFlow(t, w, fn)
					for _, v := range t.viols {
						if v.rule == ruleWrites {
							s.oblige(false, ruleInput, v.construct, v.pos, "%s", v.msg)
						}
					}
					s.oblige(true, ruleInput, "krawczyk.Combine", "", "")
				}
			}
			for _, o := range ops {
				if name == c.String()+"/"+o.pkg+"."+o.name {
					raceOp(s, w, o)
				}
			}
		}
	})
	r.atLeast(ruleShared, 10)
	r.atLeast(ruleInput, len(ops)+1)
}

// ---------- lifetimes of goroutines ----------

// a place: a variable (allocation, parameter, captured variable, package
// variable), or a field of one.
type place struct {
	root ssa.Value
	path string
}

var anyPlace = place{nil, "?"}

// placeOf is the variable an address (or a pointer) stands for.
func placeOf(v ssa.Value) place { return placeOfN(v, 0) }

func placeOfN(v ssa.Value, n int) place {
	if n > 20 {
		return anyPlace
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return place{v, ""}
	case *ssa.FieldAddr:
		p := placeOfN(x.X, n+1)
		if p.root == nil {
			return p
		}
		return place{p.root, p.path + sprintf(".%d", x.Field)}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return anyPlace
		}
		switch y := x.X.(type) {
		case *ssa.Alloc:
			// a variable that holds a pointer, set once
			if s := onlyStore(y); s != nil {
				return placeOfN(s.Val, n+1)
			}
		case *ssa.FreeVar:
			return place{y, ""}
		}
	case *ssa.Phi:
		p := placeOfN(x.Edges[0], n+1)
		for _, e := range x.Edges[1:] {
			if placeOfN(e, n+1) != p {
				return anyPlace
			}
		}
		return p
	case *ssa.ChangeType:
		return placeOfN(x.X, n+1)
	}
	return anyPlace
}

// onlyStore is the single store to a local variable (nil: none or several, or
// its address goes somewhere else than into closures that read it).
func onlyStore(a *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, u := range *a.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(a) || st != nil {
				return nil
			}
			st = y
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := y.Fn.(*ssa.Function)
			for k, b := range y.Bindings {
				if b == ssa.Value(a) && !onlyLoads(fn.FreeVars[k]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return st
}

// calleeOf: the library function a call runs and the values bound to its free
// variables.
func calleeOf(c *ssa.CallCommon) (*ssa.Function, []ssa.Value) {
	if c.IsInvoke() {
		return nil, nil
	}
	v := c.Value
	for k := 0; k < 10; k++ {
		switch x := v.(type) {
		case *ssa.Function:
			return x, nil
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function), x.Bindings
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(a); s != nil {
					v = s.Val
					continue
				}
			}
		}
		break
	}
	return nil, nil
}

// outward translates a place of a called function to one of the caller.
func outward(p place, fn *ssa.Function, c *ssa.CallCommon, binds []ssa.Value) place {
	add := func(q place) place {
		if q.root == nil {
			return q
		}
		return place{q.root, q.path + p.path}
	}
	switch x := p.root.(type) {
	case *ssa.Parameter:
		for k, q := range fn.Params {
			if q == x && k < len(c.Args) {
				return add(placeOf(c.Args[k]))
			}
		}
	case *ssa.FreeVar:
		for k, q := range fn.FreeVars {
			if q == x && k < len(binds) {
				b := binds[k]
				if pt, ok := b.Type().Underlying().(*types.Pointer); ok {
					if _, pp := pt.Elem().Underlying().(*types.Pointer); pp {
						if a, ok := b.(*ssa.Alloc); ok {
							if s := onlyStore(a); s != nil {
								return add(placeOf(s.Val))
							}
							return anyPlace
						}
					}
				}
				return add(placeOf(b))
			}
		}
	case *ssa.Global:
		return p
	}
	return anyPlace
}

type goInfo struct {
	w      *World
	gens   map[*ssa.Function]map[place]bool // still running at the return
	waits  map[*ssa.Function]map[place]bool // waited for on every path
	busy   map[*ssa.Function]bool
	region map[ssa.Instruction]bool // executed while goroutines may be running
	starts map[*ssa.Function][]ssa.Instruction
	r      *Report
}

func goAnalysis(w *World, r *Report) *goInfo {
	return &goInfo{w: w, r: r, gens: map[*ssa.Function]map[place]bool{}, waits: map[*ssa.Function]map[place]bool{}, busy: map[*ssa.Function]bool{}, region: map[ssa.Instruction]bool{}, starts: map[*ssa.Function][]ssa.Instruction{}}
}

func isWGDone(c *ssa.CallCommon) bool {
	return calleeIs(c, "(*sync.WaitGroup).Done")
}

// signals: the WaitGroups fn signals, each after everything else it does.
func (g *goInfo) signals(fn *ssa.Function, depth int) (out []place, late string) {
	if fn == nil || len(fn.Blocks) == 0 || depth > 5 {
		return nil, ""
	}
	of := func(c *ssa.CallCommon) []place {
		if isWGDone(c) {
			return []place{placeOf(c.Args[0])}
		}
		f, binds := calleeOf(c)
		if f == nil || f == fn || !g.w.libFn(f) {
			return nil
		}
		ps, _ := g.signals(f, depth+1)
		var o []place
		for _, p := range ps {
			o = append(o, outward(p, f, c, binds))
		}
		return o
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Defer:
				ps := of(&x.Call)
				for _, d := range fn.Blocks {
					for j, o := range d.Instrs {
						if y, ok := o.(*ssa.Defer); ok && y != x && len(ps) > 0 && len(of(&y.Call)) == 0 && !(b == d && i < j || b != d && b.Dominates(d)) {
							late = "a function deferred earlier runs after the goroutine has signalled that it is done"
						}
					}
				}
				out = append(out, ps...)
			case *ssa.Call:
				ps := of(&x.Call)
				if len(ps) > 0 {
					if s := g.after(fn, b, i+1); s != "" {
						late = s
					}
				}
				out = append(out, ps...)
			}
		}
	}
	return out, late
}

// after: what fn still does from an instruction on ("": nothing that touches memory).
func (g *goInfo) after(fn *ssa.Function, b *ssa.BasicBlock, i int) string {
	seen := map[*ssa.BasicBlock]bool{}
	why := ""
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for _, in := range b.Instrs[i:] {
			switch x := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Lookup, *ssa.Go, *ssa.Next:
				why = "accesses memory after the goroutine has signalled that it is done: " + g.w.instrPos(in)
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					why = "accesses memory after the goroutine has signalled that it is done: " + g.w.instrPos(in)
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if !isWGDone(&x.Call) {
					why = "calls a function after the goroutine has signalled that it is done: " + g.w.instrPos(in)
				}
			case *ssa.RunDefers:
				for _, d := range fn.Blocks {
					for _, o := range d.Instrs {
						if y, ok := o.(*ssa.Defer); ok && !isWGDone(&y.Call) {
							why = "a deferred function runs after the goroutine has signalled that it is done: " + g.w.instrPos(o)
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(b, i)
	return why
}

// flow follows which goroutines may be running through fn.
func (g *goInfo) flow(fn *ssa.Function) (gen, wait map[place]bool) {
	if m, ok := g.gens[fn]; ok {
		return m, g.waits[fn]
	}
	if g.busy[fn] || len(fn.Blocks) == 0 {
		return nil, nil
	}
	g.busy[fn] = true
	defer delete(g.busy, fn)
	type state struct {
		run  map[place]bool // may be running
		done map[place]bool // waited for since the entry, on all paths
	}
	in := map[*ssa.BasicBlock]*state{fn.Blocks[0]: {map[place]bool{}, map[place]bool{}}}
	cp := func(m map[place]bool) map[place]bool {
		o := map[place]bool{}
		for k := range m {
			o[k] = true
		}
		return o
	}
	gen, wait = map[place]bool{}, nil
	isStart := map[ssa.Instruction]bool{}
	step := func(s *state, ins ssa.Instruction) {
		kill := func(p place) {
			delete(s.run, p)
			s.done[p] = true
		}
		switch x := ins.(type) {
		case *ssa.Go:
			isStart[ins] = true
			f, binds := calleeOf(&x.Call)
			var ps []place
			if isWGDone(&x.Call) {
				return
			}
			ps, _ = g.signals(f, 0)
			if len(ps) == 0 {
				s.run[anyPlace] = true
				return
			}
			for _, p := range ps {
				s.run[outward(p, f, &x.Call, binds)] = true
			}
			left, _ := g.flow(f)
			for p := range left {
				s.run[outward(p, f, &x.Call, binds)] = true
			}
		case *ssa.Call:
			if calleeIs(&x.Call, "(*sync.WaitGroup).Wait") {
				kill(placeOf(x.Call.Args[0]))
				return
			}
			f, binds := calleeOf(&x.Call)
			if f == nil || !g.w.libFn(f) {
				return
			}
			left, ws := g.flow(f)
			for p := range ws {
				kill(outward(p, f, &x.Call, binds))
			}
			for p := range left {
				isStart[ins] = true
				q := outward(p, f, &x.Call, binds)
				s.run[q] = true
				delete(s.done, q)
			}
		case *ssa.RunDefers:
			for _, b := range fn.Blocks {
				for _, o := range b.Instrs {
					if d, ok := o.(*ssa.Defer); ok && (b == ins.Block() || b.Dominates(ins.Block())) {
						if calleeIs(&d.Call, "(*sync.WaitGroup).Wait") {
							kill(placeOf(d.Call.Args[0]))
						} else if f, binds := calleeOf(&d.Call); f != nil && g.w.libFn(f) {
							_, ws := g.flow(f)
							for p := range ws {
								kill(outward(p, f, &d.Call, binds))
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			s0 := in[b]
			if s0 == nil {
				continue
			}
			s := &state{cp(s0.run), cp(s0.done)}
			for _, ins := range b.Instrs {
				step(s, ins)
			}
			for _, t := range b.Succs {
				if in[t] == nil {
					in[t] = &state{cp(s.run), cp(s.done)}
					changed = true
					continue
				}
				for p := range s.run {
					if !in[t].run[p] {
						in[t].run[p] = true
						changed = true
					}
				}
				for p := range in[t].done {
					if !s.done[p] {
						delete(in[t].done, p)
						changed = true
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		s := &state{cp(in[b].run), cp(in[b].done)}
		for _, ins := range b.Instrs {
			if len(s.run) > 0 {
				g.region[ins] = true
			}
			if _, ok := ins.(*ssa.Return); ok {
				for p := range s.run {
					gen[p] = true
				}
				if wait == nil {
					wait = cp(s.done)
				}
				for p := range wait {
					if !s.done[p] {
						delete(wait, p)
					}
				}
			}
			step(s, ins)
		}
	}
	for p := range wait {
		switch p.root.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		default:
			delete(wait, p)
		}
	}
	for in := range isStart {
		g.starts[fn] = append(g.starts[fn], in)
	}
	g.gens[fn], g.waits[fn] = gen, wait
	return gen, wait
}

func goLifetimes(r *Report, w *World) {
	g := goAnalysis(w, r)
	exp := map[*ssa.Function]bool{}
	for _, fn := range w.exported() {
		exp[fn] = true
	}
	n := 0
	for _, fn := range w.reach().order {
		if !w.libFn(fn) {
			continue
		}
		nm := short(fn.RelString(nil)) + " on " + w.cfg.String()
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Go); ok {
					n++
					f, _ := calleeOf(&x.Call)
					ps, late := g.signals(f, 0)
					r.oblige(len(ps) > 0, ruleWaited, nm, w.instrPos(in), "nothing waits for the goroutine: it signals no WaitGroup")
					r.oblige(late == "", ruleDoneEnd, nm, w.instrPos(in), "%s", late)
				}
			}
		}
		left, _ := g.flow(fn)
		for p := range left {
			switch p.root.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				if !exp[fn] {
					continue
				}
			}
			r.oblige(false, ruleWaited, nm, w.pos(fn.Pos()), "may return before a goroutine it has started has finished")
		}
		if len(g.starts[fn]) > 0 {
			r.oblige(true, ruleWaited, nm, w.pos(fn.Pos()), "")
		}
	}
	r.count("goroutine starts", n)
}

// ---------- what the goroutines of a call access ----------

// concMode makes the interpreter record the accesses made by goroutines, and by
// the function that started them while they run.
type concMode struct {
	g     *goInfo
	start *goStart
	at    ssa.Instruction // the region instruction being executed
	fn    *ssa.Function
	loops map[*Atom]*Loop // rounds of loops in the region
	locks *lockFlow
	seen  map[string]*goStart
}

// enter: a goroutine is interpreted from here to the call of the result.
func (c *concMode) enter(st *State, in ssa.Instruction, cs string) func() {
	old := c.start
	if c.seen == nil {
		c.seen = map[string]*goStart{}
	}
	if c.seen[cs] == nil {
		c.seen[cs] = &goStart{in, cs, append([]*Poly(nil), st.inst...), st.ctx}
	}
	if old == nil {
		c.start = c.seen[cs]
	}
	return func() { c.start = old }
}

type goStart struct {
	in   ssa.Instruction
	cs   string
	inst []*Poly
	ctx  *Ctx
}

type access struct {
	write bool
	start *goStart
	at    ssa.Instruction // the main path: where in the function that starts goroutines
	in    ssa.Instruction
	row   SliceV
	ctx   *Ctx
	pos   string
	fn    string
}

// access records one access.
func (f *frame) access(st *State, write bool, r *Ref, lo, hi *Poly, in ssa.Instruction) {
	c := f.it.conc
	if c == nil || c.start == nil && c.at == nil || in == nil || r == nil {
		return
	}
	kind := "acc:r"
	if write {
		kind = "acc:w"
	}
	row := SliceV{obj: r, off: lo, ln: sub(hi, lo), cp: sub(hi, lo), isNil: condFalse}
	k := kind + "@" + f.pos(in) + "@" + f.cs + valKey(row) + sprintf("%p %p", c.start, c.at) + fmtCtx(st.ctx)
	if f.it.notes[k] == nil {
		f.it.notes[k] = &Note{kind: kind, pos: f.pos(in), fn: f.fn.RelString(nil), ctx: st.ctx, vals: []Value{row}, acc: &access{write, c.start, c.at, in, row, st.ctx, f.pos(in), f.fn.RelString(nil)}}
	}
}

// accessLoad: a value of type t is read at p.
func (f *frame) accessLoad(st *State, p PtrV, t types.Type, in ssa.Instruction) {
	if c := f.it.conc; c == nil || c.start == nil && c.at == nil {
		return
	}
	n := int64(1)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isModelType(t) {
			for i := 0; i < u.NumFields(); i++ {
				f.accessLoad(st, f.fieldPtr(st, p, i, u.Field(i).Type()), u.Field(i).Type(), in)
			}
			return
		}
	case *types.Array:
		n, _ = flatArray(u)
	}
	f.access(st, false, p.obj, p.idx, addc(p.idx, n), in)
}

// accessArgs: a modelled function reads the slices it is given.
func (f *frame) accessArgs(st *State, args []Value, in ssa.Instruction) {
	if f.it.conc == nil {
		return
	}
	for _, a := range args {
		if s, ok := a.(SliceV); ok && s.obj != nil && st.objs[s.obj.site] != nil {
			f.access(st, false, s.obj, s.off, add(s.off, s.ln), in)
		}
	}
}

func raceOp(r *Report, w *World, o operation) {
	fn := w.fnOf(r, o.pkg+"."+o.name, o.params...)
	if fn == nil {
		return
	}
	if o.pkg == "shamir" {
		fieldTables(r, w)
	}
	g := goAnalysis(w, r)
	for _, f := range w.reach().order {
		if w.libFn(f) {
			g.flow(f)
		}
	}
	it := newInterp(w, o.pkg)
	it.conc = &concMode{g: g, loops: map[*Atom]*Loop{}, locks: newLockFlow(w)}
	st := newState()
	args := it.entryArgs(st, fn)
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return
	}
	for _, k := range sortedKeys(it.notes) {
		n := it.notes[k]
		ps := strings.SplitN(n.kind, ":", 3)
		if why := strings.TrimPrefix(n.kind, "wait:"); why != n.kind {
			r.oblige(why == "ok" || n.ctx.infeasible(), ruleWaited, short(n.fn), n.pos, "waits %s", why)
		}
		if ps[0] != "write" && ps[0] != "append-spill" || len(ps) < 3 || !strings.HasPrefix(ps[2], "in:") || n.ctx.infeasible() {
			continue
		}
		if ps[0] == "write" && len(n.vals) >= 2 && n.ctx.prove(mkLE(asInt(n.vals[1]), asInt(n.vals[0]))) {
			continue
		}
		r.oblige(false, ruleInput, short(n.fn), n.pos, "%s", n.kind)
	}
	r.oblige(true, ruleInput, short(a.name), "", "")
	races(r, it, short(a.name))
}

func races(r *Report, it *Interp, nm string) {
	var accs []*access
	for _, k := range sortedKeys(it.notes) {
		if a := it.notes[k].acc; a != nil && !a.ctx.infeasible() {
			accs = append(accs, a)
		}
	}
	bySite := map[string][]*access{}
	for _, a := range accs {
		bySite[a.row.obj.site] = append(bySite[a.row.obj.site], a)
	}
	for _, s := range sortedKeys(bySite) {
		as := bySite[s]
		for i, a := range as {
			for j, b := range as {
				if !a.write && !b.write || a.start == nil && b.start == nil || j < i && !(a.start == nil) && !(b.start == nil) {
					continue
				}
				if a.start == nil { // a: the goroutine, b: the goroutine or the main path
					continue
				}
				why := it.conc.disjoint(a, b)
				r.oblige(why == "", ruleRace, nm+" "+short(a.fn), a.pos, "%s may be %s here by one goroutine and %s at %s by %s: %s", s, verb(a.write), verb(b.write), b.pos, by(b), why)
			}
		}
	}
	r.count("accesses of goroutines", len(accs))
}

func verb(w bool) string {
	if w {
		return "written"
	}
	return "read"
}
func by(b *access) string {
	if b.start == nil {
		return "the function that started it"
	}
	return "another"
}

// disjoint: "" if the accesses of two goroutine instances, or of a goroutine and
// the path that started it, never touch the same memory.
func (c *concMode) disjoint(a, b *access) string {
	site := a.row.obj.site
	// memory made by the goroutine itself
	if b.start == nil && strings.Contains(site, a.start.cs) {
		return ""
	}
	if c.locks.common(a.in, b.in, a.write, b.write) {
		return ""
	}
	// the rounds that tell the instances apart
	var ks []*Atom
	for _, p := range a.start.inst {
		if k := p.single(); k != nil && c.loops[k] != nil {
			ks = append(ks, k)
		}
	}
	if b.start != nil && b.start.in != a.start.in {
		return c.apart(a, b, ks, nil)
	}
	if b.start != nil {
		switch len(ks) {
		case 0:
			return "" // one instance at a time
		case 1:
			if strings.Contains(site, a.start.cs) && len(a.row.obj.inst) > 0 {
				// made in the goroutine, one per instance
				found := false
				for _, p := range a.row.obj.inst {
					found = found || p.single() == ks[0]
				}
				if found {
					same := true
					for k, p := range a.row.obj.inst {
						same = same && k < len(b.row.obj.inst) && (p.single() == ks[0]) == (b.row.obj.inst[k].single() == ks[0])
					}
					if same {
						return ""
					}
				}
			}
			if why := c.apart(a, b, ks, func(k, k2 *Poly) *Cond { return mkLT(k, k2) }); why != "" {
				return why
			}
			return c.apart(a, b, ks, func(k, k2 *Poly) *Cond { return mkLT(k2, k) })
		}
		return "several loops start goroutines"
	}
	// the main path: in a loop that starts goroutines it meets those of earlier rounds, or of this one
	if len(ks) == 1 {
		l := c.loops[ks[0]]
		if b.at != nil && l.blocks[b.at.Block()] && b.at.Parent() == l.header.Parent() {
			if c.startedBefore(l, b.at) {
				return c.apart(a, b, ks, func(k, k2 *Poly) *Cond { return mkLE(k, k2) })
			}
			return c.apart(a, b, ks, func(k, k2 *Poly) *Cond { return mkLT(k, k2) })
		}
	}
	return c.apart(a, b, ks, nil)
}

// startedBefore: a goroutine may have been started in this round when at is reached.
func (c *concMode) startedBefore(l *Loop, at ssa.Instruction) bool {
	for _, s := range c.g.starts[at.Parent()] {
		if !l.blocks[s.Block()] {
			continue
		}
		if s.Block() == at.Block() && instrIndex(s) < instrIndex(at) {
			return true
		}
		seen := map[*ssa.BasicBlock]bool{l.header: true}
		work := append([]*ssa.BasicBlock(nil), s.Block().Succs...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] || !l.blocks[b] {
				continue
			}
			seen[b] = true
			if b == at.Block() {
				return true
			}
			work = append(work, b.Succs...)
		}
	}
	return false
}

// apart proves a and b disjoint when everything about a that differs from
// instance to instance is renamed.
func (c *concMode) apart(a, b *access, ks []*Atom, rel func(k, k2 *Poly) *Cond) string {
	known := map[*Atom]bool{}
	for _, cd := range a.start.ctx.list() {
		cd.walk(func(t *Atom) { known[t] = true })
	}
	s := newSubst()
	ren := func(t *Atom) {
		if t.kind != ASym || s.sym[t] != nil || t == jv {
			return
		}
		mine := false
		for _, k := range ks {
			mine = mine || t == k
		}
		inner := strings.HasPrefix(t.name, "κ") && strings.Contains(t.name, a.start.cs)
		fresh := strings.Contains(t.name, "'") && !known[t]
		if mine || inner || fresh {
			n := freshSym(t.name)
			if rg, ok := appRange[t.name]; ok {
				appRange[n.name] = rg
			}
			s.sym[t] = atomPoly(n)
		}
	}
	list := a.ctx.list()
	for _, cd := range list {
		cd.walk(ren)
	}
	for _, p := range append([]*Poly{a.row.off, a.row.ln}, a.row.obj.inst...) {
		p.walk(ren)
	}
	for _, k := range ks {
		ren(k)
	}
	x := b.ctx
	for _, cd := range list {
		x = x.assume(s.C(cd))
	}
	if rel != nil {
		for _, k := range ks {
			x = x.assume(rel(s.P(atomPoly(k)), atomPoly(k)))
		}
	}
	if x.infeasible() {
		return ""
	}
	ai, bi := a.row.obj.inst, b.row.obj.inst
	for k := range ai {
		if k < len(bi) {
			if p, q := s.P(ai[k]), bi[k]; x.prove(notC(mkEq(p, q))) {
				return ""
			} else if p != q && x.decide(mkEq(p, q)) == 0 {
				x = x.assume(mkEq(p, q))
			}
		}
	}
	lo, hi := s.P(a.row.off), s.P(add(a.row.off, a.row.ln))
	if x.prove(mkLE(hi, b.row.off)) || x.prove(mkLE(add(b.row.off, b.row.ln), lo)) || x.prove(mkLE(hi, lo)) || x.prove(mkLE(b.row.ln, konst(0))) {
		return ""
	}
	return sprintf("cannot show that [%s,%s) and [%s,%s) are disjoint", lo, hi, b.row.off, add(b.row.off, b.row.ln))
}

// ---------- locks ----------

// lockFlow: the locks held at each instruction.
type lockFlow struct {
	w     *World
	in    map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool
	entry map[*ssa.Function]map[string]bool
	refs  map[*ssa.Function][]ssa.Instruction
}

func newLockFlow(w *World) *lockFlow {
	l := &lockFlow{w: w, in: map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool{}, entry: map[*ssa.Function]map[string]bool{}, refs: map[*ssa.Function][]ssa.Instruction{}}
	for _, fn := range w.reach().order {
		if !w.libFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						l.refs[f] = append(l.refs[f], in)
					}
				}
			}
		}
	}
	return l
}

// lockKey names a lock: by the package variable, the field of its type, or the
// local variable it is.
func (l *lockFlow) lockKey(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			pt := x.X.Type().Underlying().(*types.Pointer)
			return sprintf("%s.%d", pt.Elem(), x.Field)
		case *ssa.Global:
			return x.RelString(nil)
		case *ssa.Alloc:
			return sprintf("%s.%s", x.Parent(), x.Name())
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch y := x.X.(type) {
				case *ssa.Global, *ssa.FieldAddr, *ssa.FreeVar:
					v = y
					continue
				case *ssa.Alloc:
					if s := onlyStore(y); s != nil {
						v = s.Val
						continue
					}
				}
			}
			return ""
		case *ssa.FreeVar:
			fn := x.Parent()
			var b ssa.Value
			for _, in := range l.refs[fn] {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || b != nil {
					return ""
				}
				for k, q := range fn.FreeVars {
					if q == x {
						b = mc.Bindings[k]
					}
				}
			}
			if b == nil {
				return ""
			}
			if pt, ok := b.Type().Underlying().(*types.Pointer); ok {
				if _, pp := pt.Elem().Underlying().(*types.Pointer); pp {
					a, ok := b.(*ssa.Alloc)
					if !ok || onlyStore(a) == nil {
						return ""
					}
					b = onlyStore(a).Val
				}
			}
			v = b
			continue
		case *ssa.Parameter:
			// every caller gives the same lock
			fn := x.Parent()
			key := ""
			for _, in := range l.refs[fn] {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != fn {
					return ""
				}
				for k, q := range fn.Params {
					if q == x {
						t := l.lockKey(ci.Common().Args[k])
						if t == "" || key != "" && key != t {
							return ""
						}
						key = t
					}
				}
			}
			if key == "" && fn.Object() != nil && fn.Signature.Recv() != nil {
				return ""
			}
			return key
		}
		return ""
	}
}

func (l *lockFlow) op(in ssa.Instruction, h map[string]bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return
	}
	key := func() string { return l.lockKey(c.Call.Args[0]) }
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		if k := key(); k != "" {
			h[k] = true
		}
	case "(*sync.RWMutex).RLock":
		if k := key(); k != "" {
			h["R "+k] = true
		}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		k := key()
		for o := range h {
			if k == "" || o == k {
				delete(h, o)
			}
		}
	case "(*sync.RWMutex).RUnlock":
		k := key()
		for o := range h {
			if strings.HasPrefix(o, "R ") && (k == "" || o == "R "+k) {
				delete(h, o)
			}
		}
	case "(*sync.Once).Do":
		if k := key(); k != "" {
			h["R once "+k] = true
		}
	}
}

// held: the locks held when in is executed ("R k": held for reading).
func (l *lockFlow) held(in ssa.Instruction) map[string]bool {
	fn := in.Parent()
	m := l.in[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]map[string]bool{}
		l.in[fn] = m // a recursive call: nothing held
		e := l.atEntry(fn)
		m = map[*ssa.BasicBlock]map[string]bool{fn.Blocks[0]: e}
		if fn.Recover != nil {
			m[fn.Recover] = map[string]bool{}
		}
		for ch := true; ch; {
			ch = false
			for _, b := range fn.Blocks {
				if m[b] == nil {
					continue
				}
				out := map[string]bool{}
				for k := range m[b] {
					out[k] = true
				}
				for _, i := range b.Instrs {
					l.op(i, out)
				}
				for _, s := range b.Succs {
					if m[s] == nil {
						m[s] = map[string]bool{}
						for k := range out {
							m[s][k] = true
						}
						ch = true
						continue
					}
					for k := range m[s] {
						if !out[k] {
							delete(m[s], k)
							ch = true
						}
					}
				}
			}
		}
		l.in[fn] = m
	}
	h := map[string]bool{}
	for k := range m[in.Block()] {
		h[k] = true
	}
	for _, i := range in.Block().Instrs {
		if i == in {
			break
		}
		l.op(i, h)
	}
	return h
}

// atEntry: what every caller of an unexported function or closure holds.
func (l *lockFlow) atEntry(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	if fn.Object() != nil && fn.Object().Exported() || len(l.refs[fn]) == 0 {
		return out
	}
	for k, in := range l.refs[fn] {
		h := map[string]bool{}
		one := func(ci ssa.Instruction, c *ssa.CallCommon) bool {
			if f, _ := calleeOf(c); f == fn {
				if _, isCall := ci.(*ssa.Call); !isCall {
					return false // go, defer
				}
				for k := range l.held(ci) {
					h[k] = true
				}
				return true
			}
			if calleeIs(c, "(*sync.Once).Do") && len(c.Args) == 2 {
				if key := l.lockKey(c.Args[0]); key != "" {
					for k := range l.held(ci) {
						h[k] = true
					}
					h["once "+key] = true
					return true
				}
			}
			return false
		}
		ok := false
		switch x := in.(type) {
		case *ssa.MakeClosure:
			ok = true
			n := 0
			for _, u := range *x.Referrers() {
				if _, dbg := u.(*ssa.DebugRef); dbg {
					continue
				}
				ci, isCall := u.(ssa.CallInstruction)
				ok = ok && isCall && n == 0 && one(u, ci.Common())
				n++
			}
		case ssa.CallInstruction:
			ok = one(in, x.Common())
		}
		if !ok {
			return map[string]bool{}
		}
		if k == 0 {
			out = h
			continue
		}
		for o := range out {
			if !h[o] {
				delete(out, o)
			}
		}
	}
	return out
}

// common: both accesses hold one lock (a writer not just for reading).
func (l *lockFlow) common(a, b ssa.Instruction, wa, wb bool) bool {
	ha, hb := l.held(a), l.held(b)
	has := func(h map[string]bool, k string, w bool) bool { return h[k] || !w && h["R "+k] }
	for k := range ha {
		k = strings.TrimPrefix(k, "R ")
		if has(ha, k, wa) && has(hb, k, wb) {
			return true
		}
	}
	return false
}

// ---------- shared memory ----------

// sharedFlow finds the parts of memory that several calls can reach, and how
// they are accessed. A part is a package variable, a field of a shared object,
// or (with "*") whatever one of those refers to.
type sharedFlow struct {
	w     *World
	r     *Report
	val   map[ssa.Value]map[string]bool // may point into these parts
	cont  map[ssa.Value]map[string]bool // local memory that holds such pointers
	ret   map[*ssa.Function][]map[string]bool
	acc   map[string]map[accKey]bool
	dirty bool
	final bool
	init  map[*ssa.Function]bool
	taken []*ssa.Function // used as values
}

type accKey struct {
	in     ssa.Instruction
	write  bool
	atomic bool
	what   string
}

func sharedState(r *Report, w *World) {
	x := &sharedFlow{w: w, r: r, val: map[ssa.Value]map[string]bool{}, cont: map[ssa.Value]map[string]bool{}, ret: map[*ssa.Function][]map[string]bool{}, acc: map[string]map[accKey]bool{}, init: map[*ssa.Function]bool{}}
	order := w.reach().order
	var fns []*ssa.Function
	for _, fn := range order {
		if w.libFn(fn) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	locks := newLockFlow(w)
	for _, fn := range fns {
		taken := false
		for _, in := range locks.refs[fn] {
			ci, ok := in.(ssa.CallInstruction)
			taken = taken || !ok || ci.Common().Value != fn
			if ok {
				for _, a := range ci.Common().Args {
					taken = taken || a == fn
				}
			}
		}
		if taken {
			x.taken = append(x.taken, fn)
		}
	}
	// functions that only initialisation runs
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			if x.init[fn] {
				continue
			}
			only := fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
			if !only && (fn.Object() == nil || !fn.Object().Exported()) && len(locks.refs[fn]) > 0 {
				only = true
				for _, in := range locks.refs[fn] {
					only = only && x.init[in.Parent()]
				}
			}
			if only {
				x.init[fn], ch = true, true
			}
		}
	}
	// objects that callers share: receivers, and generators they pass
	for _, fn := range w.exported() {
		for k, p := range fn.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := pt.Elem().(*types.Named)
			if !ok || n.Obj().Pkg() == nil || !isLib(n.Obj().Pkg().Path()) {
				continue
			}
			if n.Obj().Pkg().Name() == "randomizer" {
				continue // does not promise concurrent use
			}
			if k == 0 && fn.Signature.Recv() != nil || n.Obj().Name() == csprngGen.typ {
				x.add(x.val, p, n.Obj().Name())
			}
		}
	}
	for x.dirty = true; x.dirty; {
		x.dirty = false
		for _, fn := range fns {
			x.fn(fn)
		}
	}
	x.final = true
	for _, fn := range fns {
		x.fn(fn)
	}
	own := "CSPRNG." // decided by confined
	for _, k := range sortedKeys(x.acc) {
		var as []accKey
		for a := range x.acc[k] {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return w.instrPos(as[i].in)+as[i].what < w.instrPos(as[j].in)+as[j].what })
		var wr *accKey
		for i := range as {
			if as[i].write && !as[i].atomic {
				wr = &as[i]
				break
			}
			if as[i].write && wr == nil {
				wr = &as[i]
			}
		}
		r.count("accesses to shared memory", len(as))
		if strings.HasPrefix(k, own) {
			continue
		}
		if wr == nil {
			r.oblige(true, ruleShared, k+" on "+w.cfg.String(), "", "")
			continue
		}
		for i := range as {
			b := &as[i]
			ok := wr.atomic && b.atomic || locks.common(wr.in, b.in, wr.write, b.write)
			r.oblige(ok, ruleShared, k+" on "+w.cfg.String(), w.instrPos(wr.in), "%s here and %s at %s (%s) without a common lock", wr.what, b.what, w.instrPos(b.in), short(b.in.Parent().RelString(nil)))
		}
	}
}

func (x *sharedFlow) add(m map[ssa.Value]map[string]bool, v ssa.Value, keys ...string) {
	for _, k := range keys {
		if m[v] == nil {
			m[v] = map[string]bool{}
		}
		if !m[v][k] {
			m[v][k] = true
			x.dirty = true
		}
	}
}

func (x *sharedFlow) touch(in ssa.Instruction, keys map[string]bool, write bool, what string, atomic bool) {
	if !x.final || x.init[in.Parent()] {
		return
	}
	for k := range keys {
		if x.acc[k] == nil {
			x.acc[k] = map[accKey]bool{}
		}
		x.acc[k][accKey{in, write, atomic, what}] = true
	}
}

func starred(m map[string]bool) (out []string) {
	for _, k := range sortedKeys(m) {
		if !strings.HasSuffix(k, "*") {
			k += "*"
		}
		out = append(out, k)
	}
	return
}

// pointsOn: a value of this type can lead to further memory that calls may share.
func pointsOn(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Chan, *types.Signature:
		return false
	case *types.Array:
		return pointsOn(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointsOn(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return !isErrT(t)
}

func isSyncType(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// concurrentSafe: external methods that may be called on a shared object at once.
var concurrentSafe = []string{"crypto/cipher.Block.", "aesctrat.", "reedsolomon.Encoder.", "crypto/cipher.AEAD.", "error.Error"}

func (x *sharedFlow) base(v ssa.Value) ssa.Value {
	switch y := v.(type) {
	case *ssa.IndexAddr:
		return x.base(y.X)
	case *ssa.FieldAddr:
		return x.base(y.X)
	case *ssa.Slice:
		return x.base(y.X)
	}
	return v
}

func (x *sharedFlow) fn(fn *ssa.Function) {
	flowTo := func(to ssa.Value, from ssa.Value) {
		x.add(x.val, to, sortedKeys(x.val[from])...)
		x.add(x.cont, to, sortedKeys(x.cont[from])...)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && isLib(g.Pkg.Pkg.Path()) {
					x.add(x.val, g, g.Pkg.Pkg.Name()+"."+g.Name())
				}
			}
			switch y := in.(type) {
			case *ssa.Phi:
				for _, e := range y.Edges {
					flowTo(y, e)
				}
			case *ssa.FieldAddr:
				// the field of a shared object
				if m := x.val[y.X]; len(m) > 0 {
					pt := y.X.Type().Underlying().(*types.Pointer)
					st := pt.Elem().Underlying().(*types.Struct)
					name := "struct"
					if n, ok := pt.Elem().(*types.Named); ok {
						name = n.Obj().Name()
					}
					x.add(x.val, y, name+"."+st.Field(y.Field).Name())
				}
				x.add(x.cont, y, sortedKeys(x.cont[y.X])...)
			case *ssa.IndexAddr:
				if _, isPtr := y.X.Type().Underlying().(*types.Pointer); isPtr {
					x.add(x.val, y, sortedKeys(x.val[y.X])...)
				} else {
					x.add(x.val, y, sortedKeys(x.val[y.X])...)
				}
				x.add(x.cont, y, sortedKeys(x.cont[y.X])...)
			case *ssa.Slice:
				flowTo(y, y.X)
			case *ssa.UnOp:
				if y.Op != token.MUL {
					continue
				}
				if m := x.val[y.X]; len(m) > 0 && !isSyncType(y.Type()) {
					x.touch(in, m, false, "read", false)
					if pointsOn(y.Type()) {
						x.add(x.val, y, starred(m)...)
					}
				}
				if pointsOn(y.Type()) {
					x.add(x.val, y, sortedKeys(x.cont[x.base(y.X)])...)
					x.add(x.val, y, sortedKeys(x.cont[y.X])...)
				}
			case *ssa.Lookup:
				if m := x.val[y.X]; len(m) > 0 {
					x.touch(in, m, false, "looked up", false)
					if pointsOn(y.Type()) {
						x.add(x.val, y, starred(m)...)
					}
				}
			case *ssa.Range:
				if m := x.val[y.X]; len(m) > 0 {
					x.touch(in, m, false, "ranged over", false)
				}
				flowTo(y, y.X)
			case *ssa.Next:
				flowTo(y, y.Iter)
			case *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
				v := y.(ssa.Value)
				if ex, ok := y.(*ssa.Extract); ok {
					if cl, ok := ex.Tuple.(*ssa.Call); ok {
						x.result(cl, ex, ex.Index)
						continue
					}
				}
				if pointsOn(v.Type()) {
					flowTo(v, *y.Operands(nil)[0])
				}
			case *ssa.Convert:
				if pointsOn(y.Type()) {
					flowTo(y, y.X)
				}
			case *ssa.Store:
				if m := x.val[y.Addr]; len(m) > 0 {
					x.touch(in, m, true, "written", false)
				}
				ks := append(sortedKeys(x.val[y.Val]), sortedKeys(x.cont[y.Val])...)
				if len(ks) > 0 && pointsOn(y.Val.Type()) {
					x.add(x.cont, x.base(y.Addr), ks...)
				}
			case *ssa.MapUpdate:
				if m := x.val[y.Map]; len(m) > 0 {
					x.touch(in, m, true, "written", false)
				}
				x.add(x.cont, y.Map, sortedKeys(x.val[y.Value])...)
			case *ssa.MakeClosure:
				f := y.Fn.(*ssa.Function)
				for k, b := range y.Bindings {
					flowTo(f.FreeVars[k], b)
					x.add(x.cont, b, sortedKeys(x.cont[f.FreeVars[k]])...)
				}
			case *ssa.Return:
				if x.ret[fn] == nil {
					x.ret[fn] = make([]map[string]bool, len(y.Results))
				}
				for k, v := range y.Results {
					for _, key := range append(sortedKeys(x.val[v]), sortedKeys(x.cont[v])...) {
						if x.ret[fn][k] == nil {
							x.ret[fn][k] = map[string]bool{}
						}
						if !x.ret[fn][k][key] {
							x.ret[fn][k][key] = true
							x.dirty = true
						}
					}
				}
			case ssa.CallInstruction:
				x.call(y)
			}
		}
	}
}

func (x *sharedFlow) result(cl *ssa.Call, v ssa.Value, k int) {
	for _, f := range x.targets(&cl.Call) {
		if k < len(x.ret[f]) && pointsOn(v.Type()) {
			x.add(x.val, v, sortedKeys(x.ret[f][k])...)
		}
	}
}

// targets: the library's functions a call may run, none when there may be others.
func (x *sharedFlow) targets(c *ssa.CallCommon) (out []*ssa.Function) {
	if f, _ := calleeOf(c); f != nil {
		if x.w.libFn(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
		return
	}
	if c.IsInvoke() {
		return
	}
	if p, ok := c.Value.(*ssa.Parameter); ok && p.Parent().Object() != nil && p.Parent().Object().Exported() {
		return // the caller's
	}
	for _, f := range x.taken {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return
}

func (x *sharedFlow) call(in ssa.CallInstruction) {
	c := in.Common()
	if bl, ok := c.Value.(*ssa.Builtin); ok {
		v, _ := in.(ssa.Value)
		switch bl.Name() {
		case "copy":
			x.touch(in, x.val[c.Args[0]], true, "copied into", false)
			x.touch(in, x.val[c.Args[1]], false, "copied from", false)
			if s, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointsOn(s.Elem()) {
				x.add(x.cont, x.base(c.Args[0]), starred(x.val[c.Args[1]])...)
			}
		case "append":
			x.touch(in, x.val[c.Args[0]], true, "appended to", false)
			x.touch(in, x.val[c.Args[1]], false, "copied from", false)
			if v != nil {
				x.add(x.val, v, sortedKeys(x.val[c.Args[0]])...)
				x.add(x.cont, v, sortedKeys(x.cont[c.Args[0]])...)
				if s, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointsOn(s.Elem()) {
					x.add(x.cont, v, starred(x.val[c.Args[1]])...)
					x.add(x.cont, v, sortedKeys(x.cont[c.Args[1]])...)
				}
			}
		case "delete", "clear":
			x.touch(in, x.val[c.Args[0]], true, "cleared", false)
		case "len", "cap":
			if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap {
				x.touch(in, x.val[c.Args[0]], false, "measured", false)
			}
		}
		return
	}
	f, _ := calleeOf(c)
	fs := x.targets(c)
	for _, f := range fs {
		for k, p := range f.Params {
			if k < len(c.Args) && pointsOn(p.Type()) {
				x.add(x.val, p, sortedKeys(x.val[c.Args[k]])...)
				x.add(x.cont, p, sortedKeys(x.cont[c.Args[k]])...)
				x.add(x.cont, x.base(c.Args[k]), sortedKeys(x.cont[p])...)
			}
		}
	}
	if len(fs) > 0 {
		if v, ok := in.(*ssa.Call); ok && c.Signature().Results().Len() == 1 {
			x.result(v, v, 0)
		}
		return
	}
	name := callName(in)
	full := name
	if f != nil {
		full = f.RelString(nil)
	}
	if strings.HasPrefix(full, "sync/atomic.") || strings.HasPrefix(full, "(*sync/atomic.") {
		load := strings.Contains(full, "Load")
		for _, a := range c.Args {
			x.touch(in, x.val[a], !load, "accessed atomically", true)
		}
		return
	}
	if strings.HasPrefix(full, "(*sync.") {
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	safe := readOnly[full]
	for _, s := range concurrentSafe {
		safe = safe || strings.Contains(name, s) || strings.Contains(full, s)
	}
	out := map[int]bool{}
	if f != nil && x.w.libFn(f) { // assembly: writes to the vector it is to write to
		for k, p := range f.Params {
			if p.Name() == "out" || p.Name() == "dst" {
				out[k] = true
			}
		}
	}
	for k, a := range args {
		ks := x.val[a]
		if len(ks) == 0 {
			continue
		}
		switch {
		case len(out) > 0:
			x.touch(in, ks, out[k], "passed to "+name, false)
		case c.IsInvoke() && k == 0 && safe, !c.IsInvoke() && safe && k == 0:
			x.touch(in, ks, false, "used by "+name, false)
		case safe && readOnly[full]:
			x.touch(in, ks, false, "read by "+name, false)
		case strings.Contains(full, "subtle.") || strings.HasPrefix(full, "fmt.") || strings.HasPrefix(full, "bytes.NewReader"):
			x.touch(in, ks, false, "read by "+name, false)
		default:
			x.touch(in, ks, true, "given to "+name, false)
		}
	}
}
