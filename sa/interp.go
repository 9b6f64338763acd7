package main

// The abstract interpreter: forward analysis of SSA functions over the domain of
// value.go with trace partitioning; calls inside a package are inlined, calls
// into other packages of the library are replaced by their (separately
// verified) contracts, loops are summarised in loop.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type splitReq struct{ c *Cond }

func needSplit(c *Cond) { panic(splitReq{c}) }

type Alarm struct {
	kind, pos, fn, detail string
	ctx                   *Ctx
}

type Note struct {
	kind, pos, fn string
	ctx           *Ctx
	vals          []Value
	st            *State
	acc           *access
}

type Interp struct {
	inGo      int       // goroutines being interpreted
	conc      *concMode // record what goroutines access
	w         *World
	alarms    map[string]*Alarm
	notes     map[string]*Note
	home      string // package whose functions are inlined
	steps     int
	maxSteps  int
	depth     int
	fail      bool // random sources and other calls may fail
	failTags  map[string]bool
	root      string // prefix of the names of allocation sites
	contracts map[string]Model
	uses      map[string]*Report // contracts relied on
	stats     Stats
	bools     map[string]bool // fixed boolean globals (cpu feature flags)
	tables    map[string]*Table
	inplace   bool // MulConstVector works in place
	keepFacts bool
	noKeep    bool
	curCS     string
	chanVals  map[string]Value
	noCanon   map[*Obj]bool // decision lists found not to be one value
	modified  map[string]map[string]bool
	maybeSent map[string]bool
}
type Stats struct {
	funcs  map[string]bool
	loops  map[string]bool
	sites  map[string]bool
	paths  int
	obls   int
	proved int
}

func newStats() Stats {
	return Stats{funcs: map[string]bool{}, loops: map[string]bool{}, sites: map[string]bool{}}
}

// record is what one run over a loop body reports; it counts when the
// hypotheses of that run turn out to be right.
type record struct {
	alarms map[string]*Alarm
	notes  map[string]*Note
	stats  Stats
}

// recorded runs f and returns what it reported.
func (it *Interp) recorded(f func()) record {
	old := record{it.alarms, it.notes, it.stats}
	defer func() { it.alarms, it.notes, it.stats = old.alarms, old.notes, old.stats }()
	it.alarms, it.notes, it.stats = map[string]*Alarm{}, map[string]*Note{}, newStats()
	f()
	return record{it.alarms, it.notes, it.stats}
}

func (it *Interp) commit(r record) {
	for k, v := range r.alarms {
		if it.alarms[k] == nil {
			it.alarms[k] = v
		}
	}
	for k, v := range r.notes {
		if it.notes[k] == nil {
			it.notes[k] = v
		}
	}
	for k := range r.stats.funcs {
		it.stats.funcs[k] = true
	}
	for k := range r.stats.loops {
		it.stats.loops[k] = true
	}
	for k := range r.stats.sites {
		it.stats.sites[k] = true
	}
	it.stats.obls += r.stats.obls
	it.stats.proved += r.stats.proved
}

type Model func(f *frame, p *Path, c *callSite) []callRes

type callSite struct {
	instr ssa.CallInstruction
	name  string
	args  []Value
	site  string
	sig   *types.Signature
}
type callRes struct {
	st    *State
	val   Value
	panic string
	pos   string
}

func newInterp(w *World, home string) *Interp {
	it := &Interp{w: w, home: home, alarms: map[string]*Alarm{}, notes: map[string]*Note{}, maxSteps: 400000, failTags: map[string]bool{}, bools: map[string]bool{}, noCanon: map[*Obj]bool{}}
	lenMax = konst(1 << 47)
	if it.wordBits() == 32 {
		lenMax = konst(1<<31 - 1)
	}
	it.stats = newStats()
	it.contracts = contractsFor(w)
	return it
}

type deferred struct {
	fn   Value
	args []Value
	call ssa.CallInstruction
}

type Path struct {
	st     *State
	env    map[ssa.Value]Value
	defers []deferred
}

func (p *Path) clone() *Path {
	n := &Path{st: p.st.clone(), env: make(map[ssa.Value]Value, len(p.env)+8)}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

type exitKind int

const (
	exRet exitKind = iota
	exPanic
	exBack
	exEdge
)

type exit struct {
	kind     exitKind
	p        *Path
	val      Value
	from, to *ssa.BasicBlock
	msg, pos string
}

type frame struct {
	it    *Interp
	fn    *ssa.Function
	cs    string
	loops *loopInfo
	up    *frame
}

func (it *Interp) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := it.w.prog.Fset.Position(p)
	fn := ps.Filename
	if r, err := filepath.Rel(repoDir, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}
func (f *frame) pos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		if v, ok := i.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		// nearest instruction of the block
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
			}
			if j == i && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() {
		p = f.fn.Pos()
	}
	return f.it.posOf(p)
}

func (f *frame) alarm(kind, detail string, i ssa.Instruction, st *State) {
	pos := f.pos(i)
	k := kind + "@" + pos
	if f.it.alarms[k] == nil {
		f.it.alarms[k] = &Alarm{kind, pos, f.fn.RelString(nil), detail, st.ctx}
		if os.Getenv("SA_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "ALARM %s %s %s\n", kind, pos, detail)
			if os.Getenv("SA_DEBUG") == "2" {
				for _, c := range st.ctx.list() {
					fmt.Fprintln(os.Stderr, "    ", c)
				}
			}
		}
	}
}
func (f *frame) note(kind string, i ssa.Instruction, st *State, vals ...Value) {
	pos := f.pos(i)
	k := kind + "@" + pos + "@" + f.cs
	for _, v := range vals {
		k += valKey(v)
	}
	if f.it.notes[k] == nil {
		f.it.notes[k] = &Note{kind, pos, f.fn.RelString(nil), st.ctx, vals, st.clone(), nil}
	}
}

// require checks an obligation; an undischarged one is an alarm and is then assumed.
func (f *frame) require(st *State, c *Cond, kind string, i ssa.Instruction) {
	if c == condTrue {
		return
	}
	f.it.stats.obls++
	f.it.stats.sites[kind+"@"+f.pos(i)] = true
	if st.ctx.prove(c) {
		f.it.stats.proved++
		return
	}
	f.alarm(kind, "cannot show "+c.String(), i, st)
	if st.ctx.prove(notC(c)) {
		panic(deadPath{})
	}
	st.ctx = st.ctx.assume(c)
}

type deadPath struct{}

func (st *State) assume(cs ...*Cond) { st.ctx = st.ctx.assume(cs...) }

// ---------- running functions ----------

func (it *Interp) run(fn *ssa.Function, args []Value, st *State, cs string, binds []Value, up *frame) []callRes {
	if it.depth > 40 {
		giveUp("call depth exceeded at %s", fn)
	}
	for u := up; u != nil; u = u.up {
		if u.fn == fn {
			giveUp("recursion through %s", fn)
		}
	}
	if fn.Blocks == nil {
		giveUp("no body for %s", fn)
	}
	it.depth++
	defer func() { it.depth-- }()
	it.stats.funcs[fn.RelString(nil)] = true
	f := &frame{it: it, fn: fn, cs: cs, loops: loopsOf(fn), up: up}
	p := &Path{st: st, env: map[ssa.Value]Value{}}
	for i, prm := range fn.Params {
		p.env[prm] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			p.env[fv] = binds[i]
		}
	}
	base := st.ctx
	exits := f.runFrom(p, fn.Blocks[0], 0, nil)
	var res []callRes
	for _, e := range exits {
		switch e.kind {
		case exRet:
			res = append(res, callRes{st: e.p.st, val: e.val, pos: e.pos})
		case exPanic:
			res = append(res, callRes{st: e.p.st, panic: e.msg, pos: e.pos})
		default:
			giveUp("unexpected exit from %s", fn)
		}
	}
	if up != nil && !it.noKeep {
		old := it.curCS
		it.curCS = "@" + cs + "/"
		res = it.mergeResults(res, base)
		it.curCS = old
	}
	return res
}

func (f *frame) enter(p *Path, from, b *ssa.BasicBlock, region *Loop) []*exit {
	if region != nil {
		if b == region.header {
			return []*exit{{kind: exBack, p: p, from: from, to: b}}
		}
		if !region.blocks[b] {
			return []*exit{{kind: exEdge, p: p, from: from, to: b}}
		}
	}
	if l := f.loops.byHeader[b]; l != nil && l != region {
		var out []*exit
		for _, e := range f.doLoop(p, l, from) {
			if e.kind == exEdge {
				out = append(out, f.enter(e.p, e.from, e.to, region)...)
			} else {
				out = append(out, e)
			}
		}
		return out
	}
	f.phis(p, from, b)
	return f.runFrom(p, b, 0, region)
}

func (f *frame) phis(p *Path, from, b *ssa.BasicBlock) {
	var ps []*ssa.Phi
	var vs []Value
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range b.Preds {
			if pr == from {
				ps = append(ps, ph)
				vs = append(vs, f.val(p, ph.Edges[k]))
				break
			}
		}
	}
	for k, ph := range ps {
		p.env[ph] = vs[k]
	}
}

func (f *frame) fork(p *Path, c *Cond, k func(p *Path, truth bool) []*exit) []*exit {
	switch p.st.ctx.decide(c) {
	case 1:
		return k(p, true)
	case -1:
		return k(p, false)
	}
	var out []*exit
	q := p.clone()
	p.st.assume(c)
	if !p.st.ctx.infeasible() {
		out = append(out, k(p, true)...)
	}
	q.st.assume(notC(c))
	if !q.st.ctx.infeasible() {
		out = append(out, k(q, false)...)
	}
	return out
}

func (f *frame) runFrom(p *Path, b *ssa.BasicBlock, idx int, region *Loop) []*exit {
	for ; idx < len(b.Instrs); idx++ {
		f.it.steps++
		if f.it.steps > f.it.maxSteps {
			giveUp("analysis budget exceeded in %s", f.fn)
		}
		in := b.Instrs[idx]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return f.enter(p, b, b.Succs[0], region)
		case *ssa.If:
			c := asBool(f.val(p, x.Cond))
			return f.fork(p, c, func(q *Path, t bool) []*exit {
				s := b.Succs[1]
				if t {
					s = b.Succs[0]
				}
				return f.enter(q, b, s, region)
			})
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
			case 1:
				v = f.val(p, x.Results[0])
			default:
				t := TupleV{}
				for _, r := range x.Results {
					t = append(t, f.val(p, r))
				}
				v = t
			}
			return []*exit{{kind: exRet, p: p, val: v, pos: f.pos(x)}}
		case *ssa.Panic:
			return []*exit{{kind: exPanic, p: p, msg: "explicit panic", pos: f.pos(x)}}
		case *ssa.RunDefers:
			var out []*exit
			paths := []*Path{p}
			ds := p.defers
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*Path
				for _, q := range paths {
					q.defers = nil
					rs := f.callValue(q, ds[k].fn, ds[k].args, ds[k].call, f.cs+"/d"+fmt.Sprint(k))
					for _, r := range rs {
						if r.panic != "" {
							out = append(out, &exit{kind: exPanic, p: &Path{st: r.st, env: q.env}, msg: r.panic, pos: r.pos})
							continue
						}
						n := &Path{st: r.st, env: q.env}
						if len(rs) > 1 {
							n = n.clone()
						}
						next = append(next, n)
					}
				}
				paths = next
			}
			for _, q := range paths {
				q.defers = nil
				out = append(out, f.runFrom(q, b, idx+1, region)...)
			}
			return out
		}
		rs, sp := f.tryExec(p, in)
		if sp != nil {
			if os.Getenv("SA_SPLIT") != "" {
				fmt.Fprintf(os.Stderr, "split %s %s: %s\n", f.fn, f.pos(in), sp.c)
			}
			i := idx
			return f.fork(p, sp.c, func(q *Path, _ bool) []*exit { return f.runFrom(q, b, i, region) })
		}
		if rs == nil {
			continue // executed in place
		}
		// several results
		var out []*exit
		for _, r := range rs {
			if r.panic != "" {
				out = append(out, &exit{kind: exPanic, p: &Path{st: r.st, env: p.env}, msg: r.panic, pos: r.pos})
				continue
			}
			q := p
			if len(rs) > 1 {
				q = p.clone()
			}
			q.st = r.st
			if v, ok := in.(ssa.Value); ok {
				q.env[v] = r.val
			}
			out = append(out, f.runFrom(q, b, idx+1, region)...)
		}
		return out
	}
	giveUp("block without terminator")
	return nil
}

// tryExec executes one instruction; a nil result list means it was executed in
// place, an empty one that the path ends here.
func (f *frame) tryExec(p *Path, in ssa.Instruction) (rs []callRes, sp *splitReq) {
	ctx, nEv := p.st.ctx, len(p.st.events)
	p.st.log = p.st.log[:0]
	p.st.logOn = true
	st := p.st
	nd := len(p.defers)
	defer func() {
		st.logOn = false
		if r := recover(); r != nil {
			switch e := r.(type) {
			case splitReq:
				for k := len(st.log) - 1; k >= 0; k-- {
					l := st.log[k]
					if l.old == nil {
						delete(st.objs, l.key)
					} else {
						st.objs[l.key] = l.old
					}
				}
				st.ctx = ctx
				st.events = st.events[:nEv]
				p.defers = p.defers[:nd]
				sp = &e
				rs = nil
			case deadPath:
				rs = []callRes{}
			default:
				panic(r)
			}
		}
	}()
	rs = f.exec(p, in)
	return
}

func (s *State) setObj(k string, o *Obj) {
	if s.logOn {
		s.log = append(s.log, undo{k, s.objs[k]})
	}
	s.objs[k] = o
}

type undo struct {
	key string
	old *Obj
}

// ---------- operands ----------

func asBool(v Value) *Cond {
	if b, ok := v.(BoolV); ok {
		return b.c
	}
	giveUp("boolean expected, have %T", v)
	return nil
}
func asInt(v Value) *Poly {
	switch x := v.(type) {
	case IntV:
		return x.p
	case ByteV:
		return intOf(x.b)
	}
	giveUp("integer expected, have %T", v)
	return nil
}
func asByte(v Value) *BT {
	switch x := v.(type) {
	case ByteV:
		return x.b
	case IntV:
		return bint(x.p)
	}
	giveUp("byte expected, have %T", v)
	return nil
}

func (f *frame) val(p *Path, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return f.constVal(x)
	case *ssa.Global:
		return f.globalPtr(p.st, x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{bi: x}
	}
	r, ok := p.env[v]
	if !ok {
		giveUp("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}

func (f *frame) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroV(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		giveUp("constant of type %s", t)
	}
	switch {
	case u.Kind() == types.Uint8:
		k, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return ByteV{bconst(byte(k))}
	case u.Info()&types.IsInteger != 0:
		k, exact := constant.Int64Val(constant.ToInt(c.Value))
		if !exact {
			return IntV{symP("const:" + c.Value.ExactString())}
		}
		return IntV{konst(k)}
	case u.Info()&types.IsBoolean != 0:
		return BoolV{boolC(constant.BoolVal(c.Value))}
	case u.Info()&types.IsString != 0:
		s := constant.StringVal(c.Value)
		return StringV{s, true, konst(int64(len(s)))}
	}
	return OpaqueV{tag: "const:" + c.Value.ExactString()}
}

// ---------- globals ----------

func (f *frame) globalPtr(st *State, g *ssa.Global) Value {
	key := "g:" + g.RelString(nil)
	et := g.Type().(*types.Pointer).Elem()
	if st.objs[key] == nil {
		o := &Obj{site: key, kind: "global", ln: konst(1), elem: et}
		if at, ok := et.Underlying().(*types.Array); ok {
			n, el := flatArray(at)
			o.ln, o.elem = konst(n), el
			if t := f.it.table(g); t != nil {
				o.kind = "table"
				o.tab = t
			}
		}
		if sl, ok := et.Underlying().(*types.Slice); ok {
			if t := f.it.table(g); t != nil {
				bk := key + "[]"
				st.objs[bk] = &Obj{site: bk, kind: "table", ln: konst(t.n), elem: sl.Elem(), tab: t}
				o.base = SliceV{obj: &Ref{bk, nil}, off: konst(0), ln: konst(t.n), cp: konst(t.n), isNil: condFalse}
				st.objs[key] = o
				return ptrTo(key, nil, et)
			}
		}
		if o.tab == nil {
			o.base = f.it.symbolicV(st, key, o.elem, nil, []*Poly{jP})
			if b, ok := f.it.bools[g.Name()]; ok {
				o.base = BoolV{boolC(b)}
			}
			if isErrT(et) && f.it.w.errorVar(g) {
				o.base = IfaceV{nilc: condFalse, tag: key}
			}
			if st2, ok := et.Underlying().(*types.Struct); ok {
				f.it.structObjs(st, key, st2, konst(1), 0, "global")
			}
		}
		st.objs[key] = o // creation is idempotent: never undone
	}
	return ptrTo(key, nil, et)
}

func isErrT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func ptrTo(site string, inst []*Poly, et types.Type) PtrV {
	p := PtrV{obj: &Ref{site, inst}, idx: konst(0), isNil: condFalse}
	if at, ok := et.Underlying().(*types.Array); ok {
		p.arr = at
	}
	return p
}

func flatArray(a *types.Array) (int64, types.Type) {
	n, el := a.Len(), a.Elem()
	if b, ok := el.Underlying().(*types.Array); ok {
		m, e := flatArray(b)
		return n * m, e
	}
	return n, el
}

// symbolicV makes an unconstrained value of type t. idx are the index
// arguments (instance and position symbols) it depends on.
func (it *Interp) symbolicV(st *State, name string, t types.Type, inst, idx []*Poly) Value {
	args := append(append([]*Poly(nil), inst...), idx...)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Uint8:
			return ByteV{selB(name, args...)}
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(u)
			appRange[name] = [2]*Poly{lo, hi}
			if len(args) == 0 {
				return IntV{symP(name)}
			}
			return IntV{appP(name, args...)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{atomC(name, args...)}
		case u.Info()&types.IsString != 0:
			appRange[name+".len"] = [2]*Poly{konst(0), lenMax}
			return StringV{s: name, ln: appP(name+".len", args...)}
		}
	case *types.Slice:
		site := name + "[]"
		appRange[name+".len"] = [2]*Poly{konst(0), lenMax}
		appRange[name+".cap"] = [2]*Poly{konst(0), lenMax}
		appRange[name+".off"] = [2]*Poly{konst(0), konst(0)}
		ln, cp := appP(name+".len", args...), appP(name+".cap", args...)
		if st.objs[site] == nil {
			var ia []*Poly
			for k := range args {
				ia = append(ia, atomPoly(iv(k)))
			}
			o := &Obj{site: site, elem: u.Elem(), ninst: len(args), ln: appP(name+".cap", ia...), kind: "unknown"}
			o.base = it.symbolicV(st, site, u.Elem(), ia, []*Poly{jP})
			if s2, ok := u.Elem().Underlying().(*types.Struct); ok {
				it.structObjs(st, site, s2, o.ln, o.ninst, "unknown")
			}
			st.objs[site] = o
		}
		nn := name + ".nil"
		registerNil(nn, func(as []*Poly) []*Cond { return []*Cond{mkEQ(appP(name+".len", as...))} })
		registerCap(name)
		return SliceV{obj: &Ref{site, args}, off: konst(0), ln: ln, cp: cp, isNil: atomC(nn, args...)}
	case *types.Pointer:
		site := name + "*"
		if st.objs[site] == nil {
			var ia []*Poly
			for k := range args {
				ia = append(ia, atomPoly(iv(k)))
			}
			o := &Obj{site: site, elem: u.Elem(), ninst: len(args), ln: konst(1), kind: "unknown"}
			st.objs[site] = o
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				n, el := flatArray(at)
				o.ln, o.elem = konst(n), el
				o.base = it.symbolicV(st, site, el, ia, []*Poly{jP})
			} else if s2, ok := u.Elem().Underlying().(*types.Struct); ok {
				it.structObjs(st, site, s2, konst(1), o.ninst, "unknown")
				o.base = OpaqueV{tag: "struct"}
			} else {
				o.base = it.symbolicV(st, site, u.Elem(), ia, []*Poly{jP})
			}
		}
		p := ptrTo(site, args, u.Elem())
		return p
	case *types.Interface:
		return IfaceV{nilc: atomC(name+".nil", args...), tag: name}
	case *types.Struct:
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, it.symbolicV(st, fmt.Sprintf("%s.f%d", name, i), u.Field(i).Type(), inst, idx))
		}
		return r
	case *types.Chan:
		return ChanV{obj: &Ref{name + ".chan", args}}
	case *types.Map:
		return MapV{obj: &Ref{name + ".map", args}, isNil: condFalse}
	case *types.Array:
		return OpaqueV{tag: name}
	}
	return OpaqueV{tag: name}
}

// structObjs creates the field objects of a symbolic struct object.
func (it *Interp) structObjs(st *State, site string, s *types.Struct, ln *Poly, ninst int, kind string) {
	var ia []*Poly
	for k := 0; k < ninst; k++ {
		ia = append(ia, atomPoly(iv(k)))
	}
	for i := 0; i < s.NumFields(); i++ {
		fs := fmt.Sprintf("%s.f%d", site, i)
		if st.objs[fs] != nil {
			continue
		}
		ft := s.Field(i).Type()
		o := &Obj{site: fs, elem: ft, ninst: ninst, ln: ln, kind: kind}
		st.objs[fs] = o
		if s2, ok := ft.Underlying().(*types.Struct); ok {
			it.structObjs(st, fs, s2, ln, ninst, kind)
			o.base = OpaqueV{tag: "struct"}
			continue
		}
		if at, ok := ft.Underlying().(*types.Array); ok {
			n, el := flatArray(at)
			o.ln, o.elem = konst(n), el
			ft = el
		}
		o.base = it.symbolicV(st, fs, ft, ia, []*Poly{jP})
	}
}

func typeRange(u *types.Basic) (*Poly, *Poly) {
	switch u.Kind() {
	case types.Int8:
		return konst(-128), konst(127)
	case types.Int16:
		return konst(-32768), konst(32767)
	case types.Int32:
		return konst(-1 << 31), konst(1<<31 - 1)
	case types.Int, types.Int64:
		return nil, nil // 64 bits do not fit the coefficients; an unbounded value covers them
	case types.Uint8:
		return konst(0), konst(255)
	case types.Uint16:
		return konst(0), konst(65535)
	case types.Uint32:
		return konst(0), konst(1<<32 - 1)
	}
	return konst(0), nil
}

// facts implied by boolean atoms, and length <= capacity
var impliedBy = map[string]func([]*Poly) []*Cond{}
var capOf = map[string]string{} // len name -> cap name

func registerNil(name string, fn func([]*Poly) []*Cond) { impliedBy[name] = fn }
func registerCap(name string)                           { capOf[name+".len"] = name + ".cap" }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
