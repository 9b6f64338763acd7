package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01, R03, R04: the generators.

func init() {
	const tech = "abstract interpretation with a relational domain of integer, byte and key-stream terms; who-may-access analysis of the generator's fields"
	register("R01", tech, checkR01)
	register("R03", tech, checkR03)
	register("R04", tech, checkR04)
}

// genSpec names a generator: its package, type and constructors.
type genSpec struct {
	pkg, typ string
	ctors    []genCtor
}

type genCtor struct {
	name  string
	keyed bool // takes key and IV, 32 bytes
}

var csprngGen = genSpec{"csprng", "CSPRNG", []genCtor{{"NewCSPRNG", false}, {"NewCSPRNGWithKeyIV", true}}}
var randomizerGen = genSpec{"randomizer", "Randomizer", []genCtor{{"NewRandomizer", false}}}

// genState is a generator after an arbitrary history of reads.
type genState struct {
	w    *World
	it   *Interp
	st0  *State // as constructed
	st   *State // any later moment
	recv PtrV
	arg  *SliceV
	pos  map[string]*Atom // the cells that reads change, and their symbols
}

func (g genSpec) method(w *World, r *Report, name string, params ...string) *ssa.Function {
	return w.fnOf(r, g.pkg+"."+g.typ+"."+name, append([]string{"*" + modPath + "/" + g.pkg + "." + g.typ}, params...)...)
}

// construct analyses a constructor and returns the states it leaves a generator in.
func (g genSpec) construct(r *Report, w *World, c genCtor) []*genState {
	var ps []string
	if c.keyed {
		ps = []string{"[]byte"}
	}
	fn := w.fnOf(r, g.pkg+"."+c.name, ps...)
	if fn == nil {
		return nil
	}
	it := newInterp(w, g.pkg)
	it.root = "/new"
	st := newState()
	args := it.entryArgs(st, fn)
	var arg *SliceV
	if c.keyed {
		s := args[0].(SliceV)
		arg = &s
		st.assume(mkEq(s.ln, konst(32)), mkGE(sub(s.cp, konst(32))))
	}
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return nil
	}
	a.noAlarms("no run-time panic", nil)
	var out []*genState
	for k, res := range a.res {
		nm := sprintf("%s, path %d", short(a.name), k+1)
		if res.panic != "" {
			r.oblige(res.st.ctx.infeasible(), "constructor returns", nm, res.pos, "panics (%s) although the random source works", res.panic)
			continue
		}
		p, ok := res.val.(PtrV)
		if !r.oblige(ok && p.obj != nil && p.isNil == condFalse && p.obj.site != "", "constructor returns a generator", nm, res.pos, "returns %s", showV(res.val)) {
			continue
		}
		out = append(out, &genState{w: w, it: it, st0: res.st, recv: p, arg: arg})
	}
	r.oblige(len(out) > 0, "constructor returns a generator", short(a.name), w.pos(fn.Pos()), "no path returns")
	return out
}

// changed lists the objects of a that have other contents in b.
func changed(x *Ctx, a, b *State) []string {
	var out []string
	for _, k := range sortedKeys(a.objs) {
		o := b.objs[k]
		if o == nil || a.objs[k] == o || a.objs[k].kind == "model" || isModelType(a.objs[k].elem) && len(o.ents) == 0 && len(a.objs[k].ents) == 0 && a.objs[k].base == o.base {
			continue
		}
		if !eqContent(x, a.objs[k], o) {
			out = append(out, k)
		}
	}
	return out
}

// history generalises the constructed state to the one after any number of reads:
// the cells that a read changes hold unknown non-negative numbers.
func (g genSpec) history(r *Report, s *genState) bool {
	read := g.method(s.w, r, "Read", "[]byte")
	if read == nil {
		return false
	}
	st := s.st0.clone()
	s.it.root = "/first"
	buff := s.it.symbolicV(st, "in:first", types.NewSlice(types.Typ[types.Uint8]), nil, nil)
	base := st.clone()
	a := analyse(r, s.it, read, st, []Value{s.recv, buff})
	if !a.ok {
		return false
	}
	s.pos = map[string]*Atom{}
	s.st = s.st0.clone()
	for _, res := range a.res {
		if res.panic != "" {
			r.oblige(res.st.ctx.infeasible(), "reading never panics", short(a.name), res.pos, "panics: %s", res.panic)
			continue
		}
		for _, k := range changed(res.st.ctx, base, res.st) {
			if strings.HasPrefix(k, "in:first") || s.pos[k] != nil {
				continue
			}
			o := base.objs[k]
			if !r.oblige(o != nil && o.ln.isC(1) && isIntT(o.elem), "a read changes only its buffer and position", short(a.name), res.pos, "changes %s", k) {
				return false
			}
			sym := symAtom("pos:" + k)
			s.pos[k] = sym
			n := o.clone()
			n.ents, n.base = nil, IntV{atomPoly(sym)}
			s.st.objs[k] = n
			// fewer than 2^62 bytes are ever read
			s.st.assume(mkGE(atomPoly(sym)), mkGE(sub(konst(1<<62), atomPoly(sym))))
		}
	}
	return true
}

// streams: a read returns the key stream from the current position on and moves it.
func (g genSpec) streams(r *Report, s *genState, keyed bool) {
	read := g.method(s.w, r, "Read", "[]byte")
	st := s.st.clone()
	s.it.root = "/read"
	s.it.alarms = map[string]*Alarm{}
	buff := s.it.symbolicV(st, "in:buff", types.NewSlice(types.Typ[types.Uint8]), nil, nil).(SliceV)
	// the buffer exists as an object even when nothing reads it
	base := st.clone()
	a := analyse(r, s.it, read, st, []Value{s.recv, buff})
	if !a.ok {
		return
	}
	a.noAlarms("reading never panics", nil)
	if !r.oblige(len(s.pos) > 0, "reads advance", short(a.name), s.w.pos(read.Pos()), "a read changes nothing in the generator: it returns the same bytes again") {
		return
	}
	n := 0
	for k, res := range a.res {
		nm := sprintf("%s, path %d", short(a.name), k+1)
		if res.panic != "" {
			r.oblige(res.st.ctx.infeasible(), "reading never panics", nm, res.pos, "panics (%s)", res.panic)
			continue
		}
		x := res.st.ctx
		tv, ok := res.val.(TupleV)
		if ok = ok && len(tv) == 2; ok {
			e, isE := tv[1].(IfaceV)
			ok = isE && x.prove(e.nilc) && x.prove(mkEq(asInt(tv[0]), buff.ln))
		}
		r.oblige(ok, "reads fill the whole buffer", nm, res.pos, "returns %s for a buffer of %s", showV(res.val), buff.ln)
		for _, c := range changed(x, base, res.st) {
			if s.pos[c] == nil && c != buff.obj.site {
				r.oblige(false, "a read changes only its buffer and position", nm, res.pos, "changes %s", c)
			}
		}
		j := symP("#k")
		y := x.assume(mkGE(j), mkLT(j, buff.ln))
		if y.infeasible() {
			continue
		}
		o := res.st.objs[buff.obj.site]
		// behind the buffer nothing changes
		z := x.assume(mkGE(j), mkGE(sub(j, buff.ln)), mkLT(j, buff.cp))
		if !z.infeasible() {
			was := ByteV{selB("in:buff[]", add(j, buff.off))}
			for _, c := range cellCases(z, o, nil, add(j, buff.off)) {
				w := z.assume(c.g)
				r.oblige(w.infeasible() || eqVal(w, c.v, was), "a read changes only its buffer and position", nm, res.pos, "writes %s behind the buffer", showV(c.v))
			}
		}
		a.casesOf(y, res.st, buff, j, func(x *Ctx, v Value) {
			b := x.simpB(asByte(v))
			ks := b.single()
			if !r.oblige(ks != nil && ks.name == "ks:CTR" && len(ks.bs) == 2 && len(ks.ps) == 1, "reads return key stream", nm, res.pos, "a byte is %s", b) {
				return
			}
			n++
			at := sub(x.simp(ks.ps[0]), j)
			if !r.oblige(!at.has(symAtom("#k")), "reads return key stream in order", nm, res.pos, "byte #k is key stream byte %s", ks.ps[0]) {
				return
			}
			first, then := at, at
			for c, sym := range s.pos {
				first = substP(first, sym, x.simp(asInt(objCell(s.st0.objs[c]))))
				then = substP(then, sym, x.simp(asInt(objCell(res.st.objs[c]))))
			}
			r.oblige(x.prove(mkEq(first, konst(0))), "the key stream starts at its beginning", nm, res.pos, "the first byte read is key stream byte %s", first)
			r.oblige(x.prove(mkEq(x.simp(then), add(at, buff.ln))), "reads are consecutive", nm, res.pos, "after a read of %s bytes at %s the next starts at %s", buff.ln, at, then)
			g.keyed(r, s, x, nm, res.pos, ks.bs[0], ks.bs[1], keyed)
		})
	}
	r.oblige(n > 0, "reads return key stream", short(a.name), s.w.pos(read.Pos()), "no path returns key stream")
}

func objCell(o *Obj) Value {
	if len(o.ents) > 0 {
		return o.ents[0].val
	}
	return o.base
}

// keyed: key and IV are those given to the constructor, or all fresh random bytes.
func (g genSpec) keyed(r *Report, s *genState, x *Ctx, nm, pos string, key, iv *BT, keyed bool) {
	kb := atomPoly(kbv)
	in := x.assume(mkGE(kb), mkLT(kb, konst(16)))
	if keyed {
		var arg func(at *Poly) Value
		base := s.arg.off
		name := s.arg.obj.site
		arg = func(at *Poly) Value { return ByteV{selB(name, add(base, at))} }
		r.oblige(eqVal(in, ByteV{key}, arg(kb)), "the key is the first 16 bytes given", nm, pos, "byte #kb of the key is %s", key)
		r.oblige(eqVal(in, ByteV{iv}, arg(addc(kb, 16))), "the IV is the last 16 bytes given", nm, pos, "byte #kb of the IV is %s", iv)
		return
	}
	kd, vd := drawAtom(in.simpB(key)), drawAtom(in.simpB(iv))
	if !r.oblige(kd != nil && strings.HasPrefix(kd.name, "sec:"), "the key is drawn from the secure source", nm, pos, "byte #kb of the key is %s", key) ||
		!r.oblige(vd != nil && strings.HasPrefix(vd.name, "sec:"), "the IV is drawn from the secure source", nm, pos, "byte #kb of the IV is %s", iv) {
		return
	}
	o := symP("#ko")
	two := in.assume(mkGE(o), mkLT(o, konst(16)))
	ne := two.assume(mkNE(sub(o, kb)))
	sub1 := func(a *Atom) *Atom { return substB(atomBT(a), kbv, o).single() }
	for _, d := range []*Atom{kd, vd} {
		r.oblige(drawsDiffer(ne, d, sub1(d)), "key and IV bytes are different draws", nm, pos, "two bytes of the key or the IV may be one draw: %s", d)
	}
	r.oblige(drawsDiffer(two, kd, sub1(vd)), "key and IV bytes are different draws", nm, pos, "key and IV share a draw: %s, %s", kd, vd)
}

// ---------- who may access the fields ----------

// confined: after construction, only Read and what only Read calls touch the
// fields of the generator, and each touches of what changes is one atomic
// read-modify-write, or under a lock of the generator.
func (g genSpec) confined(r *Report, w *World) {
	sp := w.spkg[g.pkg]
	tn, _ := sp.Pkg.Scope().Lookup(g.typ).(*types.TypeName)
	if !r.oblige(tn != nil, "generator type exists", g.pkg+"."+g.typ, "", "no such type") {
		return
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !r.oblige(ok, "generator type exists", g.pkg+"."+g.typ, "", "not a struct") {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		r.oblige(!st.Field(i).Exported(), "generator state is private", g.pkg+"."+g.typ+"."+st.Field(i).Name(), w.pos(st.Field(i).Pos()), "the field is exported")
	}
	type access struct {
		fn    *ssa.Function
		in    ssa.Instruction
		field int
	}
	var acc []access
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	root := func(fn *ssa.Function) *ssa.Function {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn
	}
	for _, p := range w.spkg {
		for _, fn := range allFuncs(w.prog, p) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							if callers[f] == nil {
								callers[f] = map[*ssa.Function]bool{}
							}
							callers[f][root(fn)] = true
						}
					}
					f := -1
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), tn.Type()) {
							f = x.Field
						}
					case *ssa.Field:
						if types.Identical(x.X.Type(), tn.Type()) {
							f = x.Field
						}
					case *ssa.UnOp:
						if types.Identical(x.Type(), tn.Type()) {
							f = 0
							r.oblige(false, "the generator is not copied", short(fn.RelString(nil)), w.instrPos(in), "copies a %s", g.typ)
						}
					}
					if f >= 0 {
						acc = append(acc, access{fn, in, f})
					}
				}
			}
		}
	}
	isCtor := func(fn *ssa.Function) bool {
		for _, c := range g.ctors {
			if fn == sp.Func(c.name) {
				return true
			}
		}
		return false
	}
	// the family of Read and of the constructors: functions only they refer to
	read := w.findFn(g.pkg + "." + g.typ + ".Read")
	if read == nil {
		return
	}
	var within func(fn *ssa.Function, ok func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool
	within = func(fn *ssa.Function, ok func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
		fn = root(fn)
		if ok(fn) {
			return true
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if fn.Object() != nil && fn.Object().Exported() || len(callers[fn]) == 0 {
			return false
		}
		for c := range callers[fn] {
			if !within(c, ok, seen) {
				return false
			}
		}
		return true
	}
	isRead := func(f *ssa.Function) bool { return f == read }
	n := 0
	locks := newLockInfo(w, tn.Type())
	written := map[int]bool{}
	var late []access
	for _, a := range acc {
		nm := sprintf("%s of field %s", short(a.fn.RelString(nil)), st.Field(a.field).Name())
		if within(a.fn, isCtor, map[*ssa.Function]bool{}) {
			continue
		}
		n++
		r.oblige(within(a.fn, isRead, map[*ssa.Function]bool{}), "only Read uses the key stream and position", nm, w.instrPos(a.in), "accesses the generator's state outside Read")
		late = append(late, a)
		if fa, ok := a.in.(*ssa.FieldAddr); ok && changes(fa) {
			written[a.field] = true
		}
	}
	r.count("field accesses", n)
	// one atomic access of each written field on any path, or everything under the lock
	counts := map[*ssa.Function]int{}
	for _, a := range late {
		if !written[a.field] {
			continue
		}
		nm := sprintf("%s of field %s", short(a.fn.RelString(nil)), st.Field(a.field).Name())
		if isLockType(st.Field(a.field).Type()) {
			continue
		}
		if locks.held(a.in) {
			r.oblige(true, "concurrent reads get different key stream", nm, "", "")
			continue
		}
		fa, ok := a.in.(*ssa.FieldAddr)
		atomic := ok && onlyAtomicAdd(fa)
		r.oblige(atomic, "concurrent reads get different key stream", nm, w.instrPos(a.in), "a field that reads change is accessed neither by one atomic addition nor under a lock of the generator")
		if atomic {
			counts[root(a.fn)] += len(*fa.Referrers())
			r.oblige(counts[root(a.fn)] <= 1 && !inLoop(fa.Block()), "concurrent reads get different key stream", nm+" once", w.instrPos(a.in), "takes several atomic steps: another read can come between them")
		}
	}
	r.oblige(n > 0, "only Read uses the key stream and position", g.pkg+"."+g.typ, "", "no field access found")
	g.streamsGuarded(r, w, locks, st, late, written, func(a int) (*ssa.Function, ssa.Instruction, int) { return late[a].fn, late[a].in, late[a].field }, len(late))
}

// streamsGuarded: a cipher stream object keeps its own position, so its use is
// a change too; only a stateless AES-CTR object may be used without a lock.
func (g genSpec) streamsGuarded(r *Report, w *World, locks *lockInfo, st *types.Struct, _ interface{}, _ map[int]bool, at func(int) (*ssa.Function, ssa.Instruction, int), n int) {
	if g.pkg != "csprng" {
		return // the stand-alone randomizer does not promise concurrent use
	}
	for i := 0; i < n; i++ {
		fn, in, f := at(i)
		t := st.Field(f).Type().String()
		if strings.HasSuffix(t, "cipher.Stream") || strings.HasSuffix(t, "bytes.Buffer") || strings.HasSuffix(t, "rand.Rand") {
			r.oblige(locks.held(in), "concurrent reads get different key stream", sprintf("%s of field %s", short(fn.RelString(nil)), st.Field(f).Name()), w.instrPos(in), "uses a stream, which has a position of its own, without a lock of the generator")
		}
	}
}

// changes reports whether the field may be written through this address.
func changes(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		if x, ok := u.(*ssa.UnOp); ok && x.X == ssa.Value(fa) {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		return true
	}
	return false
}

func onlyAtomicAdd(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil {
			return false
		}
		nm := f.String()
		if !strings.HasPrefix(nm, "sync/atomic.Add") && !(strings.HasPrefix(nm, "(*sync/atomic.") && strings.HasSuffix(nm, ").Add")) {
			return false
		}
	}
	return true
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func isLockType(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// lockInfo: must-held analysis of the mutexes that are fields of a type.
type lockInfo struct {
	w  *World
	t  types.Type
	in map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func newLockInfo(w *World, t types.Type) *lockInfo {
	return &lockInfo{w: w, t: t, in: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
}

func (l *lockInfo) op(in ssa.Instruction) int {
	c, ok := in.(*ssa.Call)
	if !ok {
		return 0
	}
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return 0
	}
	fa, ok := c.Call.Args[0].(*ssa.FieldAddr)
	if !ok {
		return 0
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), l.t) {
		return 0
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return -1
	}
	return 0
}

func (l *lockInfo) held(at ssa.Instruction) bool {
	fn := at.Parent()
	m := l.in[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			m[b] = b != fn.Blocks[0] && b != fn.Recover
		}
		for ch := true; ch; {
			ch = false
			for _, b := range fn.Blocks {
				if !m[b] {
					continue
				}
				for _, p := range b.Preds {
					if !l.after(p, m[p], nil) {
						m[b], ch = false, true
						break
					}
				}
			}
		}
		l.in[fn] = m
	}
	return l.after(at.Block(), m[at.Block()], at)
}

func (l *lockInfo) after(b *ssa.BasicBlock, h bool, until ssa.Instruction) bool {
	for _, in := range b.Instrs {
		if in == until {
			return h
		}
		switch l.op(in) {
		case 1:
			h = true
		case -1:
			h = false
		}
	}
	return h
}

// ---------- the checks ----------

const genText = "The constructors are interpreted; the cells that a read changes are then generalised to unknown numbers, which stands for any history of reads, and Read is interpreted from there over a buffer of any length, contents and capacity. "

func checkR01(r *Report) {
	r.rule(genText + "Each byte of the buffer must be the AES-CTR key stream byte P+k for a position P that is zero after construction and grows by the number of bytes read; key and IV must be the bytes given to the constructor, or all different draws of the secure source; nothing else may change, neither behind the buffer nor in the generator. The fields of the generator are private, used only by Read after construction, and what changes is accessed by a single atomic addition or under a lock, so concurrent reads take disjoint ranges.")
	for _, c := range shamirConfigs(r) {
		w := load(c)
		csprngGen.stream(r, w)
		csprngGen.confined(r, w)
	}
	r.atLeast("reads are consecutive", 2)
	r.atLeast("only Read uses the key stream and position", 2)
}

func (g genSpec) stream(r *Report, w *World) {
	for _, ct := range g.ctors {
		for _, s := range g.construct(r, w, ct) {
			if g.history(r, s) {
				g.streams(r, s, ct.keyed)
			}
		}
	}
}

// distinct: fn(n) returns n pairwise distinct bytes, each at most top(n), without panicking.
func (g genSpec) distinct(r *Report, s *genState, name, rule string, top func(n *Poly) *Poly) {
	fn := g.method(s.w, r, name, "byte")
	if fn == nil {
		return
	}
	st := s.st.clone()
	s.it.root = "/" + name
	s.it.alarms = map[string]*Alarm{}
	n := s.it.symbolicV(st, "in:n", types.Typ[types.Uint8], nil, nil)
	a := analyse(r, s.it, fn, st, []Value{s.recv, n})
	if !a.ok {
		return
	}
	a.noAlarms("no run-time panic", nil)
	a.noPanics()
	np := intOf(asByte(n))
	found := 0
	for k, res := range a.res {
		nm := sprintf("%s, path %d", short(a.name), k+1)
		if res.panic != "" {
			continue
		}
		out, ok := res.val.(SliceV)
		x := res.st.ctx
		if !r.oblige(ok && x.prove(mkEq(out.ln, np)), rule+": count", nm, res.pos, "returns %s", showV(res.val)) {
			continue
		}
		i, j := symP("#p"), symP("#q")
		y := x.assume(mkGE(i), mkLT(i, out.ln))
		if y.infeasible() || out.obj == nil {
			continue
		}
		found++
		a.casesOf(y, res.st, out, i, func(y *Ctx, v Value) {
			b := asByte(v)
			below := y.prove(mkLE(intOf(b), top(np))) || top(np).isC(254) && y.prove(notC(mkBEQ(bxor(b, bconst(255)))))
			r.oblige(below, rule+": range", nm, res.pos, "an element %s may exceed %s", b, top(np))
			z := y.assume(mkGE(j), mkLT(j, i))
			if z.infeasible() {
				return
			}
			a.casesOf(z, res.st, out, j, func(z *Ctx, u Value) {
				r.oblige(z.prove(notC(mkBEQ(bxor(b, asByte(u))))), rule+": distinct", nm, res.pos, "two elements may be equal: %s and %s", b, showV(u))
			})
		})
	}
	r.oblige(found > 0, rule+": count", short(a.name), s.w.pos(fn.Pos()), "no path returns elements")
}

func checkR03(r *Report) {
	r.rule(genText + "Perm and GetUniqueBytes are interpreted from the same states for an arbitrary count: every run-time check is a proof obligation, the result has exactly the requested length, its elements are pairwise distinct, and below the count (Perm) or below 255 (GetUniqueBytes). A loop without a bound must draw fresh random bytes in every round.")
	for _, c := range shamirConfigs(r) {
		w := load(c)
		for _, ct := range csprngGen.ctors {
			for _, s := range csprngGen.construct(r, w, ct) {
				if !csprngGen.history(r, s) {
					continue
				}
				csprngGen.distinct(r, s, "Perm", "permutation", func(n *Poly) *Poly { return addc(n, -1) })
				csprngGen.distinct(r, s, "GetUniqueBytes", "unique bytes", func(n *Poly) *Poly { return konst(254) })
			}
		}
	}
	r.atLeast("permutation: distinct", 1)
	r.atLeast("unique bytes: distinct", 1)
}

func checkR04(r *Report) {
	r.rule(genText + "Reads must return consecutive AES-CTR key stream as in R01. Perm is interpreted for an arbitrary count: every run-time check is a proof obligation, the result has exactly that length, and its elements are pairwise distinct and below the count.")
	for _, c := range shamirConfigs(r) {
		w := load(c)
		randomizerGen.stream(r, w)
		for _, ct := range randomizerGen.ctors {
			for _, s := range randomizerGen.construct(r, w, ct) {
				if randomizerGen.history(r, s) {
					randomizerGen.distinct(r, s, "Perm", "permutation", func(n *Poly) *Poly { return addc(n, -1) })
				}
			}
		}
	}
	r.atLeast("reads are consecutive", 1)
	r.atLeast("permutation: distinct", 1)
}
