package main

// Loop summaries. A loop is summarised by closed forms, over the iteration
// number κ, of everything its body changes: header phis, scalar cells and array
// contents. Closed forms are guessed from one symbolic pass over the body and
// then verified to be inductive; what cannot be verified is forgotten (havoc).

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type slotMode int

const (
	smInv     slotMode = iota // same value in every iteration
	smGeneric                 // unknown, components are $ symbols
	smRec                     // byte recurrence: the value is an U atom
	smClosed
	smHavoc
)

type comp struct {
	sym    *Atom
	init   *Poly
	closed *Poly
}
type slot struct {
	phi   *ssa.Phi
	site  string
	init  Value
	mode  slotMode
	cs    []*comp
	h     Value
	name  string
	lobj  string // slice slot whose backing object changes: site of the virtual object
	tried map[string]bool
}

type objHyp struct {
	site   string
	init   *Obj // nil: born in the loop
	mode   slotMode
	h      *Obj
	lobj   *slot
	failed bool
	cell   *Poly // havoc of this one cell only
	perm   bool  // h is a permutation of init
	noCell bool
}

type loopRun struct {
	f     *frame
	L     *Loop
	p0    *Path
	from  *ssa.BasicBlock
	name  string
	k     *Atom
	kP    *Poly
	base  *Ctx
	slots []*slot
	objs  map[string]*objHyp
	inv   []*Cond
	invS  map[*Cond]bool
	rankP *Poly // P(κ) >= 0 on every back path
	rankA *Poly
	n     *Poly
	nofor map[*Cond]bool
	dead  bool
	lasts bool // separate the paths that end at the next header test
	rec   record
}

func dbgLoop() bool { return os.Getenv("SA_LOOP") != "" }

func (r *loopRun) log(format string, a ...interface{}) {
	if dbgLoop() {
		fmt.Fprintf(os.Stderr, "[%s] %s\n", r.name, fmt.Sprintf(format, a...))
	}
}

func kSubst(k *Atom, by *Poly) *Subst {
	s := newSubst()
	s.sym[k] = by
	return s
}

func (f *frame) doLoop(p *Path, L *Loop, from *ssa.BasicBlock) []*exit {
	name := fmt.Sprintf("%s/%s.b%d", f.cs, f.fn.Name(), L.header.Index)
	r := &loopRun{f: f, L: L, p0: p, from: from, name: name, base: p.st.ctx, objs: map[string]*objHyp{}, invS: map[*Cond]bool{}, nofor: map[*Cond]bool{}}
	r.k = symAtom("κ" + name)
	r.kP = atomPoly(r.k)
	// no loop runs 2^60 times (at a round per nanosecond that takes 36 years)
	appRange[r.k.name] = [2]*Poly{konst(0), konst(1 << 60)}
	f.it.stats.loops[f.it.posOf(f.fn.Pos())+name] = true
	if c := f.it.conc; c != nil && c.g.region[L.header.Instrs[0]] {
		c.loops[r.k] = L
	}
	for _, in := range L.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range L.header.Preds {
			if pr == from {
				r.addSlot(&slot{phi: ph, init: f.val(p, ph.Edges[k]), name: "$" + name + "." + ph.Name()})
				break
			}
		}
	}
	// what the loop modified the last time it was analysed it modifies again
	hint := f.it.modified[name]
	for _, k := range sortedKeys(hint) {
		r.registerObj(k, p.st.objs[k])
	}
	out := r.run()
	if len(r.objs)+len(r.slots) > 0 {
		if f.it.modified == nil {
			f.it.modified = map[string]map[string]bool{}
		}
		m := map[string]bool{}
		for k := range r.objs {
			m[k] = true
		}
		for _, s := range r.slots {
			if s.phi == nil {
				m[s.site] = true
			}
		}
		f.it.modified[name] = m
	}
	return out
}

func (r *loopRun) registerObj(k string, old *Obj) {
	if old == nil {
		r.objs[k] = &objHyp{site: k, mode: smGeneric}
		return
	}
	scalar := old.ln.isC(1) && old.ninst == 0 && len(old.ents) == 0
	if scalar {
		switch old.base.(type) {
		case IntV, ByteV, BoolV, SliceV:
		default:
			scalar = false
		}
	}
	if scalar {
		r.addSlot(&slot{site: k, init: old.base, name: "$" + r.name + "." + k})
		return
	}
	h := &objHyp{site: k, init: old, mode: smGeneric, h: old}
	if isByteT(old.elem) {
		h.h = r.unkObj(old, "U:"+r.name+":"+k)
	}
	r.objs[k] = h
}

func (r *loopRun) addSlot(s *slot) {
	s.mode = smGeneric
	s.tried = map[string]bool{}
	mk := func(init *Poly, sfx string) *Poly {
		c := &comp{sym: symAtom(s.name + sfx), init: init}
		s.cs = append(s.cs, c)
		return atomPoly(c.sym)
	}
	switch x := s.init.(type) {
	case IntV:
		s.h = IntV{mk(x.p, "")}
	case ByteV:
		s.h = ByteV{bint(mk(intOf(x.b), ""))}
	case BoolV:
		s.h = BoolV{atomC(s.name)}
	case SliceV:
		if x.obj == nil {
			s.h, s.mode = x, smInv
		} else {
			s.h = SliceV{obj: x.obj, off: mk(x.off, ".o"), ln: mk(x.ln, ".l"), cp: mk(x.cp, ".c"), isNil: x.isNil}
		}
	default:
		s.h, s.mode = s.init, smInv
	}
	// syntactic induction variables get their closed form at once
	if s.phi != nil {
		if c := r.syntacticStep(s.phi); c != nil {
			s.cs[0].closed = add(s.cs[0].init, mul(c, r.kP))
			s.close()
		}
	}
	r.slots = append(r.slots, s)
}

func (r *loopRun) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && r.L.blocks[in.Block()]
}

func (r *loopRun) syntacticStep(ph *ssa.Phi) *Poly {
	b, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	var step *Poly
	for k, pr := range r.L.header.Preds {
		if !r.L.blocks[pr] {
			continue
		}
		bo, ok := ph.Edges[k].(*ssa.BinOp)
		if !ok || (bo.Op.String() != "+" && bo.Op.String() != "-") {
			return nil
		}
		var o ssa.Value
		if bo.X == ph {
			o = bo.Y
		} else if bo.Y == ph && bo.Op.String() == "+" {
			o = bo.X
		}
		if o == nil || r.inLoop(o) {
			return nil
		}
		c := asInt(r.f.val(r.p0, o))
		if bo.Op.String() == "-" {
			c = scale(c, -1)
		}
		if step != nil && step != c {
			return nil
		}
		step = c
	}
	if step == nil {
		return nil
	}
	if _, ok := step.isConst(); !ok && isByteT(ph.Type()) {
		return nil
	}
	return step
}

// close installs the closed forms of the components.
func (s *slot) close() {
	for _, c := range s.cs {
		if c.closed == nil {
			return
		}
	}
	switch x := s.h.(type) {
	case IntV:
		s.h = IntV{s.cs[0].closed}
	case ByteV:
		s.h = ByteV{bint(s.cs[0].closed)}
	case SliceV:
		x.off, x.ln, x.cp = s.cs[0].closed, s.cs[1].closed, s.cs[2].closed
		s.h = x
	}
	s.mode = smClosed
}

func (r *loopRun) havocSlot(s *slot) {
	r.log("havoc slot %s", s.name)
	args := append(append([]*Poly(nil), r.p0.st.inst...), r.kP)
	s.mode = smHavoc
	switch x := s.init.(type) {
	case IntV:
		nm := "hv:" + s.name
		t := types.Type(types.Typ[types.Int])
		if s.phi != nil {
			t = s.phi.Type()
		} else if o := r.p0.st.objs[s.site]; o != nil {
			t = o.elem
		}
		lo, hi := typeRange(t.Underlying().(*types.Basic))
		appRange[nm] = [2]*Poly{lo, hi}
		s.h = IntV{appP(nm, args...)}
	case ByteV:
		s.h = ByteV{selB("hv:"+s.name, args...)}
	case BoolV:
		s.h = BoolV{atomC("hv:"+s.name, args...)}
	case SliceV:
		if x.obj == nil {
			giveUp("loop at %s: a nil slice changes in a way that cannot be summarised", r.pos())
		}
		nm := "hv:" + s.name
		for _, q := range []string{".o", ".l", ".c"} {
			appRange[nm+q] = [2]*Poly{konst(0), lenMax}
		}
		capOf[nm+".l"] = nm + ".c"
		x.off, x.ln, x.cp = appP(nm+".o", args...), appP(nm+".l", args...), appP(nm+".c", args...)
		s.h = x
	default:
		giveUp("loop at %s: %T cannot be summarised", r.pos(), s.init)
	}
}

func (r *loopRun) pos() string {
	for _, in := range r.L.header.Instrs {
		if in.Pos().IsValid() {
			return r.f.it.posOf(in.Pos())
		}
	}
	for b := range r.L.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return r.f.it.posOf(in.Pos())
			}
		}
	}
	return r.f.fn.String()
}

// body runs over the loop body under the hypotheses; what it reports is kept
// aside until they are confirmed.
func (r *loopRun) body() (exits []*exit) {
	r.rec = r.f.it.recorded(func() { exits = r.body1() })
	return exits
}

func (r *loopRun) body1() []*exit {
	f := r.f
	q := r.p0.clone()
	q.st.inst = append(q.st.inst, r.kP)
	q.st.ctx = r.base.assume(mkGE(r.kP)).assume(r.inv...)
	if r.rankP != nil {
		q.st.ctx = q.st.ctx.assume(mkGE(add(r.rankP, r.rankA)))
	}
	for _, s := range r.slots {
		if s.mode == smGeneric {
			if _, ok := s.init.(ByteV); ok && len(s.cs) == 1 {
				q.st.assume(mkGE(atomPoly(s.cs[0].sym)), mkLE(atomPoly(s.cs[0].sym), konst(255)))
			}
			if x, ok := s.h.(SliceV); ok && x.obj != nil {
				q.st.assume(mkGE(x.off), mkGE(x.ln), mkLE(x.ln, x.cp))
			}
		}
		if s.phi != nil {
			q.env[s.phi] = s.h
		} else {
			o := q.st.objs[s.site].clone()
			o.ents, o.base = nil, s.h
			q.st.objs[s.site] = o
		}
	}
	for _, k := range sortedKeys(r.objs) {
		if h := r.objs[k]; h.h != nil {
			q.st.objs[k] = h.h
		}
	}
	start := 0
	for _, in := range r.L.header.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		start++
	}
	return f.runFrom(q, r.L.header, start, r.L)
}

func (r *loopRun) update(e *exit, s *slot) Value {
	if s.phi == nil {
		o := e.p.st.objs[s.site]
		if len(o.ents) != 0 {
			giveUp("scalar cell %s has conditional contents", s.site)
		}
		return o.base
	}
	for k, pr := range r.L.header.Preds {
		if pr == e.from {
			return r.f.val(e.p, s.phi.Edges[k])
		}
	}
	giveUp("no edge")
	return nil
}

// sliceView is the content of a slice as an object of its own (position 0 is
// the first element).
func (r *loopRun) sliceView(st *State, s SliceV, site string, inst []*Poly) *Obj {
	o := st.obj(s.obj)
	v := &Obj{site: site, elem: o.elem, ninst: 0, ln: s.ln, kind: "alloc"}
	x := st.ctx.assume(mkGE(jP), mkLT(jP, s.ln))
	cs := cellCases(x, o, s.obj.inst, add(s.off, jP))
	v.base = cs[len(cs)-1].v
	for k := len(cs) - 2; k >= 0; k-- {
		v.ents = append(v.ents, Entry{cs[k].g, cs[k].v})
	}
	return v
}

const maxRounds = 24

func (r *loopRun) run() []*exit {
	var exits []*exit
	for round := 0; ; round++ {
		if round > maxRounds {
			giveUp("loop at %s: no fixpoint", r.pos())
		}
		exits = r.body()
		var backs []*exit
		for _, e := range exits {
			if e.kind == exBack && !e.p.st.ctx.infeasible() {
				backs = append(backs, e)
			}
		}
		if r.lasts {
			exits, backs = r.lastRounds(exits, backs)
		}
		if len(backs) == 0 {
			r.log("round %d: no back edge", round)
			r.ended("bounded")
			return r.finishOnce()
		}
		if r.register(backs) {
			r.log("round %d: newly modified", round)
			continue
		}
		if ch, fork := r.ranking(exits, backs); fork != nil {
			return fork
		} else if ch {
			r.log("round %d: ranking %v n=%v", round, r.rankP, r.n)
			continue
		}
		if r.solveSlots(backs) {
			r.log("round %d: slots", round)
			for _, s := range r.slots {
				r.log("   %s mode %d = %s", s.name, s.mode, showV(s.h))
			}
			continue
		}
		if r.foralls(backs) {
			r.log("round %d: facts %v", round, r.inv)
			continue
		}
		if r.solveObjs(backs) {
			r.log("round %d: objects", round)
			for _, k := range sortedKeys(r.objs) {
				h := r.objs[k]
				if h.h == nil {
					continue
				}
				r.log("   %s mode %d base %s", k, h.mode, showV(h.h.base))
				for _, e := range h.h.ents {
					r.log("        %s -> %s", e.g, showV(e.val))
				}
			}
			continue
		}
		if !r.verify(backs) {
			r.log("round %d: verification failed", round)
			continue
		}
		break
	}
	r.f.it.commit(r.rec)
	if r.rankP == nil {
		r.open(backs0(exits))
	} else {
		r.ended("bounded")
	}
	for _, e := range backs0(exits) {
		if d := ownershipChange(r.p0.st, e.p.st); d != "" {
			in := r.L.header.Instrs[len(r.L.header.Instrs)-1]
			r.f.alarm("ownership", d+" in one round of the loop", in, e.p.st)
		}
	}
	r.f.it.stats.loops["ok:"+r.name] = true
	var out []*exit
	for _, e := range exits {
		if e.kind == exBack {
			continue
		}
		if x := r.leave(e); x != nil {
			out = append(out, x)
		}
	}
	return out
}

// lastRounds: a path back to the header after which the loop condition is
// certainly false leaves the loop there.
func (r *loopRun) lastRounds(exits, backs []*exit) ([]*exit, []*exit) {
	h := r.L.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || len(backs) < 2 || r.L.blocks[h.Succs[0]] == r.L.blocks[h.Succs[1]] {
		return exits, backs
	}
	last := map[*exit]*exit{}
	for _, e := range backs {
		if x := r.lastRound(e, br); x != nil {
			last[e] = x
		}
	}
	if len(last) == 0 || len(last) == len(backs) {
		return exits, backs
	}
	var out, left []*exit
	for _, e := range exits {
		if x := last[e]; x != nil {
			out = append(out, x)
			r.log("last round: %s", factsBeyond(e.p.st.ctx, r.base))
			continue
		}
		out = append(out, e)
	}
	for _, e := range backs {
		if last[e] == nil {
			left = append(left, e)
		}
	}
	return out, left
}

func (r *loopRun) lastRound(e *exit, br *ssa.If) *exit {
	h := r.L.header
	q := e.p.clone()
	start := 0
	r.f.phis(q, e.from, h)
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		start++
	}
	for _, in := range h.Instrs[start : len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
		rs, sp := r.f.tryExec(q, in)
		if sp != nil || rs != nil {
			return nil
		}
	}
	c := asBool(r.f.val(q, br.Cond))
	to := h.Succs[0]
	if r.L.blocks[to] {
		c, to = notC(c), h.Succs[1]
	}
	if !q.st.ctx.prove(c) {
		return nil
	}
	return &exit{kind: exEdge, p: q, from: h, to: to}
}

func (r *loopRun) generic() bool {
	for _, s := range r.slots {
		if s.mode == smGeneric {
			return true
		}
	}
	return false
}

// finishOnce: the back edge is never taken; the body runs at most once.
func (r *loopRun) finishOnce() []*exit {
	q := r.p0
	f := r.f
	p := q.clone()
	p.st.inst = append(p.st.inst, konst(0))
	for _, s := range r.slots {
		if s.phi != nil {
			p.env[s.phi] = s.init
		}
	}
	start := 0
	for _, in := range r.L.header.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		start++
	}
	var out []*exit
	for _, e := range f.runFrom(p, r.L.header, start, r.L) {
		if e.kind == exBack {
			if e.p.st.ctx.infeasible() {
				continue
			}
			giveUp("loop at %s: the first iteration differs from the later ones", r.pos())
		}
		e.p.st.inst = append([]*Poly(nil), r.p0.st.inst...)
		out = append(out, e)
	}
	return out
}

// register finds objects the body modifies that have no hypothesis yet.
func (r *loopRun) register(backs []*exit) bool {
	ch := false
	isSlot := map[string]bool{}
	for _, s := range r.slots {
		if s.phi == nil {
			isSlot[s.site] = true
		}
	}
	for _, e := range backs {
		for _, k := range sortedKeys(e.p.st.objs) {
			o := e.p.st.objs[k]
			if isSlot[k] || r.objs[k] != nil {
				continue
			}
			old := r.p0.st.objs[k]
			if old == o || old != nil && objKey(old) == objKey(o) {
				continue
			}
			if old == nil && strings.HasPrefix(k, "g:") && len(o.ents) == 0 {
				continue
			}
			if old == nil && o.ninst <= len(r.p0.st.inst) && o.kind != "alloc" && o.kind != "pooled" && o.kind != "map" && o.kind != "chan" {
				continue // a lazily created symbolic object
			}
			if old != nil && old.ln == o.ln && len(old.ents) > 0 && old.kind != "map" && eqContent(e.p.st.ctx, o, old) {
				continue // the same content, written differently
			}
			r.registerObj(k, old)
			ch = true
		}
	}
	return ch
}

func (r *loopRun) unkObj(o *Obj, nm string) *Obj {
	u := o.clone()
	u.ents = nil
	u.base = ByteV{r.unkAtom(o, nm)}
	u.tab = nil
	return u
}
func (r *loopRun) unkAtom(o *Obj, nm string) *BT {
	var as []*Poly
	for k := 0; k < o.ninst; k++ {
		as = append(as, atomPoly(iv(k)))
	}
	return selB(nm, append(as, jP)...)
}

// ---------- trip count ----------

func (r *loopRun) litsOf(e *exit) []*Cond {
	return factsBeyond(e.p.st.ctx, r.base)
}

func hasTemp(fv func(func(*Atom))) bool {
	bad := false
	fv(func(a *Atom) {
		if strings.HasPrefix(a.name, "$") || strings.HasPrefix(a.name, "U:") {
			bad = true
		}
	})
	return bad
}

func (r *loopRun) ranking(exits, backs []*exit) (bool, []*exit) {
	if r.rankP != nil {
		return false, nil
	}
	var cands []*Poly
	for _, c := range r.litsOf(backs[0]) {
		var p *Poly
		switch c.kind {
		case CGE:
			p = c.p
		case CNE:
			p = addc(c.p, -1)
			if a, _, ok := c.p.linIn(r.k); ok && !a.isC(-1) {
				p = addc(scale(c.p, -1), -1)
			}
		default:
			continue
		}
		// counting without regard to wrap-around: verified afterwards, when the
		// counter is known to be bounded
		p = stripWraps(p)
		if hasTemp(p.walk) || !p.has(r.k) {
			continue
		}
		a, b, ok := p.linIn(r.k)
		if !ok {
			continue
		}
		na := scale(a, -1)
		if !r.base.proveGE(addc(na, -1)) {
			continue
		}
		if c.kind == CNE && (!na.isC(1) || !r.base.proveGE(addc(b, 1))) {
			continue
		}
		good := true
		for _, e := range backs[1:] {
			if !e.p.st.ctx.proveGE(p) {
				good = false
			}
		}
		if good {
			cands = append(cands, p)
		}
	}
	// the candidate must be the reason of some exit, otherwise it is only a bound
	first := 0
	if r.lasts {
		first = -1 // best is one that fails at every exit
	}
	for pass := first; pass < 2; pass++ {
		for _, p := range cands {
			a, b, _ := p.linIn(r.k)
			a = scale(a, -1)
			isExit := false
			if pass < 0 {
				all := true
				for _, e := range exits {
					all = all && (e.kind != exEdge || e.p.st.ctx.proveGE(addc(scale(p, -1), -1)))
				}
				if !all {
					continue
				}
			}
			for _, e := range exits {
				if e.kind != exBack && e.p.st.ctx.proveGE(addc(scale(p, -1), -1)) {
					isExit = true
				}
				if e.kind != exBack && !isExit {
					for _, c := range r.litsOf(e) {
						if c.kind == CGE && stripWraps(c.p) == addc(scale(p, -1), -1) {
							isExit = true
						}
					}
				}
			}
			if pass == 0 && !isExit {
				continue
			}
			if !r.base.proveGE(add(b, a)) {
				if !isExit {
					continue
				}
				// fork: the loop may be skipped altogether by a negative bound
				c := mkGE(add(b, a))
				r.log("fork on %s", c)
				return true, r.f.fork(r.p0, c, func(q *Path, t bool) []*exit {
					if t {
						return r.f.doLoop(q, r.L, r.from)
					}
					return r.f.doLoop(q, r.L, r.from)
				})
			}
			r.rankP, r.rankA = p, a
			r.n = r.base.simp(addc(divP(b, a), 1))
			if a.isC(1) {
				r.n = addc(b, 1)
			}
			return true, nil
		}
	}
	return false, nil
}

// ---------- facts that hold in all earlier iterations ----------

func (r *loopRun) foralls(backs []*exit) bool {
	ch := false
	known := r.base.assume(mkGE(r.kP)).assume(r.inv...)
	if r.rankP != nil {
		known = known.assume(mkGE(r.rankP))
	}
	for _, c := range r.litsOf(backs[0]) {
		if r.nofor[c] || r.invS[c] {
			continue
		}
		r.nofor[c] = true
		if hasTemp(c.walk) || !hasFV(c.fv, int32(r.k.id)) {
			continue
		}
		if c.kind == COr {
			continue
		}
		if known.prove(c) {
			continue
		}
		good := true
		for _, e := range backs[1:] {
			if !e.p.st.ctx.prove(c) {
				good = false
			}
		}
		if !good {
			continue
		}
		t := symAtom("#t")
		q := quant(CAll, t, konst(0), r.kP, substC(c, r.k, atomPoly(t)))
		if q == condTrue {
			continue
		}
		r.inv = append(r.inv, q)
		ch = true
	}
	return ch
}

// ---------- slots ----------

func (r *loopRun) merged(backs []*exit) *callRes {
	var rs []callRes
	for _, e := range backs {
		t := TupleV{}
		for _, s := range r.slots {
			t = append(t, r.update(e, s))
		}
		rs = append(rs, callRes{st: e.p.st.clone(), val: t})
	}
	b := r.base.assume(mkGE(r.kP)).assume(r.inv...)
	if r.rankP != nil {
		b = b.assume(mkGE(add(r.rankP, r.rankA)))
	}
	old := r.f.it.curCS
	r.f.it.curCS = ""
	oldKeep := r.f.it.keepFacts
	r.f.it.keepFacts = false
	rs = r.f.it.mergeLoop(rs, b, true)
	r.f.it.keepFacts = oldKeep
	r.f.it.curCS = old
	if len(rs) != 1 {
		for i, x := range rs {
			r.log("unmerged %d: %s | %s", i, showV(x.val), factsBeyond(x.st.ctx, b))
		}
		return nil
	}
	return &rs[0]
}

func (r *loopRun) closedSubst() *Subst {
	s := newSubst()
	for _, sl := range r.slots {
		for _, c := range sl.cs {
			if c.closed != nil {
				s.sym[c.sym] = c.closed
			}
		}
	}
	return s
}

func (r *loopRun) solveSlots(backs []*exit) bool {
	any := false
	for _, s := range r.slots {
		if s.mode == smInv {
			for _, e := range backs {
				u := r.update(e, s)
				if !eqVal(e.p.st.ctx, u, s.h) {
					giveUp("loop at %s: %s changes from %s to %s", r.pos(), s.name, showV(s.h), showV(u))
				}
			}
		}
		if s.mode == smGeneric || s.mode == smRec {
			any = true
		}
	}
	if !any {
		return false
	}
	// per-path updates of the components
	type upd struct {
		c    *comp
		s    *slot
		ps   []*Poly
		m    *Poly
		done bool
	}
	var us []*upd
	mr := r.merged(backs)
	ch := false
	for si, s := range r.slots {
		if s.mode != smGeneric {
			continue
		}
		var vals []Value
		for _, e := range backs {
			vals = append(vals, r.update(e, s))
		}
		var mv Value
		if mr != nil {
			mv = mr.val.(TupleV)[si]
		}
		switch x := s.h.(type) {
		case IntV, ByteV:
			_, isByte := x.(ByteV)
			ok := true
			u := &upd{c: s.cs[0], s: s}
			conv := func(v Value) *Poly {
				if b, isB := v.(ByteV); isB {
					if a := b.b.single(); a != nil && a.kind == BInt {
						return a.ps[0]
					}
					if _, k := b.b.isConst(); k || !isByte {
						return intOf(b.b)
					}
					return nil
				}
				return asInt(v)
			}
			for _, v := range vals {
				p := conv(v)
				if p == nil {
					ok = false
					break
				}
				u.ps = append(u.ps, p)
			}
			if ok && mv != nil {
				u.m = conv(mv)
			}
			if !ok || isByte && u.m == nil {
				if isByte {
					s.mode = smRec
					s.cs = nil
					s.h = ByteV{selB("U:" + s.name)}
					ch = true
					continue
				}
				r.havocSlot(s)
				ch = true
				continue
			}
			us = append(us, u)
		case SliceV:
			same := true
			for _, v := range vals {
				w, ok := v.(SliceV)
				if !ok || w.obj == nil || refKey(w.obj) != refKey(x.obj) {
					same = false
				}
			}
			if !same {
				r.makeLobj(s, vals)
				ch = true
				continue
			}
			for k := 0; k < 3; k++ {
				u := &upd{c: s.cs[k], s: s}
				get := func(v Value) *Poly {
					w := v.(SliceV)
					return []*Poly{w.off, w.ln, w.cp}[k]
				}
				for _, v := range vals {
					u.ps = append(u.ps, get(v))
				}
				if mv != nil {
					u.m = get(mv)
				}
				us = append(us, u)
			}
		case BoolV:
			if mv == nil {
				r.havocSlot(s)
				ch = true
				continue
			}
			u := asBool(mv)
			at := x.c
			set := func(v *Cond) *Cond {
				sb := newSubst()
				sb.cnd[at] = v
				return sb.C(u)
			}
			uF, uT := set(condFalse), set(condTrue)
			init := asBool(s.init)
			t := symAtom("#t")
			switch {
			case hasTemp(uF.walk) || hasTemp(uT.walk):
				if s.tried["bool"] {
					r.havocSlot(s)
					ch = true
				}
				s.tried["bool"] = true
				continue
			case uF == uT:
				s.h = BoolV{orC(andC(mkEQ(r.kP), init), andC(mkGE(addc(r.kP, -1)), substC(uF, r.k, addc(r.kP, -1))))}
			case uT == condTrue:
				s.h = BoolV{orC(init, quant(CEx, t, konst(0), r.kP, substC(uF, r.k, atomPoly(t))))}
			case uF == condFalse:
				s.h = BoolV{andC(init, quant(CAll, t, konst(0), r.kP, substC(uT, r.k, atomPoly(t))))}
			default:
				r.havocSlot(s)
				ch = true
				continue
			}
			s.mode = smClosed
			ch = true
		}
	}
	if ch {
		return true
	}
	// solve the integer components; a closed form is a conjecture until it is
	// verified, so the sums may be taken not to overflow here
	for _, u := range us {
		for k := range u.ps {
			u.ps[k] = stripWraps(u.ps[k])
		}
		if u.m != nil {
			u.m = stripWraps(u.m)
		}
	}
	noTemp := func(p *Poly) bool { return !hasTemp(p.walk) }
	for progress := true; progress; {
		progress = false
		cs := r.closedSubst()
		for _, u := range us {
			if u.c.closed != nil {
				continue
			}
			sym := atomPoly(u.c.sym)
			cands := []*Poly{u.m}
			if u.m == nil {
				cands = nil
				same := true
				for _, p := range u.ps {
					if p != u.ps[0] {
						same = false
					}
				}
				if same {
					cands = []*Poly{u.ps[0]}
				}
			}
			for _, m := range cands {
				if m == nil {
					continue
				}
				m = cs.P(m)
				if d := sub(m, sym); noTemp(d) {
					if cl := r.sumUp(u.c.init, d); cl != nil {
						u.c.closed = cl
						progress = true
						break
					}
				}
				if noTemp(m) { // takes the value of an expression of the last iteration
					prev := substP(m, r.k, addc(r.kP, -1))
					if r.base.prove(mkEq(substP(prev, r.k, konst(0)), u.c.init)) {
						u.c.closed = prev
						progress = true
						break
					}
				}
			}
		}
		if progress {
			continue
		}
		// wrap-around pair: p counts 0..M-1 and q the wraps
		for _, u := range us {
			if u.c.closed != nil || len(u.ps) < 2 || !u.c.init.isC(0) {
				continue
			}
			sym := atomPoly(u.c.sym)
			zero := make([]bool, len(u.ps))
			ok, nz := true, 0
			for k, p := range u.ps {
				switch {
				case p.isC(0):
					zero[k] = true
					nz++
				case p != addc(sym, 1):
					ok = false
				}
			}
			if !ok || nz == 0 || nz == len(u.ps) {
				continue
			}
			var M *Poly
			for k := range u.ps {
				if !zero[k] || !ok {
					continue
				}
				var mk *Poly
				for _, c := range factsBeyond(backs[k].p.st.ctx, r.base) {
					if c.kind != CEQ {
						continue
					}
					if cp := stripWraps(c.p); cp.has(u.c.sym) {
						if a, b, lin := cp.linIn(u.c.sym); lin && (a.isC(1) || a.isC(-1)) {
							// a*sym + b == 0, i.e. sym == -b/a; the next one would be M
							q := addc(mul(scale(b, -1), a), 1)
							if !hasTemp(q.walk) && !q.has(r.k) && (M == nil || q == M) {
								mk = q
							}
						}
					}
				}
				if mk == nil {
					ok = false
				}
				M = mk
			}
			if !ok {
				continue
			}
			u.c.closed = modP(r.kP, M)
			progress = true
			for _, w := range us {
				if w.c.closed != nil || w == u || len(w.ps) != len(u.ps) {
					continue
				}
				ws := atomPoly(w.c.sym)
				var d *Poly
				good := true
				for k, p := range w.ps {
					e := sub(p, ws)
					if !zero[k] {
						good = good && e.isC(0)
						continue
					}
					good = good && noTemp(e) && !e.has(r.k) && (d == nil || d == e)
					d = e
				}
				if good {
					w.c.closed = add(w.c.init, mul(d, divP(r.kP, M)))
				}
			}
		}
	}
	for _, u := range us {
		if u.c.closed == nil {
			r.log("no closed form for %s: %v merged %v", u.c.sym, u.ps, u.m)
		}
	}
	for _, s := range r.slots {
		if s.mode == smGeneric && len(s.cs) > 0 {
			all := true
			for _, c := range s.cs {
				if c.closed == nil {
					all = false
				}
			}
			if all {
				s.close()
				ch = true
			}
		}
	}
	if ch {
		return true
	}
	// byte recurrences
	for si, s := range r.slots {
		if s.mode != smRec {
			continue
		}
		if mr == nil {
			r.log("byte slot %s: updates not merged", s.name)
			r.havocSlot(s)
			return true
		}
		v, ok := mr.val.(TupleV)[si].(ByteV)
		if !ok {
			r.havocSlot(s)
			return true
		}
		u := selB("U:" + s.name).single()
		A, B, ok := affine(v.b, u)
		r.log("byte slot %s: %s", s.name, v.b)
		if ok && !hasTemp(A.walk) && !hasTemp(B.walk) {
			if x := r.solveRec(A, B, asByte(s.init)); x != nil {
				s.h, s.mode = ByteV{x}, smClosed
				ch = true
			}
		}
	}
	if ch {
		return true
	}
	// nothing could be solved: forget one unsolved slot at a time, wrap-arounds last
	for _, s := range r.slots {
		if s.mode == smGeneric {
			if _, ok := s.h.(IntV); ok && !r.lasts {
				r.lasts = true
				if _, left := r.lastRounds(nil, backs); len(left) < len(backs) {
					r.rankP, r.rankA, r.n = nil, nil, nil
					return true
				}
			}
			r.havocSlot(s)
			return true
		}
	}
	for _, s := range r.slots {
		if s.mode == smRec {
			r.havocSlot(s)
			return true
		}
	}
	return false
}

// sumUp is init + the sum of d(t) over t < κ, or nil.
func (r *loopRun) sumUp(init, d *Poly) *Poly {
	if !d.has(r.k) {
		return add(init, mul(d, r.kP))
	}
	// conditional counter
	if a := d.single(); a != nil && a.kind == AIntOf {
		if b := a.bs[0]; len(b.m) > 0 {
			return add(init, countOf(b, r.k, r.kP))
		}
	}
	if a, b, ok := d.linIn(r.k); ok {
		if c, k := a.isConst(); k && c%2 == 0 {
			// b*κ + (c/2)*κ(κ-1)
			return add(init, add(mul(b, r.kP), scale(mul(r.kP, addc(r.kP, -1)), c/2)))
		}
	}
	return nil
}

// makeLobj: the slice moves to a new object in every iteration; it is replaced
// by a virtual object holding its current contents.
func (r *loopRun) makeLobj(s *slot, vals []Value) {
	x := s.init.(SliceV)
	for _, v := range vals {
		w, ok := v.(SliceV)
		if !ok || w.obj == nil {
			giveUp("loop at %s: slice %s changes shape", r.pos(), s.name)
		}
	}
	s.lobj = "@L" + s.name
	o := r.p0.st.obj(x.obj)
	if !isByteT(o.elem) {
		// contents start as they are
	}
	init := r.sliceView(r.p0.st, x, s.lobj, nil)
	nm := s.name
	s.cs = nil
	mk := func(init *Poly, sfx string) *Poly {
		c := &comp{sym: symAtom(nm + sfx), init: init}
		s.cs = append(s.cs, c)
		return atomPoly(c.sym)
	}
	off := mk(konst(0), ".L0")
	ln := mk(x.ln, ".L1")
	cp := mk(x.cp, ".L2")
	s.h = SliceV{obj: &Ref{site: s.lobj}, off: off, ln: ln, cp: cp, isNil: x.isNil}
	s.cs[0].closed = konst(0)
	s.cs[2].closed = nil
	// the length: constant, or growing; found from the updates
	var l *Poly
	for _, v := range vals {
		w := v.(SliceV)
		if l == nil {
			l = w.ln
		} else if l != w.ln {
			giveUp("loop at %s: length of %s differs between paths", r.pos(), s.name)
		}
	}
	var lnC *Poly
	oldLn := symAtom(nm + ".l")
	if r.base.prove(mkEq(l, x.ln)) {
		lnC = x.ln
	} else if d := sub(l, atomPoly(oldLn)); d.isC(0) {
		lnC = x.ln
	} else if !hasTemp(d.walk) && !d.has(r.k) {
		lnC = add(x.ln, mul(d, r.kP))
	} else {
		giveUp("loop at %s: length of %s cannot be summarised", r.pos(), s.name)
	}
	appRange["cap:"+nm] = [2]*Poly{konst(0), lenMax}
	cpC := appP("cap:"+nm, append(append([]*Poly(nil), r.p0.st.inst...), r.kP)...)
	r.inv = append(r.inv, mkLE(lnC, cpC), mkGE(lnC))
	s.h = SliceV{obj: &Ref{site: s.lobj}, off: konst(0), ln: lnC, cp: cpC, isNil: condFalse}
	s.cs = nil
	s.mode = smClosed
	init.ln = lnC
	h := &objHyp{site: s.lobj, init: init, mode: smGeneric, lobj: s, h: init}
	if isByteT(o.elem) {
		h.h = r.unkObj(init, "U:"+r.name+":"+s.lobj)
	}
	r.objs[s.lobj] = h
	// a virtual object is a copy: its memory must not be reachable otherwise
}

// affine writes b as A*u + B.
func affine(b *BT, u *Atom) (A, B *BT, ok bool) {
	var am, bm []bmon
	for _, m := range b.m {
		cnt := 0
		var rest []bfac
		for _, x := range m.f {
			if x.a == u {
				if !x.e.isC(1) {
					return nil, nil, false
				}
				cnt++
				continue
			}
			rest = append(rest, x)
		}
		if cnt == 1 {
			am = append(am, bmon{m.c, rest})
		} else {
			bm = append(bm, m)
		}
	}
	return internBT(am), internBT(bm), true
}

// solveRec: x(0) = x0, x(κ+1) = A(κ) x(κ) + B(κ).
func (r *loopRun) solveRec(A, B, x0 *BT) *BT {
	return solveRec(r.base, r.k, A, B, x0)
}
func solveRec(base *Ctx, k *Atom, A, B, x0 *BT) *BT {
	kP := atomPoly(k)
	one1 := bconst(1)
	t := symAtom("#t")
	tP := atomPoly(t)
	switch {
	case A == one1:
		return bxor(x0, sumSplit(base, t, konst(0), kP, substB(B, k, tP)))
	case len(A.m) == 0:
		if substB(B, k, konst(-1)) == x0 {
			return substB(B, k, addc(kP, -1))
		}
		return bite(mkEQ(kP), x0, substB(B, k, addc(kP, -1)))
	case len(B.m) == 0:
		return bmul(x0, prodSplit(base, t, konst(0), kP, substB(A, k, tP)))
	case !A.has(k):
		return bxor(bmul(bpow(A, kP), x0), sumSplit(base, t, konst(0), kP, bmul(bpow(A, sub(addc(kP, -1), tP)), substB(B, k, tP))))
	}
	// general: the indicator of one special iteration
	return nil
}

// eqSplit finds an indicator "t == e" in b.
func eqSplit(b *BT, t *Atom) (*Cond, *Poly) {
	var c *Cond
	var e *Poly
	b.walk(func(a *Atom) {
		if c != nil || a.kind != BInd || !hasFV(a.fv, int32(t.id)) || !noBound(a.c) {
			return
		}
		if a.c.kind == CEQ {
			if x, y, ok := a.c.p.linIn(t); ok {
				if x.isC(1) {
					c, e = a.c, scale(y, -1)
				} else if x.isC(-1) {
					c, e = a.c, y
				}
			}
		}
	})
	return c, e
}
func withCond(b *BT, c *Cond, v *Cond) *BT {
	s := newSubst()
	s.cnd[c] = v
	s.cnd[notC(c)] = notC(v)
	return s.B(b)
}

// prodSplit is the product of b over t in [lo,hi), special iterations split off.
func prodSplit(x *Ctx, t *Atom, lo, hi *Poly, b *BT) *BT {
	c, e := eqSplit(b, t)
	if c == nil {
		return bprod(t, lo, hi, b)
	}
	rest := withCond(b, c, condFalse)
	at := substB(withCond(b, c, condTrue), t, e)
	in := andC(mkLE(lo, e), mkLT(e, hi))
	split := func() *BT {
		return bmulAll(prodSplit(x, t, lo, e, rest), at, prodSplit(x, t, addc(e, 1), hi, rest))
	}
	switch x.decide(in) {
	case 1:
		return split()
	case -1:
		return prodSplit(x, t, lo, hi, rest)
	}
	return bprod(t, lo, hi, b)
}
func sumSplit(x *Ctx, t *Atom, lo, hi *Poly, b *BT) *BT {
	c, e := eqSplit(b, t)
	if c == nil {
		return bsum(t, lo, hi, nil, b)
	}
	rest := withCond(b, c, condFalse)
	at := substB(withCond(b, c, condTrue), t, e)
	in := andC(mkLE(lo, e), mkLT(e, hi))
	// rest summed over everything, corrected at e
	all := sumSplit(x, t, lo, hi, rest)
	corr := bxor(at, substB(rest, t, e))
	switch x.decide(in) {
	case 1:
		return bxor(all, corr)
	case -1:
		return all
	}
	return bxor(all, bmul(ind(in), corr))
}

// countOf is the number of t < κ with c(t) (b: indicator term).
func countOf(b *BT, k *Atom, kP *Poly) *Poly {
	t := symAtom("#cnt")
	key := fmt.Sprintf("count:%d", substB(b, k, atomPoly(t)).id)
	appRange[key] = [2]*Poly{konst(0), lenMax}
	countDefs[key] = countDef{substB(b, k, atomPoly(t)), t}
	return appP(key, kP)
}

type countDef struct {
	b *BT
	t *Atom
}

var countDefs = map[string]countDef{}

// ---------- objects ----------

func (r *loopRun) solveObjs(backs []*exit) bool {
	var todo []string
	for _, k := range sortedKeys(r.objs) {
		if r.objs[k].mode == smGeneric {
			todo = append(todo, k)
		}
	}
	if len(todo) == 0 {
		return false
	}
	if r.rankP == nil {
		for _, k := range todo {
			if !r.havocCell(r.objs[k], backs) {
				r.havocObj(r.objs[k])
			}
		}
		return true
	}
	mr := r.merged(backs)
	ch := false
	for _, k := range todo {
		h := r.objs[k]
		if mr == nil {
			r.log("cannot merge the back edges")
			r.havocObj(h)
			ch = true
			continue
		}
		o1 := mr.st.objs[k]
		if h.lobj != nil {
			for si, s := range r.slots {
				if s == h.lobj {
					o1 = r.sliceView(mr.st, mr.val.(TupleV)[si].(SliceV), k, nil)
				}
			}
		}
		if o1 == nil {
			r.havocObj(h)
			ch = true
			continue
		}
		if n := r.solveObj(mr.st.ctx, h, o1); n != nil {
			h.h, h.mode = n, smClosed
			ch = true
		}
	}
	if ch {
		return true
	}
	if r.swapTemplate(mr, todo) {
		return true
	}
	for _, k := range todo {
		if !r.havocCell(r.objs[k], backs) {
			r.havocObj(r.objs[k])
		}
		return true
	}
	return false
}

// havocCell forgets the content of the only cell that the body writes.
func (r *loopRun) havocCell(h *objHyp, backs []*exit) bool {
	if h.init == nil || h.noCell || h.lobj != nil || h.mode == smHavoc || h.h == nil || h.init.kind == "map" {
		return false
	}
	var cell *Poly
	for _, e := range backs {
		o := e.p.st.objs[h.site]
		if o == nil {
			return false
		}
		es, ok := newEntries(h.h, o)
		if !ok {
			return false
		}
		for _, en := range es {
			var at *Poly
			for _, c := range conj(en.g) {
				if c.kind != CEQ {
					continue
				}
				if a, b, ok := c.p.linIn(jP.single()); ok && (a.isC(1) || a.isC(-1)) {
					at = mul(scale(b, -1), a)
				}
			}
			if at == nil || at.has(r.k) || hasTemp(at.walk) || cell != nil && at != cell {
				return false
			}
			cell = at
		}
	}
	if cell == nil {
		return false
	}
	v := r.havocVal(h)
	if v == nil {
		return false
	}
	n := h.init.clone()
	n.ents = append(append([]Entry(nil), n.ents...), Entry{mkEq(jP, cell), v})
	h.h, h.mode, h.cell = n, smHavoc, cell
	r.log("havoc cell %s of %s", cell, h.site)
	return true
}

func (r *loopRun) havocVal(h *objHyp) Value {
	n := h.init
	args := append([]*Poly(nil), r.p0.st.inst...)
	args = append(args, r.kP)
	nm := "hv:" + r.name + ":" + h.site + "#"
	for k := 0; k < n.ninst; k++ {
		args = append(args, atomPoly(iv(k)))
	}
	switch {
	case isByteT(n.elem):
		return ByteV{selB(nm, args...)}
	case isIntT(n.elem):
		lo, hi := typeRange(n.elem.Underlying().(*types.Basic))
		appRange[nm] = [2]*Poly{lo, hi}
		return IntV{appP(nm, args...)}
	case isBoolT(n.elem):
		return BoolV{atomC(nm, args...)}
	}
	return nil
}

func (r *loopRun) havocObj(h *objHyp) {
	r.log("havoc object %s", h.site)
	if h.mode == smHavoc || h.failed && h.init == nil {
		giveUp("loop at %s: contents of %s cannot be summarised", r.pos(), h.site)
	}
	if h.init == nil {
		// born in the loop: instances of earlier iterations are not constrained
		h.mode = smHavoc
		h.h = nil
		return
	}
	h.mode = smHavoc
	n := h.init.clone()
	args := append([]*Poly(nil), r.p0.st.inst...)
	args = append(args, r.kP)
	nm := "hv:" + r.name + ":" + h.site
	for k := 0; k < n.ninst; k++ {
		args = append(args, atomPoly(iv(k)))
	}
	switch {
	case isByteT(n.elem):
		n.ents, n.base = nil, ByteV{selB(nm, append(args, jP)...)}
	case isIntT(n.elem):
		lo, hi := typeRange(n.elem.Underlying().(*types.Basic))
		appRange[nm] = [2]*Poly{lo, hi}
		n.ents, n.base = nil, IntV{appP(nm, append(args, jP)...)}
	case isBoolT(n.elem):
		n.ents, n.base = nil, BoolV{atomC(nm, append(args, jP)...)}
	default:
		giveUp("loop at %s: contents of %s cannot be summarised", r.pos(), h.site)
	}
	h.h = n
}

// newEntries returns the entries the body added to the hypothesis content.
func newEntries(h, o *Obj) ([]Entry, bool) {
	n := 0
	for n < len(h.ents) && n < len(o.ents) && h.ents[n].g == o.ents[n].g && valKey(h.ents[n].val) == valKey(o.ents[n].val) {
		n++
	}
	if n != len(h.ents) {
		return nil, false
	}
	es := append([]Entry(nil), o.ents[n:]...)
	if valKey(h.base) != valKey(o.base) {
		if n != 0 {
			return nil, false
		}
		es = append([]Entry{{condTrue, o.base}}, es...)
	}
	return es, true
}

func conj(c *Cond) []*Cond {
	if c.kind == CAnd {
		return c.cs
	}
	return []*Cond{c}
}

// phase writes num as v - e where [e, e+size) lies within one period of length m,
// so that the quotients of v number the periods for all parts of it alike.
func (r *loopRun) phase(x *Ctx, num, size, m *Poly) (v, e *Poly) {
	v = konst(0)
	for _, t := range num.t {
		for _, a := range t.m {
			if a == jv {
				v = add(v, internPoly([]pterm{t}))
				break
			}
		}
	}
	e = sub(v, num)
	if e.isC(0) || len(v.t) == 0 || !x.proveGE(e) || !x.proveGE(sub(m, add(e, size))) {
		return nil, nil
	}
	return v, e
}

// invert solves the guard for κ: g(κ) <=> κ == tau and rest.
func (r *loopRun) invert(x *Ctx, g *Cond) (tau *Poly, rest []*Cond, free bool) {
	if !hasFV(g.fv, int32(r.k.id)) {
		return nil, nil, true
	}
	cs := conj(g)
	others := func(skip ...int) []*Cond {
		var o []*Cond
		for i, c := range cs {
			sk := false
			for _, s := range skip {
				if i == s {
					sk = true
				}
			}
			if !sk {
				o = append(o, c)
			}
		}
		return o
	}
	fin := func(tau *Poly, extra []*Cond, o []*Cond) (*Poly, []*Cond, bool) {
		s := kSubst(r.k, tau)
		rest := append([]*Cond(nil), extra...)
		for _, c := range o {
			rest = append(rest, s.C(c))
		}
		return tau, rest, false
	}
	for i, c := range cs {
		if c.kind != CEQ {
			continue
		}
		a, b, ok := c.p.linIn(r.k)
		if !ok || a.isC(0) {
			continue
		}
		if a.isC(1) {
			return fin(scale(b, -1), nil, others(i))
		}
		if a.isC(-1) {
			return fin(b, nil, others(i))
		}
	}
	for i, c := range cs {
		if c.kind != CEQ {
			continue
		}
		a, b, ok := c.p.linIn(r.k)
		if !ok || a.isC(0) {
			continue
		}
		num := scale(b, -1)
		den := a
		if r.base.proveGE(addc(scale(a, -1), -1)) {
			num, den = b, scale(a, -1)
		} else if !r.base.proveGE(addc(a, -1)) {
			continue
		}
		if v, e := r.phase(x, num, konst(1), den); v != nil {
			q := divP(v, den)
			return fin(q, []*Cond{mkGE(v), mkEq(sub(v, mul(den, q)), e)}, others(i))
		}
		return fin(divP(num, den), []*Cond{mkGE(num), mkEQ(modP(num, den))}, others(i))
	}
	// a block: lo(κ) <= v < hi(κ)
	for i, c := range cs {
		if c.kind != CGE {
			continue
		}
		a1, b1, ok := c.p.linIn(r.k)
		if !ok || a1.isC(0) {
			continue
		}
		for j, d := range cs {
			if j == i || d.kind != CGE {
				continue
			}
			a2, b2, ok := d.p.linIn(r.k)
			if !ok || a2 != scale(a1, -1) {
				continue
			}
			// c: b1 + a1 κ >= 0, d: b2 - a1 κ >= 0; the block has b1+b2+1 cells
			if !r.base.proveGE(addc(scale(a1, -1), -1)) {
				continue // take the pair with a1 < 0: v - e - mκ >= 0
			}
			m := scale(a1, -1)
			size := addc(add(b1, b2), 1)
			if size.has(r.k) {
				continue
			}
			switch {
			case x.prove(mkEq(m, size)):
				return fin(divP(b1, m), []*Cond{mkGE(b1)}, others(i, j))
			case x.proveGE(sub(m, size)):
				if v, e := r.phase(x, b1, size, m); v != nil {
					q := divP(v, m)
					w := sub(v, mul(m, q))
					return fin(q, []*Cond{mkGE(v), mkLE(e, w), mkLT(w, add(e, size))}, others(i, j))
				}
				return fin(divP(b1, m), []*Cond{mkGE(b1), mkLT(modP(b1, m), size)}, others(i, j))
			}
		}
	}
	return nil, nil, false
}

func (r *loopRun) solveObj(x *Ctx, h *objHyp, o1 *Obj) *Obj {
	if h.init == nil {
		return r.solveBorn(x, h, o1)
	}
	es, ok := newEntries(h.h, o1)
	if !ok {
		r.log("%s: entries rewritten", h.site)
		return nil
	}
	es = mergeRuns(x, es)
	n := h.init.clone()
	if h.lobj != nil {
		n.ln = h.h.ln
	}
	var u *Atom
	if isByteT(n.elem) {
		if bv, ok := h.h.base.(ByteV); ok {
			u = bv.b.single()
		}
	}
	// every cell's own unknown may be replaced by the initial content where it is
	// hit for the first time
	type sol struct {
		g    *Cond
		val  Value
		acc  bool
		A, B *BT
	}
	for _, e := range es {
		if hasTemp(e.g.walk) {
			r.log("%s: guard %s depends on unknowns", h.site, e.g)
			return nil
		}
		xe := x.assume(e.g)
		tau, rest, free := r.invert(xe, e.g)
		bv, isB := e.val.(ByteV)
		self := false
		if isB && u != nil {
			bt := r.selfReads(xe, u, x.simpB(bv.b))
			// reads of other cells, or of other unknowns
			bad := false
			bt.walk(func(a *Atom) {
				if a == u {
					self = true
				} else if strings.HasPrefix(a.name, "U:") || strings.HasPrefix(a.name, "$") {
					bad = true
				}
			})
			if bad {
				r.log("%s: value %s depends on unknowns", h.site, bt)
				return nil
			}
			if bt == atomBT(u) {
				continue // the cell keeps its content
			}
			bv = ByteV{bt}
			e.val = bv
		} else if valHasTemp(e.val) {
			r.log("%s: value depends on unknowns", h.site)
			return nil
		}
		kp := mkGE(addc(r.kP, -1))
		switch {
		case free && self:
			A, B, ok := affine(bv.b, u)
			if !ok || A.has(u) || B.has(u) || deepHas(A, u) || deepHas(B, u) {
				return nil
			}
			// the initial content, per case of the initial decision list
			cur := n
			m := cur.clone()
			y := x.assume(e.g)
			cs := cellCases(y, cur, iotaInst(cur.ninst), jP)
			for q := len(cs) - 1; q >= 0; q-- {
				v0, ok := cs[q].v.(ByteV)
				if !ok {
					return nil
				}
				v := r.solveRec(A, B, v0.b)
				if v == nil {
					return nil
				}
				m.ents = append(m.ents, Entry{andC(e.g, cs[q].g), ByteV{v}})
			}
			n = m
		case free:
			if len(es) > 1 && false {
				return nil
			}
			n = n.clone()
			n.ents = append(n.ents, Entry{andC(e.g, kp), substV(kSubst(r.k, addc(r.kP, -1)), e.val)})
		case tau != nil:
			g := andC(append(append([]*Cond(nil), rest...), mkGE(tau), mkLT(tau, r.kP))...)
			v := substV(kSubst(r.k, tau), e.val)
			if self {
				bb := asByte(v)
				y := x.assume(rest...).assume(mkGE(tau), mkLT(tau, r.kP))
				cs := cellCases(y, h.init, iotaInst(n.ninst), jP)
				m := n.clone()
				for q := len(cs) - 1; q >= 0; q-- {
					v0, ok := cs[q].v.(ByteV)
					if !ok {
						return nil
					}
					sb := newSubst()
					sb.bat[u] = v0.b
					m.ents = append(m.ents, Entry{andC(g, cs[q].g), ByteV{sb.B(bb)}})
				}
				n = m
			} else {
				n = n.clone()
				n.ents = append(n.ents, Entry{g, v})
			}
		default:
			// constant value under a condition that cannot be inverted
			if valHasAtom(e.val, r.k) || self {
				r.log("%s: cannot invert %s", h.site, e.g)
				return nil
			}
			t := symAtom("#t")
			n = n.clone()
			n.ents = append(n.ents, Entry{quant(CEx, t, konst(0), r.kP, substC(e.g, r.k, atomPoly(t))), e.val})
		}
	}
	return n
}

// selfReads replaces reads of the unknown content at an index that is the
// written one by the unknown of the written cell.
func (r *loopRun) selfReads(xe *Ctx, u *Atom, b *BT) *BT {
	sb := newSubst()
	n := 0
	b.walk(func(a *Atom) {
		if a == u || a.kind != u.kind || a.name != u.name || len(a.ps) != len(u.ps) {
			return
		}
		for i := range a.ps {
			if !xe.prove(mkEq(a.ps[i], u.ps[i])) {
				return
			}
		}
		sb.bat[a] = atomBT(u)
		n++
	})
	if n == 0 {
		return b
	}
	return sb.B(b)
}

func iotaInst(n int) []*Poly {
	var out []*Poly
	for k := 0; k < n; k++ {
		out = append(out, atomPoly(iv(k)))
	}
	return out
}

func deepHas(b *BT, u *Atom) bool {
	f := false
	b.walk(func(a *Atom) {
		if a == u {
			f = true
		}
	})
	return f
}

// solveBorn: an object allocated in the loop; the hypothesis says what the
// instances of the earlier iterations hold.
func (r *loopRun) solveBorn(x *Ctx, h *objHyp, o1 *Obj) *Obj {
	d := len(r.p0.st.inst)
	n := o1.clone()
	n.ents = nil
	if d >= o1.ninst {
		// allocated per call but not per iteration: cannot happen
		return nil
	}
	ik := atomPoly(iv(d))
	for _, e := range o1.ents {
		if hasTemp(e.g.walk) || valHasTemp(e.val) {
			r.log("%s: born object depends on unknowns", h.site)
			return nil
		}
		if !hasFV(e.g.fv, int32(iv(d).id)) {
			// instance-independent guard: restrict it to the current instance
			e.g = andC(e.g, mkEq(ik, r.kP))
		}
		tau, rest, _ := r.invert(x, e.g)
		if tau == nil {
			r.log("%s: cannot invert %s", h.site, e.g)
			return nil
		}
		g := andC(append(append([]*Cond(nil), rest...), mkGE(tau), mkLT(tau, r.kP))...)
		n.ents = append(n.ents, Entry{g, substV(kSubst(r.k, tau), e.val)})
	}
	s := kSubst(r.k, ik)
	n.ln = s.P(n.ln)
	n.base = substV(s, n.base)
	return n
}

func valHasTemp(v Value) bool {
	bad := false
	walkAtoms(v, func(a *Atom) {
		if strings.HasPrefix(a.name, "$") || strings.HasPrefix(a.name, "U:") {
			bad = true
		}
	})
	return bad
}
func valHasAtom(v Value, u *Atom) bool {
	f := false
	walkAtoms(v, func(a *Atom) {
		if a == u {
			f = true
		}
	})
	return f
}

func walkAtoms(v Value, f func(*Atom)) {
	switch x := v.(type) {
	case IntV:
		x.p.walk(f)
	case ByteV:
		x.b.walk(f)
	case BoolV:
		x.c.walk(f)
	case SliceV:
		if x.obj != nil {
			x.off.walk(f)
			x.ln.walk(f)
			x.cp.walk(f)
			x.isNil.walk(f)
			for _, p := range x.obj.inst {
				p.walk(f)
			}
		}
	case PtrV:
		if x.obj != nil {
			x.idx.walk(f)
			x.isNil.walk(f)
			for _, p := range x.obj.inst {
				p.walk(f)
			}
		}
	case StructV:
		for _, y := range x.f {
			walkAtoms(y, f)
		}
	case TupleV:
		for _, y := range x {
			walkAtoms(y, f)
		}
	case FuncV:
		for _, y := range x.binds {
			walkAtoms(y, f)
		}
	case OpaqueV:
		for _, y := range x.args {
			walkAtoms(y, f)
		}
	case IfaceV:
		x.nilc.walk(f)
		walkAtoms(x.dyn, f)
	case MapV:
		if x.obj != nil {
			for _, p := range x.obj.inst {
				p.walk(f)
			}
		}
	case ChanV:
		if x.obj != nil {
			for _, p := range x.obj.inst {
				p.walk(f)
			}
		}
	case StringV:
		if x.ln != nil {
			x.ln.walk(f)
		}
	case ArrayV:
		if x.src != nil {
			for _, e := range x.src.ents {
				e.g.walk(f)
				walkAtoms(e.val, f)
			}
			walkAtoms(x.src.base, f)
			x.off.walk(f)
			for _, p := range x.inst {
				p.walk(f)
			}
		}
		walkAtoms(x.base, f)
	}
}

// mergeRuns joins writes to consecutive cells (an unrolled inner loop) into one.
func mergeRuns(x *Ctx, es []Entry) []Entry {
	cellOf := func(e Entry) (*Poly, []*Cond, bool) {
		cs := conj(e.g)
		for i, c := range cs {
			if c.kind == CEQ && c.p.has(jv) {
				if a, b, ok := c.p.linIn(jv); ok {
					var rest []*Cond
					rest = append(rest, cs[:i]...)
					rest = append(rest, cs[i+1:]...)
					if a.isC(1) {
						return scale(b, -1), rest, true
					}
					if a.isC(-1) {
						return b, rest, true
					}
				}
			}
		}
		return nil, nil, false
	}
	same := func(a, b []*Cond) bool { return andC(a...) == andC(b...) }
	var out []Entry
	for i := 0; i < len(es); {
		p, rest, ok := cellOf(es[i])
		if !ok {
			out = append(out, es[i])
			i++
			continue
		}
		// writes of different cells at constant distances commute: sort them
		type pt struct {
			d int64
			e Entry
		}
		pts := []pt{{0, es[i]}}
		used := map[int64]bool{0: true}
		j := i + 1
		for j < len(es) {
			q, rest2, ok2 := cellOf(es[j])
			if !ok2 || !same(rest, rest2) {
				break
			}
			d, isC := sub(q, p).isConst()
			if !isC || used[d] {
				break
			}
			used[d] = true
			pts = append(pts, pt{d, es[j]})
			j++
		}
		sort.SliceStable(pts, func(a, b int) bool { return pts[a].d < pts[b].d })
		for k := 0; k < len(pts); {
			m := k + 1
			for m < len(pts) && pts[m].d == pts[m-1].d+1 {
				m++
			}
			var seg []Entry
			for _, q := range pts[k:m] {
				seg = append(seg, q.e)
			}
			p0 := addc(p, pts[k].d)
			var v Value
			if m-k >= 2 {
				v = generalCell(seg, p0)
			}
			if v == nil {
				out = append(out, seg...)
			} else {
				g := andC(append(append([]*Cond(nil), rest...), mkLE(p0, jP), mkLT(jP, addc(p0, int64(m-k))))...)
				out = append(out, Entry{g, v})
			}
			k = m
		}
		i = j
	}
	return out
}

// generalCell finds a value over #j that agrees with consecutive cell writes.
func generalCell(es []Entry, p *Poly) Value {
	b0, ok := es[0].val.(ByteV)
	if !ok {
		return nil
	}
	d := sub(jP, p)
	s := newSubst()
	s.fn = func(a *Atom) *BT {
		if a.kind != BSel || len(a.ps) == 0 {
			return nil
		}
		ps := append([]*Poly(nil), a.ps...)
		if ps[len(ps)-1].has(jv) {
			return nil
		}
		ps[len(ps)-1] = add(ps[len(ps)-1], d)
		return selB(a.name, ps...)
	}
	v := s.B(b0.b)
	for k, e := range es {
		b, ok := e.val.(ByteV)
		if !ok || substB(v, jv, addc(p, int64(k))) != b.b {
			return nil
		}
	}
	return ByteV{v}
}

// swapTemplate recognises a loop whose only effect on an array is to exchange
// two of its cells in every iteration: the contents stay a permutation.
func (r *loopRun) swapTemplate(mr *callRes, todo []string) bool {
	if mr == nil {
		return false
	}
	for _, k := range todo {
		h := r.objs[k]
		if h.init == nil || h.init.ninst != 0 || h.perm {
			continue
		}
		if o1 := mr.st.objs[k]; o1 == nil || !r.isSwap(mr.st.ctx, h, o1) {
			continue
		}
		nm := "perm:" + r.name + ":" + k
		injective[nm] = true
		appRange[nm] = [2]*Poly{konst(0), addc(h.init.ln, -1)}
		args := append(append([]*Poly(nil), r.p0.st.inst...), r.kP)
		n := h.init.clone()
		pi := appP(nm, append(args, jP)...)
		s := newSubst()
		s.sym[jv] = pi
		cs := cellCases(r.base.assume(mkGE(jP), mkLT(jP, n.ln)), h.init, nil, jP)
		if len(cs) != 1 {
			continue
		}
		n.ents = nil
		n.base = substV(s, cs[0].v)
		h.h, h.mode, h.perm = n, smHavoc, true // a permutation of the initial contents; verify checks that it stays one
		r.log("%s: permutation", k)
		r.f.it.stats.loops["perm:"+r.name] = true
		return true
	}
	return false
}

// isSwap reports whether o1 is the hypothesis with two cells exchanged.
func (r *loopRun) isSwap(x *Ctx, h *objHyp, o1 *Obj) bool {
	es, ok := newEntries(h.h, o1)
	if !ok || len(es) != 2 {
		return false
	}
	var idx [2]*Poly
	for i, e := range es {
		if e.g.kind != CEQ {
			return false
		}
		a, b, ok := e.g.p.linIn(jv)
		if !ok || !(a.isC(1) || a.isC(-1)) {
			return false
		}
		idx[i] = scale(b, -1)
		if a.isC(-1) {
			idx[i] = b
		}
	}
	at := func(p *Poly) Value {
		cs := cellCases(x, h.h, nil, p)
		if len(cs) == 1 {
			return cs[0].v
		}
		return nil
	}
	// new[a] = old[b], new[b] = old[a]; when a = b both say old[a]
	v0, v1 := at(idx[1]), at(idx[0])
	if v0 == nil || v1 == nil || !eqVal(x, es[0].val, v0) || !eqVal(x, es[1].val, v1) {
		return false
	}
	if !x.prove(andC(mkGE(idx[0]), mkLT(idx[0], h.init.ln), mkGE(idx[1]), mkLT(idx[1], h.init.ln))) {
		r.log("%s: swap out of range", h.site)
		return false
	}
	return true
}

// ---------- verification ----------

func (r *loopRun) verify(backs []*exit) bool {
	next := kSubst(r.k, addc(r.kP, 1))
	zero := kSubst(r.k, konst(0))
	ok := true
	if r.rankP != nil {
		for _, e := range backs {
			if !e.p.st.ctx.proveGE(r.rankP) {
				for _, c := range e.p.st.ctx.list() {
					r.log("   when %s", c)
				}
				giveUp("loop at %s: cannot show that %s bounds it", r.pos(), r.rankP)
			}
		}
	}
	for _, s := range r.slots {
		if s.mode != smClosed || s.lobj != "" {
			continue
		}
		good := eqVal(r.base, substV(zero, s.h), s.init)
		if !good {
			r.log("slot %s: wrong at 0: %s vs %s", s.name, showV(substV(zero, s.h)), showV(s.init))
		}
		for _, e := range backs {
			if !good {
				break
			}
			u := r.update(e, s)
			if !eqVal(e.p.st.ctx, u, substV(next, s.h)) {
				r.log("slot %s: not inductive: %s vs %s", s.name, showV(u), showV(substV(next, s.h)))
				good = false
			}
		}
		if !good {
			ok = false
			r.retrySlot(s)
		}
	}
	if !ok {
		return false
	}
	for _, k := range sortedKeys(r.objs) {
		h := r.objs[k]
		if h.cell != nil {
			for _, e := range backs {
				o := e.p.st.objs[k]
				if o == nil || !eqContent(e.p.st.ctx.assume(mkNE(sub(jP, h.cell))), o, h.h) {
					ok = false
				}
			}
			if !ok {
				h.cell, h.noCell = nil, true
				h.mode = smGeneric
				r.havocObj(h)
			}
			continue
		}
		if h.perm {
			for _, e := range backs {
				x, o := e.p.st.ctx, e.p.st.objs[k]
				if o == nil || !eqContent(x, o, h.h) && !r.isSwap(x, h, o) {
					r.log("object %s: not a permutation", k)
					h.perm, h.mode, ok = false, smGeneric, false
					r.havocObj(h)
					break
				}
			}
			continue
		}
		if h.mode != smClosed {
			continue
		}
		good := true
		if h.init != nil {
			z := substObj(zero, h.h)
			if !eqContent(r.base, z, h.init) {
				r.log("object %s: wrong at 0", k)
				good = false
			}
		}
		hn := substObj(next, h.h)
		for _, e := range backs {
			if !good {
				break
			}
			o1 := e.p.st.objs[k]
			if h.lobj != nil {
				o1 = r.sliceView(e.p.st, r.update(e, h.lobj).(SliceV), k, nil)
				hn2 := hn.clone()
				hn2.ln = o1.ln
				hn = hn2
			}
			if o1 == nil {
				good = false
				break
			}
			x := e.p.st.ctx
			a := o1
			if h.init == nil {
				// compare the instances that exist: 0..κ
				d := len(r.p0.st.inst)
				x = x.assume(mkGE(atomPoly(iv(d))), mkLE(atomPoly(iv(d)), r.kP))
				for q, p := range r.p0.st.inst {
					x = x.assume(mkEq(atomPoly(iv(q)), p))
				}
			}
			if m := mergeRuns(x, a.ents); len(m) < len(a.ents) {
				a = a.clone()
				a.ents = m
			}
			if !eqContent(x, a, hn) {
				r.log("object %s: not inductive", k)
				if dbgLoop() {
					for _, e := range a.ents {
						r.log("     now  %s -> %s", e.g, showV(e.val))
					}
					r.log("     now base %s", showV(a.base))
					for _, e := range hn.ents {
						r.log("     want %s -> %s", e.g, showV(e.val))
					}
					r.log("     want base %s", showV(hn.base))
					for _, c := range x.list() {
						r.log("     when %s", c)
					}
				}
				good = false
			}
		}
		if !good {
			ok = false
			h.failed = true
			r.havocObj(h)
		}
	}
	return ok
}

// retrySlot: a closed form was refuted; try the next weaker one.
func (r *loopRun) retrySlot(s *slot) {
	if b, ok := s.init.(ByteV); ok && len(s.cs) == 1 && s.cs[0].closed != nil && !s.tried["mod"] {
		s.tried["mod"] = true
		_ = b
		s.h = ByteV{bint(modP(s.cs[0].closed, konst(256)))}
		return
	}
	r.havocSlot(s)
}

// ---------- leaving the loop ----------

func (r *loopRun) leave(e *exit) *exit {
	x := e.p.st.ctx
	if x.infeasible() {
		return nil
	}
	var by *Poly
	if r.rankP != nil && x.proveGE(addc(scale(r.rankP, -1), -1)) {
		by = r.n
	} else {
		nm := "it:" + r.name + fmt.Sprintf(".%d", e.from0())
		appRange[nm] = [2]*Poly{konst(0), nil}
		by = appP(nm, r.p0.st.inst...)
	}
	s := kSubst(r.k, by)
	st := e.p.st
	nst := st.clone()
	// an exit after the last write: the content is that of the next iteration
	for _, k := range sortedKeys(r.objs) {
		h, o := r.objs[k], st.objs[k]
		if h.mode != smClosed || h.lobj != nil || h.h == nil || o == nil || o == h.h || len(o.ents) <= len(h.h.ents) {
			continue
		}
		hn := substObj(kSubst(r.k, addc(r.kP, 1)), h.h)
		a := o
		if m := mergeRuns(x, o.ents); len(m) < len(o.ents) {
			a = o.clone()
			a.ents = m
		}
		if eqContent(x, a, hn) {
			n := o.clone()
			n.ents, n.base = hn.ents, hn.base
			nst.objs[k] = n
		}
	}
	nst.inst = append([]*Poly(nil), r.p0.st.inst...)
	ctx := r.base
	for _, c := range factsBeyond(x, r.base) {
		ctx = ctx.assume(s.C(c))
	}
	if by != r.n {
		ctx = ctx.assume(mkGE(by))
	}
	nst.ctx = ctx
	if ctx.infeasible() {
		return nil
	}
	for k, o := range nst.objs {
		if n := substObj(s, o); n != o {
			nst.objs[k] = n
		}
	}
	p := &Path{st: nst, env: make(map[ssa.Value]Value, len(e.p.env)), defers: e.p.defers}
	for k, v := range e.p.env {
		n := substV(s, v)
		if b, ok := n.(ByteV); ok && b.b != asByte(v) {
			n = ByteV{ctx.simpB(b.b)}
		}
		p.env[k] = n
	}
	out := *e
	out.p = p
	if e.val != nil {
		out.val = substV(s, e.val)
	}
	// simplify the contents under the exit facts
	for k, o := range nst.objs {
		if len(o.ents) > 0 && st.objs[k] != r.p0.st.objs[k] {
			nst.objs[k] = pruneObj(ctx, o)
		}
	}
	return &out
}

func (e *exit) from0() int {
	if e.from != nil {
		return e.from.Index
	}
	return -1
}

// pruneObj drops entries whose guard can never hold.
func pruneObj(x *Ctx, o *Obj) *Obj {
	y := x
	if !strings.HasSuffix(o.site, ".has") && !strings.HasSuffix(o.site, ".val") {
		y = y.assume(mkGE(jP), mkLT(jP, o.ln))
	}
	n := o.clone()
	n.ents = nil
	ch := false
	for k, e := range o.ents {
		if y.decide(e.g) == -1 {
			ch = true
			continue
		}
		over := false
		if len(o.ents) <= 6 {
			for _, l := range o.ents[k+1:] {
				if y.assume(e.g).prove(l.g) {
					over = true
					break
				}
			}
		}
		if over {
			ch = true
			continue
		}
		n.ents = append(n.ents, e)
	}
	if !ch {
		return o
	}
	return n
}

// stripWraps replaces every wrapped signed value by the value itself.
func stripWraps(p *Poly) *Poly { return stripWrap(p, "wrap:int") }
func noWraps(p *Poly) *Poly    { return stripWrap(p, "wrap:") }

func stripWrap(p *Poly, prefix string) *Poly {
	out := konst(0)
	for _, t := range p.t {
		m := konst(t.c)
		for _, a := range t.m {
			if a.kind == AApp && strings.HasPrefix(a.name, prefix) && len(a.ps) == 1 {
				m = mul(m, stripWrap(a.ps[0], prefix))
			} else {
				m = mul(m, atomPoly(a))
			}
		}
		out = add(out, m)
	}
	return out
}

// replaceAtom replaces an atom where it occurs as a factor.
func replaceAtom(p *Poly, a *Atom, by *Poly) *Poly {
	out := konst(0)
	for _, t := range p.t {
		m := konst(t.c)
		for _, f := range t.m {
			if f == a {
				m = mul(m, by)
			} else {
				m = mul(m, atomPoly(f))
			}
		}
		out = add(out, m)
	}
	return out
}

func backs0(exits []*exit) (out []*exit) {
	for _, e := range exits {
		if e.kind == exBack && !e.p.st.ctx.infeasible() {
			out = append(out, e)
		}
	}
	return out
}

// outstanding: the pooled buffers the state holds.
func outstanding(st *State) map[string]bool {
	out := map[string]bool{}
	for k, on := range st.flags {
		if on && strings.HasPrefix(k, "got:") && !st.flags["released:"+k[4:]] {
			out[k[4:]] = true
		}
	}
	return out
}

// ownershipChange: what is held differently at the end of a round.
func ownershipChange(a, b *State) string {
	x, y := outstanding(a), outstanding(b)
	for _, k := range sortedKeys(y) {
		if !x[k] {
			return "a buffer is taken from a pool and not given back"
		}
	}
	for _, k := range sortedKeys(x) {
		if !y[k] {
			return "a buffer taken before the loop is given back"
		}
	}
	return ""
}

// open: a loop without a bound has to be a rejection loop: what is rejected is
// one byte, every round replaces it by a fresh random one, and fewer than 256
// values are rejected.
func (r *loopRun) open(backs []*exit) {
	why := r.rejection(backs)
	r.log("open: %s", why)
	if why == "" {
		why = "rejection"
	}
	r.ended(why)
}

// ended records how it is known that the loop ends.
func (r *loopRun) ended(how string) {
	in := r.L.header.Instrs[len(r.L.header.Instrs)-1]
	r.f.note("loop:"+loopKey(r.L)+":"+how, in, r.p0.st)
}

func loopKey(l *Loop) string {
	return fmt.Sprintf("%s.b%d", l.header.Parent().String(), l.header.Index)
}

func (r *loopRun) rejection(backs []*exit) string {
	if len(backs) == 0 {
		return "no path returns to the start of the loop"
	}
	var cands []*Atom
	for _, c := range r.litsOf(backs[0]) {
		c.walk(func(a *Atom) {
			if a.kind != BSel && a.kind != AApp || !strings.HasPrefix(a.name, "hv:"+r.name) && !strings.HasPrefix(a.name, "hv:$"+r.name) {
				return
			}
			now := false
			for _, p := range a.ps {
				now = now || p == r.kP
			}
			for _, o := range cands {
				now = now && o != a
			}
			if now {
				cands = append(cands, a)
			}
		})
	}
	// what a round draws may also be what it rejects
	var draws []*Atom
	for _, c := range r.litsOf(backs[0]) {
		c.walk(func(a *Atom) {
			for _, o := range draws {
				if o == a {
					return
				}
			}
			if _, _, ok := r.drawnHere(backs[0], a); ok {
				draws = append(draws, a)
			}
		})
	}
	why := "nothing that changes from round to round is what keeps the loop going"
	for _, v := range draws {
		if why = r.rejectsDraw(v, backs); why == "" {
			return ""
		}
	}
	for _, v := range cands {
		if why = r.rejects(v, backs); why == "" {
			return ""
		}
	}
	return why
}

// drawnHere: the atom is drawn in this round; the values that can come.
func (r *loopRun) drawnHere(e *exit, a *Atom) (lo, hi int64, ok bool) {
	switch a.kind {
	case BSel, BInt:
		return r.drawn(e, atomBT(a))
	case AApp:
		if !strings.HasPrefix(a.name, "weakn:") {
			return 0, 0, false
		}
		for _, p := range a.ps {
			if p == r.kP {
				l, h, okL, okH := e.p.st.ctx.bounds(atomPoly(a))
				return l, h, okL && okH
			}
		}
	}
	return 0, 0, false
}

// rejectsDraw: v is drawn in each round and fewer values than can come keep the loop going.
func (r *loopRun) rejectsDraw(v *Atom, backs []*exit) string {
	total := konst(0)
	from, to := int64(0), int64(math.MaxInt64)
	for _, e := range backs {
		lo, hi, ok := r.drawnHere(e, v)
		if !ok {
			return "what a round tries is not a fresh random value"
		}
		from, to = max(from, lo), min(to, hi)
		best := r.fewest(e, v, from, to)
		if best == nil {
			return "any number of values may be rejected when " + fmtCtx(e.p.st.ctx)
		}
		total = add(total, best)
	}
	r.log("rejects %s draws of %d", total, to-from+1)
	if !r.base.assume(mkGE(r.kP)).proveGE(sub(konst(to-from), total)) {
		return sprintf("every value may be rejected: %s of %d", total, to-from+1)
	}
	return ""
}

// fewest: the best bound on the values of v with which a round ends this way.
func (r *loopRun) fewest(e *exit, v *Atom, from, to int64) *Poly {
	var best *Poly
	for _, c := range r.litsOf(e) {
		if n := rejected(c, v, from, to); n != nil && (best == nil || e.p.st.ctx.proveGE(sub(best, n))) {
			best = n
		}
	}
	return best
}

// rejects: v is drawn anew in each round and fewer than 256 values keep the loop going.
func (r *loopRun) rejects(v *Atom, backs []*exit) string {
	total := konst(0)
	from, to := int64(0), int64(255)
	for _, e := range backs {
		x := e.p.st.ctx
		var nv Value
		for _, s := range r.slots {
			if "hv:"+s.name == v.name {
				nv = r.update(e, s)
			}
		}
		for _, k := range sortedKeys(r.objs) {
			h := r.objs[k]
			nm := "hv:" + r.name + ":" + h.site
			if h.init == nil || v.name != nm && v.name != nm+"#" || e.p.st.objs[k] == nil {
				continue
			}
			at, inst := h.cell, len(v.ps)
			if at == nil && v.name == nm {
				inst--
				at = v.ps[inst]
			}
			if at == nil || inst < h.init.ninst {
				continue
			}
			cs := cellCases(x, e.p.st.objs[k], v.ps[inst-h.init.ninst:inst], at)
			nv = cs[0].v
			if len(cs) != 1 {
				return "the value " + v.String() + " is replaced only sometimes"
			}
		}
		r.log("next %s: %s", v, showV(nv))
		var bv *BT
		switch y := nv.(type) {
		case ByteV:
			bv = y.b
		case IntV:
			bv = asByte(y)
		default:
			return "the values tried are not bytes"
		}
		lo, hi, ok := r.drawn(e, bv)
		if !ok {
			return "the next round tries " + showV(nv) + ", which is not a fresh random byte"
		}
		from, to = max(from, lo), min(to, hi)
		best := r.fewest(e, v, from, to)
		if best == nil {
			return "any number of values may be rejected when " + fmtCtx(x)
		}
		total = add(total, best)
	}
	r.log("rejects %s values", total)
	if !r.base.assume(mkGE(r.kP)).proveGE(sub(konst(to-from), total)) {
		return sprintf("every value may be rejected: %s of %d", total, to-from+1)
	}
	return ""
}

// drawn: b is drawn in this round, and every value from lo to hi can come.
func (r *loopRun) drawn(e *exit, b *BT) (lo, hi int64, ok bool) {
	x := e.p.st.ctx
	a := b.single()
	if a == nil {
		return 0, 0, false
	}
	isDraw := func(a *Atom, ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(a.name, p+":") {
				return true
			}
		}
		return false
	}
	if strings.HasPrefix(a.name, "ks:") {
		return 0, 255, len(a.ps) == 1 && r.advances(e, a.ps[0])
	}
	// a draw made, or a byte of one taken, in this round
	here := func(a *Atom) bool {
		for _, p := range a.ps {
			if p == r.kP {
				return true
			}
		}
		return false
	}
	if a.kind == BSel {
		return 0, 255, isDraw(a, "sec", "gen", "weak") && here(a)
	}
	if a.kind != BInt {
		return 0, 0, false
	}
	p := a.ps[0]
	var d *Atom
	p.walk(func(t *Atom) {
		if isDraw(t, "weaku32", "weaku64", "weakint", "weakn") {
			d = t
		}
	})
	if d == nil || !here(d) {
		return 0, 0, false
	}
	dp := atomPoly(d)
	if p == sub(dp, scale(divP(dp, konst(256)), 256)) {
		l, h, okL, okH := x.bounds(dp)
		if isDraw(d, "weaku32", "weaku64", "weakint") || okL && okH && l == 0 && h >= 255 {
			return 0, 255, true
		}
		return 0, 0, false
	}
	if c := sub(p, dp); !c.has(d) && isDraw(d, "weakn") {
		if k, isC := c.isConst(); isC {
			l, h, okL, okH := x.bounds(dp)
			return l + k, h + k, okL && okH && l+k >= 0 && h+k <= 255
		}
	}
	return 0, 0, false
}

// advances: a position in a key stream is larger in the next round (fewer than
// 2^62 bytes are ever read).
func (r *loopRun) advances(e *exit, pos *Poly) bool {
	now := noWraps(pos)
	next := now
	for _, s := range r.slots {
		if s.mode != smHavoc {
			continue
		}
		h, ok := s.h.(IntV)
		if !ok {
			continue
		}
		if a := h.p.single(); a != nil {
			if u, ok := r.update(e, s).(IntV); ok {
				next = replaceAtom(next, a, noWraps(u.p))
			}
		}
	}
	if next == now {
		next = substP(now, r.k, addc(r.kP, 1))
	}
	r.log("key stream position %s, next %s", now, next)
	return e.p.st.ctx.proveGE(addc(sub(next, now), -1))
}

// rejected bounds the number of values of v that satisfy c; nil: no bound.
func rejected(c *Cond, v *Atom, from, to int64) *Poly {
	has := func(b *BT) bool {
		found := false
		b.walk(func(a *Atom) { found = found || a == v })
		return found
	}
	switch c.kind {
	case CFalse:
		return konst(0)
	case CEQ:
		if a, _, ok := c.p.linIn(v); ok && (a.isC(1) || a.isC(-1)) {
			return konst(1)
		}
	case CBEQ:
		if rest := bxor(c.b, atomBT(v)); has(c.b) && !has(rest) {
			if k, isC := rest.isConst(); isC && (int64(k) < from || int64(k) > to) {
				return konst(0)
			}
			return konst(1)
		}
	case COr:
		n := konst(0)
		for _, d := range c.cs {
			m := rejected(d, v, from, to)
			if m == nil {
				return nil
			}
			n = add(n, m)
		}
		return n
	case CAnd:
		for _, d := range c.cs {
			if m := rejected(d, v, from, to); m != nil {
				return m
			}
		}
	case CEx:
		if m := rejected(c.body, v, from, to); m != nil && !m.has(c.v) {
			return mul(m, sub(c.hi, c.lo))
		}
	}
	return nil
}
