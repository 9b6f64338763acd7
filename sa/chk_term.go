package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X07: every operation terminates.

func init() {
	register("X07", "termination analysis of every loop over the SSA (ranking of counters), relational abstract interpretation for the rest; who-may-block analysis", checkX07)
}

func checkX07(r *Report) {
	r.rule("Every loop of every function that library code can reach has a test on every round which compares a counter that moves by a constant step towards a bound that the loop does not change (without wrapping around on the way), or is a range loop; a loop for which that is not plain is interpreted from the operations that reach it: it either has a ranking term over its rounds (verified as part of the loop's fixpoint), or is a rejection loop: every round replaces the rejected byte by a fresh random one that can take each of an interval of values, and fewer values than that keep the loop going, on every path into it. Assembly loops are interpreted with the vector operations. There is no recursion. Channel operations are selects with a default case; each WaitGroup is waited on with a count that the goroutines started before bring to zero on each of their paths; each lock is given back on every path and not taken again while held.")
	r.assumes("no loop runs 2^60 times", "a random byte source does not repeat one value for ever", "the operations of the dependencies terminate")
	cfgs := []Config{cfgAMD64, cfgARM64, cfgNoasm}
	plans := map[string]func(r *Report){}
	names := []string{"vectors"}
	plans["vectors"] = func(r *Report) {
		vectorAnas(r, func(a *Ana, st *State, fn *ssa.Function, isAdd bool, args []Value) { loopNotes(r, a) })
	}
	var after []func()
	for _, c := range cfgs {
		w := load(c)
		t := termination(r, w, c)
		after = append(after, t.covered)
		for _, n := range sortedKeys(t.runs) {
			names = append(names, c.String()+" "+n)
			plans[c.String()+" "+n] = t.runs[n]
		}
	}
	r.parts(names, func(s *Report, name string) { plans[name](s) })
	for _, f := range after {
		f()
	}
	r.atLeast("loop ends", 40)
	r.atLeast("rejection loop ends", 2)
	r.atLeast("wait ends", 1)
}

// loopNotes obliges what the interpretation found about loops.
func loopNotes(r *Report, a *Ana) {
	nm := short(a.name)
	for _, k := range sortedKeys(a.it.notes) {
		n := a.it.notes[k]
		if why := strings.TrimPrefix(n.kind, "wait:"); why != n.kind {
			r.oblige(why == "ok", "wait ends", nm, n.pos, "waits %s", why)
			r.count("interpreted: wait in "+n.fn, 1)
		}
		if !strings.HasPrefix(n.kind, "loop:") {
			continue
		}
		p := strings.SplitN(n.kind, ":", 3)
		r.count("interpreted: loop "+p[1], 1)
		switch p[2] {
		case "bounded":
			r.oblige(true, "loop ends", nm+" "+p[1], n.pos, "")
		case "rejection":
			r.oblige(true, "rejection loop ends", nm+" "+p[1], n.pos, "")
		default:
			r.oblige(false, "loop ends", nm+" "+p[1], n.pos, "the loop has no bound, and %s", p[2])
		}
	}
}

type termPlan struct {
	runs    map[string]func(r *Report)
	covered func()
}

func termination(r *Report, w *World, c Config) termPlan {
	g := w.reach()
	open := map[string]*Loop{}
	todo := map[*ssa.Function]bool{} // needs interpretation
	for _, fn := range g.order {
		if !w.libFn(fn) || len(fn.Blocks) == 0 {
			continue
		}
		nm := short(fn.String()) + " on " + c.String()
		r.count("functions", 1)
		if bad := irreducible(fn); bad != nil {
			r.oblige(false, "loop ends", nm, w.pos(fn.Pos()), "jumps into the middle of a loop")
		}
		li := loopsOf(fn)
		var hs []*ssa.BasicBlock
		for h := range li.byHeader {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for _, h := range hs {
			l := li.byHeader[h]
			if boundedLoop(w, l) {
				r.oblige(true, "loop ends", nm+" "+h.String(), loopPos(w, l), "")
				continue
			}
			open[loopKey(l)] = l
			todo[fn] = true
		}
		if blocks(r, w, fn, nm) {
			todo[fn] = true
		}
	}
	recursion(r, w, g, c)

	// the operations to interpret: those that reach a function with open questions
	plan := termPlan{runs: map[string]func(r *Report){}}
	reached := func(from *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == nil || seen[f] || !w.libFn(f) {
				return false
			}
			seen[f] = true
			if todo[f] {
				return true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && walk(g) {
							return true
						}
					}
				}
			}
			return false
		}
		return walk(from)
	}
	for _, o := range allOps() {
		o := o
		fn := w.fnOf(r, o.pkg+"."+o.name, o.params...)
		// what an operation of another package does is a contract
		if fn == nil || !reached(fn) || o.pkg == "krawczyk" && !anyIn(todo, "krawczyk") {
			continue
		}
		plan.runs[o.pkg+"."+o.name] = func(r *Report) {
			if o.pkg == "shamir" {
				fieldTables(r, w)
			}
			it := newInterp(w, o.pkg)
			it.fail = true
			st := newState()
			args := it.entryArgs(st, fn)
			if a := analyse(r, it, fn, st, args); a.ok {
				loopNotes(r, a)
			}
		}
	}
	for _, gen := range []genSpec{csprngGen, randomizerGen} {
		gen := gen
		if !anyIn(todo, gen.pkg) {
			continue
		}
		plan.runs[gen.pkg] = func(r *Report) {
			for _, ct := range gen.ctors {
				for _, s := range gen.construct(r, w, ct) {
					if gen.history(r, s) {
						gen.loops(r, s, reached)
					}
				}
			}
		}
	}
	plan.covered = func() {
		for _, k := range sortedKeys(open) {
			l := open[k]
			r.oblige(r.analysed["interpreted: loop "+k] > 0, "loop ends", short(k)+" on "+c.String(), loopPos(w, l), "cannot tell whether the loop ends")
		}
		for fn := range todo {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(*ssa.Call); ok && calleeIs(cl.Common(), "(*sync.WaitGroup).Wait") {
						r.oblige(r.analysed["interpreted: wait in "+fn.RelString(nil)] > 0, "wait ends", short(fn.String())+" on "+c.String(), w.instrPos(in), "cannot tell whether the wait ends")
					}
				}
			}
		}
	}
	return plan
}

// loops interprets the methods of a generator that reach open loops.
func (g genSpec) loops(r *Report, s *genState, reached func(*ssa.Function) bool) {
	for _, fn := range s.w.exported() {
		sig := fn.Signature
		if fn.Pkg != s.w.spkg[g.pkg] || sig.Recv() == nil || !reached(fn) {
			continue
		}
		st := s.st.clone()
		s.it.root = "/" + fn.Name()
		s.it.alarms, s.it.notes = map[string]*Alarm{}, map[string]*Note{}
		args := []Value{s.recv}
		for i := 0; i < sig.Params().Len(); i++ {
			args = append(args, s.it.symbolicV(st, "in:"+sig.Params().At(i).Name(), sig.Params().At(i).Type(), nil, nil))
		}
		if a := analyse(r, s.it, fn, st, args); a.ok {
			loopNotes(r, a)
		}
	}
}

func anyIn(fns map[*ssa.Function]bool, pkg string) bool {
	for fn := range fns {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() == pkg {
			return true
		}
	}
	return false
}

func calleeIs(c *ssa.CallCommon, names ...string) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	for _, n := range names {
		if f.RelString(nil) == n {
			return true
		}
	}
	return false
}

func loopPos(w *World, l *Loop) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return w.pos(in.Pos())
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return w.pos(in.Pos())
			}
		}
	}
	return w.pos(l.header.Parent().Pos())
}

// irreducible finds a cycle that is not a natural loop.
func irreducible(fn *ssa.Function) *ssa.BasicBlock {
	state := map[*ssa.BasicBlock]int{}
	var bad *ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			switch state[s] {
			case 0:
				walk(s)
			case 1:
				bad = s
			}
		}
		state[b] = 2
	}
	walk(fn.Blocks[0])
	return bad
}

// ---------- ranking counters ----------

// boundedLoop: some test on every round bounds the number of rounds.
func boundedLoop(w *World, l *Loop) bool {
	var latches []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if l.blocks[p] {
			latches = append(latches, p)
		}
	}
	for b := range l.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		every := true
		for _, p := range latches {
			every = every && (b == p || b.Dominates(p))
		}
		if !every || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		q := &rankLoop{w, l, latches}
		if q.bounds(br.Cond, l.blocks[b.Succs[0]]) {
			return true
		}
	}
	return false
}

type rankLoop struct {
	w       *World
	l       *Loop
	latches []*ssa.BasicBlock
}

// bounds: cond == stay cannot hold for ever.
func (q *rankLoop) bounds(cond ssa.Value, stay bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return q.bounds(x.X, !stay)
		}
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok || !stay || x.Index != 0 || !q.l.blocks[nx.Block()] {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || q.l.blocks[rg.Block()] {
			return false
		}
		// a map must not grow meanwhile
		if nx.IsString {
			return true
		}
		for b := range q.l.blocks {
			for _, in := range b.Instrs {
				if _, up := in.(*ssa.MapUpdate); up {
					return false
				}
			}
		}
		return true
	case *ssa.BinOp:
		op := x.Op
		if !stay {
			neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
			var ok bool
			if op, ok = neg[op]; !ok {
				return false
			}
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}
		return q.test(x.X, op, x.Y) || q.test(x.Y, flip[op], x.X)
	}
	return false
}

// invariant values do not change while the loop runs.
func (q *rankLoop) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !q.l.blocks[in.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return q.invariant(x.X) && q.invariant(x.Y)
	case *ssa.Convert:
		return q.invariant(x.X)
	case *ssa.ChangeType:
		return q.invariant(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			a := x.Call.Args[0]
			if _, isMap := a.Type().Underlying().(*types.Map); isMap {
				return false
			}
			return q.invariant(a)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return q.invariant(x.X)
		}
		if x.Op != token.MUL {
			return false
		}
		// a slot that is written nowhere in the loop
		root, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *root.Referrers() {
			switch y := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if y.Addr != ssa.Value(root) || q.l.blocks[y.Block()] {
					return false
				}
			case *ssa.MakeClosure:
				// read-only in the closure
				for k, b := range y.Bindings {
					if b == ssa.Value(root) && !onlyLoads(y.Fn.(*ssa.Function).FreeVars[k]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

func onlyLoads(fv ssa.Value) bool {
	for _, r := range *fv.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// step finds v == φ + c for a header φ of the loop.
func (q *rankLoop) counter(v ssa.Value, depth int) (*ssa.Phi, int64, bool) {
	if depth > 6 {
		return nil, 0, false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x, 0, x.Block() == q.l.header
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return nil, 0, false
		}
		a, b := x.X, x.Y
		c, ok := constInt(b)
		if !ok && x.Op == token.ADD {
			a, b = b, a
			c, ok = constInt(b)
		}
		if !ok {
			return nil, 0, false
		}
		if x.Op == token.SUB {
			c = -c
		}
		p, d, ok := q.counter(a, depth+1)
		return p, c + d, ok
	case *ssa.Convert:
		// widening keeps the value
		f, okF := x.X.Type().Underlying().(*types.Basic)
		t, okT := x.Type().Underlying().(*types.Basic)
		if okF && okT && f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 && intBits(f) < intBits(t) && f.Info()&types.IsUnsigned != 0 {
			p, d, ok := q.counter(x.X, depth+1)
			if ok && d == 0 {
				return p, 0, true
			}
		}
	}
	return nil, 0, false
}

func intBits(t *types.Basic) int {
	switch t.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// steps: how much φ changes in one round, on every way back.
func (q *rankLoop) steps(ph *ssa.Phi) (lo, hi int64, ok bool) {
	first := true
	var visit func(v ssa.Value, depth int) bool
	visit = func(v ssa.Value, depth int) bool {
		if p, c, ok := q.counter(v, 0); ok && p == ph {
			if first || c < lo {
				lo = c
			}
			if first || c > hi {
				hi = c
			}
			first = false
			return true
		}
		if p, ok := v.(*ssa.Phi); ok && p != ph && q.l.blocks[p.Block()] && p.Block() != q.l.header && depth < 5 {
			for _, e := range p.Edges {
				if !visit(e, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for k, p := range q.l.header.Preds {
		if q.l.blocks[p] && !visit(ph.Edges[k], 0) {
			return 0, 0, false
		}
	}
	return lo, hi, !first
}

// test: x op y, which holds whenever the loop goes on, fails at some time.
func (q *rankLoop) test(x ssa.Value, op token.Token, y ssa.Value) bool {
	if c, ok := x.(*ssa.Call); ok { // the length of what gets shorter
		if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			ph, isPhi := c.Call.Args[0].(*ssa.Phi)
			n, isC := constInt(y)
			if isPhi && isC && ph.Block() == q.l.header && (op == token.GTR && n >= 0 || op == token.GEQ && n >= 1 || op == token.NEQ && n == 0) {
				return q.shrinks(ph)
			}
		}
		return false
	}
	ph, off, ok := q.counter(x, 0)
	if !ok || !q.invariant(y) {
		return false
	}
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	lo, hi, ok := q.steps(ph)
	if !ok {
		return false
	}
	bits, unsigned := intBits(bt), bt.Info()&types.IsUnsigned != 0
	max := int64(1)<<62 - 1
	min := -max
	if bits < 64 {
		max = int64(1)<<uint(bits) - 1
		min = 0
		if !unsigned {
			max = int64(1)<<uint(bits-1) - 1
			min = -max - 1
		}
	} else if unsigned {
		min = 0
	}
	bottom, top := valRange(y, 0)
	switch op {
	case token.LSS, token.LEQ: // φ+off < y keeps going: φ has to grow, and not past the largest value
		if lo <= 0 {
			return false
		}
		last := top - 1
		if op == token.LEQ {
			last = top
		}
		// the test sees φ+off ≤ last; the next φ is at most last-off+hi
		return last-off+hi <= max && last+hi <= max
	case token.GTR, token.GEQ:
		if hi >= 0 {
			return false
		}
		last := bottom + 1
		if op == token.GEQ {
			last = bottom
		}
		return last-off+lo >= min && last+lo >= min
	case token.NEQ:
		if lo != hi || lo != 1 && lo != -1 {
			return false
		}
		if bits < 32 {
			return true // all values come
		}
		// starts on the right side
		for k, p := range q.l.header.Preds {
			if q.l.blocks[p] {
				continue
			}
			c, isC := constInt(ph.Edges[k])
			if lo > 0 && !(isC && c+off <= bottom) {
				return false
			}
			if lo < 0 && !(bottom == top && isLen(ph.Edges[k]) && bottom <= off) {
				return false
			}
		}
		return true
	}
	return false
}

// valRange bounds an integer; sums of lengths and the like stay far below 2^62.
func valRange(v ssa.Value, depth int) (lo, hi int64) {
	const far = int64(1)<<62 - 1<<40
	bt, ok := v.Type().Underlying().(*types.Basic)
	if !ok {
		return -far, far
	}
	lo, hi = -far, far
	if bits := intBits(bt); bits < 64 {
		hi = int64(1)<<uint(bits-1) - 1
		lo = -hi - 1
		if bt.Info()&types.IsUnsigned != 0 {
			lo, hi = 0, 2*hi+1
		}
	} else if bt.Info()&types.IsUnsigned != 0 {
		lo = 0
	}
	if depth > 6 {
		return lo, hi
	}
	fit := func(l, h int64) (int64, int64) {
		if l >= lo && h <= hi {
			return l, h
		}
		return lo, hi
	}
	if c, isC := constInt(v); isC {
		return c, c
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Info()&types.IsInteger != 0 {
			return fit(valRange(x.X, depth+1))
		}
	case *ssa.ChangeType:
		return fit(valRange(x.X, depth+1))
	case *ssa.Call:
		if isLen(x) {
			return 0, 1 << 47
		}
	case *ssa.BinOp:
		al, ah := valRange(x.X, depth+1)
		bl, bh := valRange(x.Y, depth+1)
		switch {
		case al == -far || ah == far || bl == -far || bh == far:
		case x.Op == token.ADD:
			return fit(al+bl, ah+bh)
		case x.Op == token.SUB:
			return fit(al-bh, ah-bl)
		case x.Op == token.QUO && al >= 0 && bl >= 1:
			return fit(al/bh, ah/bl)
		case x.Op == token.AND && bl >= 0:
			return fit(0, bh)
		}
	}
	return lo, hi
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}

// shrinks: every round cuts a constant number of elements off the slice.
func (q *rankLoop) shrinks(ph *ssa.Phi) bool {
	for k, p := range q.l.header.Preds {
		if !q.l.blocks[p] {
			continue
		}
		cut := int64(0)
		v := ph.Edges[k]
		for {
			s, ok := v.(*ssa.Slice)
			if !ok {
				break
			}
			if s.Low != nil {
				c, isC := constInt(s.Low)
				if !isC || c < 0 {
					return false
				}
				cut += c
			}
			v = s.X
		}
		if v != ssa.Value(ph) || cut < 1 {
			return false
		}
	}
	return true
}

// ---------- recursion and blocking ----------

func recursion(r *Report, w *World, g *Reach, c Config) {
	state := map[*ssa.Function]int{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		state[fn] = 1
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || !w.libFn(f) {
						continue
					}
					switch state[f] {
					case 0:
						walk(f)
					case 1:
						r.oblige(false, "no recursion", short(f.String())+" on "+c.String(), w.instrPos(in), "%s calls itself, directly or not", short(f.String()))
					}
				}
			}
		}
		state[fn] = 2
	}
	for _, fn := range g.order {
		if w.libFn(fn) && state[fn] == 0 {
			walk(fn)
		}
	}
	r.oblige(true, "no recursion", c.String(), "", "")
}

// blocks obliges what may block in fn; true if the interpretation has to decide.
func blocks(r *Report, w *World, fn *ssa.Function, nm string) bool {
	todo := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			at := w.instrPos(in)
			switch x := in.(type) {
			case *ssa.Select:
				r.oblige(!x.Blocking, "channel operation does not block", nm, at, "a select without default may wait for ever")
			case *ssa.Send:
				r.oblige(roomFor(x), "channel operation does not block", nm, at, "a send may wait for ever")
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					r.oblige(closedBefore(x), "channel operation does not block", nm, at, "a receive may wait for ever")
				}
			case ssa.CallInstruction:
				cc := x.Common()
				switch {
				case calleeIs(cc, "(*sync.WaitGroup).Wait"):
					todo = true
				case calleeIs(cc, "(*sync.Cond).Wait", "(*sync.WaitGroup).Go"):
					r.oblige(false, "wait ends", nm, at, "cannot tell whether %s ends", cc.StaticCallee().RelString(nil))
				case calleeIs(cc, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock"):
					why := "a lock is taken in a deferred call or goroutine"
					if cl, ok := in.(*ssa.Call); ok {
						why = lockEnds(w, cl)
					}
					r.oblige(why == "", "lock is given back", nm, at, "%s", why)
				}
			}
		}
	}
	return todo
}

// roomFor: a send in straight-line code on a channel just made with room.
func roomFor(s *ssa.Send) bool {
	m, ok := s.Chan.(*ssa.MakeChan)
	if !ok || m.Block() != s.Block() {
		return false
	}
	n, isC := constInt(m.Size)
	if !isC {
		return false
	}
	for _, r := range *m.Referrers() {
		if o, ok := r.(*ssa.Send); ok {
			if o.Block() != s.Block() {
				return false
			}
			n--
		}
	}
	for _, l := range loopsOf(s.Parent()).byHeader {
		if l.blocks[s.Block()] != l.blocks[m.Block()] {
			return false
		}
	}
	return n >= 0
}

// closedBefore: the channel was closed on every path to the receive.
func closedBefore(x *ssa.UnOp) bool {
	for _, b := range x.Parent().Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "close" || !sameChan(c.Call.Args[0], x.X) {
				continue
			}
			if b != x.Block() {
				if b.Dominates(x.Block()) {
					return true
				}
				continue
			}
			for _, o := range b.Instrs[i:] {
				if o == ssa.Instruction(x) {
					return true
				}
			}
		}
	}
	return false
}

func sameChan(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
		return false
	}
	al, ok := x.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			n++
		}
	}
	return n == 1
}

// lockEnds: the lock is given back on every path to a return, and nothing between takes it.
func lockEnds(w *World, lock *ssa.Call) string {
	same := func(v ssa.Value) bool { return sameAddr(lock.Call.Args[0], v) }
	unlock := func(c *ssa.CallCommon) bool {
		return calleeIs(c, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock") && same(c.Args[0])
	}
	why := ""
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int, later bool)
	walk = func(b *ssa.BasicBlock, from int, later bool) {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Defer:
				later = later || unlock(x.Common())
			case *ssa.Call:
				if unlock(x.Common()) {
					if later {
						why = "gives the lock back twice"
					}
					return
				}
				if f := x.Call.StaticCallee(); f != nil && w.libFn(f) && takesLock(w, f, map[*ssa.Function]bool{}) {
					why = "calls " + short(f.String()) + ", which takes a lock, with the lock held"
				}
				if calleeIs(x.Common(), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock") {
					why = "takes a lock with a lock held"
				}
			case *ssa.Return:
				if !later {
					why = "returns with the lock held"
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0, later)
			}
		}
	}
	for i, in := range lock.Block().Instrs {
		if in == ssa.Instruction(lock) {
			walk(lock.Block(), i+1, false)
		}
	}
	return why
}

func takesLock(w *World, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if calleeIs(c.Common(), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock") {
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && w.libFn(f) && takesLock(w, f, seen) {
				return true
			}
		}
	}
	return false
}

// sameAddr: two addresses of one variable.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}
