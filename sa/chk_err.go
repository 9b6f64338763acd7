package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error flow: on every path on which a call has returned a non-nil error, the
// function that made the call reports failure.

type errFlow struct {
	r       *Report
	w       *World
	rule    string
	infal   map[*ssa.Function]int // 1 in progress, 2 infallible, 3 fallible
	library map[*ssa.Function]bool
	partial map[*ssa.Function]bool // internal functions that return data with an error
}

func newErrFlow(r *Report, w *World, rule string) *errFlow {
	e := &errFlow{r: r, w: w, rule: rule, infal: map[*ssa.Function]int{}, library: map[*ssa.Function]bool{}, partial: map[*ssa.Function]bool{}}
	for _, sp := range w.spkg {
		for _, f := range allFuncs(w.prog, sp) {
			e.library[f] = true
		}
	}
	return e
}

// errIndex is the position of the error among the results, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// infallible: the error the function returns is always nil.
func (e *errFlow) infallible(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	switch fn.RelString(nil) {
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune",
		"(*strings.Builder).Write", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune":
		return true
	}
	if !e.library[fn] || len(fn.Blocks) == 0 {
		return false
	}
	switch e.infal[fn] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	e.infal[fn] = 1
	ok := true
	for _, b := range fn.Blocks {
		if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(ret.Results) > 0 {
			ok = ok && e.nilErrV(ret.Results[len(ret.Results)-1], 0)
		}
	}
	e.infal[fn] = 3
	if ok {
		e.infal[fn] = 2
	}
	return ok
}

// nilErrV: v is always a nil error.
func (e *errFlow) nilErrV(v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && e.infallible(c.Call.StaticCallee())
	case *ssa.Call:
		return e.infallible(x.Call.StaticCallee())
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y != v && !e.nilErrV(y, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// errPathState is what is known on a path after the failure.
type errPathState struct {
	bad      map[ssa.Value]bool      // values that are a non-nil error
	cells    map[ssa.Value]bool      // variables that hold one
	phi      map[ssa.Value]ssa.Value // what a value is on this path
	vals     map[ssa.Value]ssa.Value // what a local variable holds
	reported bool
}

func (s *errPathState) clone() *errPathState {
	n := &errPathState{bad: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}, reported: s.reported}
	for k := range s.bad {
		n.bad[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	return n
}
func (s *errPathState) key() string {
	var ks []string
	for k := range s.bad {
		ks = append(ks, k.Name())
	}
	for k := range s.cells {
		ks = append(ks, "*"+k.Name())
	}
	for k, v := range s.phi {
		ks = append(ks, k.Name()+"="+v.Name())
	}
	sort.Strings(ks)
	for k, v := range s.vals {
		ks = append(ks, k.Name()+":"+v.Name())
	}
	if s.reported {
		ks = append(ks, "!")
	}
	return strings.Join(ks, ",")
}

type errWalk struct {
	e      *errFlow
	fn     *ssa.Function
	origin ssa.Instruction // the failing call, select or wait
	call   *ssa.Call
	known  map[ssa.Value]bool // truth of conditions on the way
	seen   map[string]bool
	bad    func(in ssa.Instruction, why string)
	ends   int
}

func (w *errWalk) from(b *ssa.BasicBlock, i int, s *errPathState) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.origin {
			w.bad(in, "the operation goes on after the failure and tries again")
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			if plainVar(x.Addr) {
				v := x.Val
				if r, ok := s.phi[v]; ok {
					v = r
				}
				s.vals[x.Addr] = v
			}
			if s.bad[x.Val] {
				s.cells[x.Addr] = true
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					s.reported = true
				}
			} else {
				delete(s.cells, x.Addr)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && s.cells[x.X] {
				s.bad[x] = true
			}
			if v, ok := s.vals[x.X]; ok && x.Op == token.MUL {
				s.phi[x] = v
			}
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrT(x.Type()) && w.e.w.errorVar(g) {
				s.bad[x] = true
			}
		case *ssa.ChangeInterface:
			if s.bad[x.X] {
				s.bad[x] = true
			}
		case *ssa.MakeInterface:
			if isErrT(x.Type()) {
				if _, isConst := x.X.(*ssa.Const); !isConst {
					s.bad[x] = true
				}
			}
		case *ssa.Extract:
			if k, isSel := x.Tuple.(*ssa.Select); isSel && ssa.Instruction(k) == w.origin && s.bad[x] {
				s.bad[x] = true
			}
		case *ssa.Call:
			if w.nonNilCall(x, s, 0) {
				s.bad[x] = true
			}
			if fn := closureOf(x.Call.Value); fn != nil {
				for k, a := range x.Call.Args {
					if s.bad[a] && k < len(fn.Params) && w.reportsParam(fn, k) {
						s.reported = true
					}
				}
			}
		case *ssa.Send:
			if s.bad[x.X] {
				s.reported = true
			}
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly && s.bad[st.Send] {
					s.reported = true
				}
			}
		case *ssa.Panic:
			w.ends++
			return
		case *ssa.Return:
			w.ends++
			w.ret(x, s)
			return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	next := b.Succs
	var holds *ssa.BasicBlock // where the captured error variable is known to hold an error
	if br, ok := last.(*ssa.If); ok {
		switch w.truth(br.Cond, s) {
		case 1:
			next = b.Succs[:1]
		case -1:
			next = b.Succs[1:2]
		}
		if v, nonNil := captured(br.Cond); v {
			holds = b.Succs[nonNil]
		}
	}
	for _, t := range next {
		n := s.clone()
		if t == holds && len(t.Preds) == 1 || t == holds && len(next) > 1 && next[0] != next[1] {
			n.reported = true
		}
		var k int
		for j, p := range t.Preds {
			if p == b {
				k = j
			}
		}
		var phis []*ssa.Phi
		for _, in := range t.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phis = append(phis, ph)
			}
		}
		for _, ph := range phis {
			v := ph.Edges[k]
			if r, ok := s.phi[v]; ok {
				v = r
			}
			n.phi[ph] = v
			if s.bad[ph.Edges[k]] {
				n.bad[ph] = true
			} else {
				delete(n.bad, ph)
			}
		}
		key := sprintf("%d|%s", t.Index, n.key())
		if w.seen[key] {
			continue
		}
		w.seen[key] = true
		if len(w.seen) > 5000 {
			w.bad(last, "too many paths")
			return
		}
		w.from(t, len(phis), n)
	}
}

// captured: the condition compares an error variable of the enclosing function with nil;
// index of the successor on which it is an error.
func captured(c ssa.Value) (bool, int) {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false, 0
	}
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		k, isC := p[1].(*ssa.Const)
		ld, isL := p[0].(*ssa.UnOp)
		if !isC || !k.IsNil() || !isL || ld.Op != token.MUL || !isErrT(ld.Type()) {
			continue
		}
		if _, free := ld.X.(*ssa.FreeVar); free {
			if b.Op == token.NEQ {
				return true, 0
			}
			return true, 1
		}
	}
	return false, 0
}

// truth of a condition on the path: 1, -1, or 0.
func (w *errWalk) truth(c ssa.Value, s *errPathState) int {
	if v, ok := w.known[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch x := c.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return 0
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := p[1].(*ssa.Const)
			if !ok || !k.IsNil() {
				continue
			}
			v := p[0]
			nonNil := s.bad[v]
			isNil := false
			if r, ok := s.phi[v]; ok {
				if rc, ok := r.(*ssa.Const); ok && rc.IsNil() {
					isNil = true
				}
			}
			if nonNil || isNil {
				if nonNil == (x.Op == token.NEQ) {
					return 1
				}
				return -1
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -w.truth(x.X, s)
		}
	case *ssa.Phi:
		if r, ok := s.phi[x]; ok {
			if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) {
					return 1
				}
				return -1
			}
			if r != c {
				return w.truth(r, s)
			}
		}
	}
	return 0
}

// nonNilCall: the call returns a non-nil error (alone).
func (w *errWalk) nonNilCall(c *ssa.Call, s *errPathState, depth int) bool {
	if !isErrT(c.Type()) {
		return false
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		return false
	}
	switch fn.RelString(nil) {
	case "fmt.Errorf", "errors.New":
		return true
	}
	if !w.e.library[fn] || depth > 3 || len(fn.Blocks) == 0 {
		return false
	}
	// a helper that makes an error, given the failure
	in := &errPathState{bad: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}}
	for k, a := range c.Call.Args {
		if s.bad[a] && k < len(fn.Params) {
			in.bad[fn.Params[k]] = true
		}
	}
	ok := true
	x := &errWalk{e: w.e, fn: fn, known: map[ssa.Value]bool{}, seen: map[string]bool{}, bad: func(ssa.Instruction, string) { ok = false }}
	x.from(fn.Blocks[0], 0, in)
	return ok && x.ends > 0
}

// reportsParam: the local function sends its parameter on a channel or stores it in a captured variable.
func (w *errWalk) reportsParam(fn *ssa.Function, k int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if x.X == fn.Params[k] {
					return true
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly && st.Send == fn.Params[k] {
						return true
					}
				}
			case *ssa.Store:
				if _, free := x.Addr.(*ssa.FreeVar); free && x.Val == fn.Params[k] {
					return true
				}
			}
		}
	}
	return false
}

func closureOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.Function:
		return x
	}
	return nil
}

func (w *errWalk) ret(x *ssa.Return, s *errPathState) {
	i := errIndex(w.fn.Signature)
	if i < 0 {
		if !s.reported {
			w.bad(x, "returns without reporting the failure")
		}
		return
	}
	if !s.bad[x.Results[i]] {
		w.bad(x, "returns without the error")
		return
	}
	for k := 0; k < i; k++ {
		v := x.Results[k]
		if r, ok := s.phi[v]; ok {
			v = r
		}
		if c, ok := v.(*ssa.Const); ok && (c.IsNil() || c.Value == nil || isZeroConst(c)) {
			continue
		}
		if ex, ok := v.(*ssa.Extract); ok && w.call != nil && ex.Tuple == ssa.Value(w.call) && !w.e.partial[w.call.Call.StaticCallee()] {
			continue // what the failed call returned with its error
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if al, ok := ld.X.(*ssa.Alloc); ok && w.neverSet(al) {
				continue
			}
		}
		if !exportedFn(w.fn) {
			w.e.partial[w.fn] = true // for its callers to drop
			continue
		}
		w.bad(x, sprintf("returns %s as result %d with the error", v.Name(), k+1))
	}
}

// plainVar: a local variable that is only read and assigned directly.
func plainVar(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// exportedFn: callable from outside the module (a closure belongs to its function).
func exportedFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return token.IsExported(fn.Name())
}

func isZeroConst(c *ssa.Const) bool {
	switch c.Value.Kind() {
	case constant.Int:
		v, ok := constant.Int64Val(c.Value)
		return ok && v == 0
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	}
	return false
}

// neverSet: nothing but zero values are stored in the variable before the failing call.
func (w *errWalk) neverSet(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			if _, ld := r.(*ssa.UnOp); !ld {
				return false
			}
			continue
		}
		if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
			continue
		}
		return false
	}
	return true
}

// call checks one call that returns an error.
func (e *errFlow) call(fn *ssa.Function, in ssa.CallInstruction) {
	sig := in.Common().Signature()
	k := errIndex(sig)
	if k < 0 || e.infallible(in.Common().StaticCallee()) {
		return
	}
	what := callName(in)
	switch what {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
		return // makes an error, does not report one
	}
	nm := short(fn.RelString(nil)) + " calls " + what
	pos := e.w.pos(in.Pos())
	c, ok := in.(*ssa.Call)
	if !ok {
		e.r.oblige(false, e.rule, nm, pos, "the error of a deferred or concurrent call is lost")
		return
	}
	s := &errPathState{bad: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}}
	if sig.Results().Len() == 1 {
		s.bad[c] = true
	} else {
		for _, r := range *c.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == k {
				s.bad[ex] = true
			}
		}
	}
	if len(s.bad) == 0 {
		e.r.oblige(false, e.rule, nm, pos, "the error is discarded")
		return
	}
	e.walk(fn, c, c, s, nil, nm, pos)
}

func (e *errFlow) walk(fn *ssa.Function, origin ssa.Instruction, c *ssa.Call, s *errPathState, known map[ssa.Value]bool, nm, pos string) {
	var whys []string
	w := &errWalk{e: e, fn: fn, origin: origin, call: c, known: known, seen: map[string]bool{}}
	w.bad = func(in ssa.Instruction, why string) {
		at := pos
		if in.Pos().IsValid() {
			at = e.w.pos(in.Pos())
		}
		whys = append(whys, at+": "+why)
	}
	for i, in := range origin.Block().Instrs {
		if in == origin {
			w.from(origin.Block(), i+1, s)
		}
	}
	e.r.oblige(len(whys) == 0, e.rule, nm, pos, "%s", strings.Join(whys, "; "))
}

func callName(in ssa.CallInstruction) string {
	c := in.Common()
	if c.IsInvoke() {
		return c.Value.Type().String() + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return short(f.RelString(nil))
	}
	return c.Value.Name()
}

// calls checks every call in the library for which want holds.
func (e *errFlow) calls(want func(in ssa.CallInstruction) bool) int {
	// which internal functions return data with an error
	r := e.r
	for {
		before := len(e.partial)
		e.r = newReport(r.id, r.tier)
		e.callsOnce(want)
		if len(e.partial) == before {
			break
		}
	}
	e.r = r
	return e.callsOnce(want)
}

func (e *errFlow) callsOnce(want func(in ssa.CallInstruction) bool) int {
	n := 0
	for _, p := range sortedKeys(e.w.spkg) {
		for _, fn := range allFuncs(e.w.prog, e.w.spkg[p]) {
			if fn.Synthetic != "" && fn.Name() != "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && errIndex(c.Common().Signature()) >= 0 && want(c) {
						n++
						e.call(fn, c)
					}
				}
			}
		}
	}
	return n
}

// goroutines: what a goroutine reports reaches the error result of the function that started it.
func (e *errFlow) goroutines() {
	for _, p := range sortedKeys(e.w.spkg) {
		for _, fn := range allFuncs(e.w.prog, e.w.spkg[p]) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						e.goroutine(fn, g)
					}
				}
			}
		}
	}
}

func (e *errFlow) goroutine(fn *ssa.Function, g *ssa.Go) {
	body := closureOf(g.Call.Value)
	nm := "goroutine of " + short(fn.RelString(nil))
	pos := e.w.pos(g.Pos())
	if !e.r.oblige(body != nil && e.library[body], e.rule, nm, pos, "an unknown function runs in a goroutine") {
		return
	}
	mc, _ := g.Call.Value.(*ssa.MakeClosure)
	// a value of the goroutine as the value of its creator it is bound to
	outer := func(v ssa.Value) ssa.Value {
		for k, fv := range body.FreeVars {
			if v == ssa.Value(fv) && mc != nil {
				return mc.Bindings[k]
			}
		}
		for k, pv := range body.Params {
			if v == ssa.Value(pv) {
				return g.Call.Args[k]
			}
		}
		return nil
	}
	chanIn := func(v ssa.Value) (ssa.Value, bool) { // the channel or the variable that holds it
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			return outer(ld.X), true
		}
		return outer(v), false
	}
	type sink struct {
		v    ssa.Value
		cell bool // v is a variable holding the channel
		wait bool // a blocking send
	}
	var sinks []sink
	var vars []ssa.Value
	for _, b := range body.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if isErrT(x.X.Type()) {
					v, c := chanIn(x.Chan)
					sinks = append(sinks, sink{v, c, true})
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly && isErrT(st.Send.Type()) {
						v, c := chanIn(st.Chan)
						sinks = append(sinks, sink{v, c, x.Blocking})
					}
				}
			case *ssa.Store:
				if fv, ok := x.Addr.(*ssa.FreeVar); ok && isErrT(x.Val.Type()) {
					vars = append(vars, outer(fv))
				}
			}
		}
	}
	after := func(in ssa.Instruction) bool { // some Wait comes before
		for _, b := range fn.Blocks {
			for i, w := range b.Instrs {
				c, ok := w.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().RelString(nil) != "(*sync.WaitGroup).Wait" {
					continue
				}
				if b == in.Block() {
					for _, o := range b.Instrs[i:] {
						if o == in {
							return true
						}
					}
				} else if b.Dominates(in.Block()) {
					return true
				}
			}
		}
		return false
	}
	isChan := func(v ssa.Value, s sink) bool {
		if s.cell {
			ld, ok := v.(*ssa.UnOp)
			return ok && ld.Op == token.MUL && ld.X == s.v
		}
		return v == s.v
	}
	for _, s := range sinks {
		if !e.r.oblige(s.v != nil, e.rule, nm, pos, "the channel errors are sent on is unknown") {
			continue
		}
		// room for at least one error
		mk := s.v
		if s.cell {
			mk = nil
			for _, r := range *s.v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == s.v {
					if mk != nil {
						mk = nil
						break
					}
					mk = st.Val
				}
			}
		}
		c, ok := mk.(*ssa.MakeChan)
		if ok {
			if k, isC := c.Size.(*ssa.Const); isC {
				v, _ := constant.Int64Val(k.Value)
				ok = v >= 1
			}
		}
		e.r.oblige(ok, e.rule, nm, pos, "the channel has no room for an error")
		// every return without an error has looked at the channel after the goroutines ended
		looks := map[ssa.Instruction]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select:
					for k, st := range x.States {
						if st.Dir == types.RecvOnly && isChan(st.Chan, s) && after(in) {
							looks[in] = true
							e.received(fn, x, k, nm)
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && isChan(x.X, s) {
						looks[in] = true
						es := &errPathState{bad: map[ssa.Value]bool{x: true}, cells: map[ssa.Value]bool{}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}}
						e.walk(fn, x, nil, es, nil, nm, e.w.pos(x.Pos()))
					}
				}
			}
		}
		e.looked(fn, g, looks, nm)
	}
	for _, v := range vars {
		if !e.r.oblige(v != nil, e.rule, nm, pos, "the variable an error is stored in is unknown") {
			continue
		}
		looks := map[ssa.Instruction]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == v && after(in) {
					looks[in] = true
					es := &errPathState{bad: map[ssa.Value]bool{ld: true}, cells: map[ssa.Value]bool{v: true}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}}
					e.walk(fn, ld, nil, es, nil, nm, e.w.pos(ld.Pos()))
				}
			}
		}
		e.looked(fn, g, looks, nm)
	}
}

// received: an error received by a select makes the function return it.
func (e *errFlow) received(fn *ssa.Function, x *ssa.Select, k int, nm string) {
	es := &errPathState{bad: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, phi: map[ssa.Value]ssa.Value{}, vals: map[ssa.Value]ssa.Value{}}
	known := map[ssa.Value]bool{}
	recv := 0
	for i := 0; i < k; i++ {
		if x.States[i].Dir == types.RecvOnly {
			recv++
		}
	}
	for _, r := range *x.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok {
			continue
		}
		if ex.Index == 2+recv {
			es.bad[ex] = true
		}
		if ex.Index == 0 {
			for _, u := range *ex.Referrers() {
				b, ok := u.(*ssa.BinOp)
				if !ok {
					continue
				}
				c, isC := b.Y.(*ssa.Const)
				if isC && b.Op == token.EQL {
					v, _ := constant.Int64Val(c.Value)
					known[b] = v == int64(k)
				}
			}
		}
	}
	e.walk(fn, x, nil, es, known, nm, e.w.pos(x.Pos()))
}

// looked: every path from the go statement to a return of a nil error passes a look.
func (e *errFlow) looked(fn *ssa.Function, g ssa.Instruction, looks map[ssa.Instruction]bool, nm string) {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	k := errIndex(fn.Signature)
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if looks[b.Instrs[i]] {
				return
			}
			if r, isR := b.Instrs[i].(*ssa.Return); isR && k >= 0 {
				ok = ok && !mayBeNil(r.Results[k], r, 0)
			}
		}
		for _, t := range b.Succs {
			if !seen[t] {
				seen[t] = true
				walk(t, 0)
			}
		}
	}
	for i, in := range g.Block().Instrs {
		if in == g {
			walk(g.Block(), i+1)
		}
	}
	e.r.oblige(ok && k >= 0, e.rule, nm, e.w.pos(g.Pos()), "there is a successful return that has not looked at the goroutines' errors after they ended")
}

// mayBeNil: the value returned may be nil without anybody having looked.
func mayBeNil(v ssa.Value, at *ssa.Return, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, y := range x.Edges {
			if depth > 4 || mayBeNil(y, at, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if !plainVar(x.X) {
			return x.Op == token.MUL
		}
		var last ssa.Value
		for _, in := range at.Block().Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == x.X {
				last = st.Val
			}
		}
		return last == nil || mayBeNil(last, at, depth+1)
	}
	return false
}

// ---------- R05 ----------

func init() {
	register("R05", "error-flow analysis over the SSA control-flow graph (path-sensitive in the error, interprocedural)", checkR05)
	register("X04", "error-flow analysis over the SSA control-flow graph; abstract interpretation of the results of every exported operation", checkX04)
}

const errRule = "on every path after a non-nil error the function reports failure"

// drawsRandom: functions of the library that may, through library calls, read a random source and return an error.
func (e *errFlow) drawsRandom() func(in ssa.CallInstruction) bool {
	source := func(c *ssa.CallCommon) bool {
		if c.IsInvoke() {
			return c.Method.Name() == "Read" && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "io"
		}
		f := c.StaticCallee()
		if f == nil {
			return true // unknown: may
		}
		n := f.RelString(nil)
		return strings.HasPrefix(n, "crypto/rand.") || strings.HasPrefix(n, "(*crypto/rand.") || n == "io.ReadFull" || n == "io.ReadAtLeast"
	}
	draws := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f := range e.library {
			if draws[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					hit := ok && (source(c.Common()) && !isBuiltin(c.Common()) || draws[c.Common().StaticCallee()])
					if mc, isM := in.(*ssa.MakeClosure); isM {
						if g, isF := mc.Fn.(*ssa.Function); isF {
							hit = hit || draws[g]
						}
					}
					if hit {
						draws[f] = true
						changed = true
					}
				}
			}
		}
	}
	return func(in ssa.CallInstruction) bool {
		return source(in.Common()) || draws[in.Common().StaticCallee()]
	}
}

func isBuiltin(c *ssa.CallCommon) bool {
	_, ok := c.Value.(*ssa.Builtin)
	return ok
}

func checkR05(r *Report) {
	r.rule("For every call, in any function of the library, that reads a random source or calls a library function that does, and returns an error: on every path of the caller on which that error is non-nil the caller, without making the call again, panics or returns a non-nil error with only zero values besides it; in a goroutine it sends the error on a channel with room for one, or stores it in a variable, which the creator examines, after waiting, on every path to a nil error.")
	for _, c := range shamirConfigs(r) {
		w := load(c)
		e := newErrFlow(r, w, errRule)
		n := e.calls(e.drawsRandom())
		e.goroutines()
		r.count("call sites", n)
	}
	r.atLeast(errRule, 10)
}

func checkX04(r *Report) {
	r.rule("(1) For every call in the library that returns an error (other than those whose error is always nil): on every path of the caller on which the error is non-nil the caller, without making the call again, panics or returns a non-nil error with only zero values besides it; in a goroutine it hands the error to its creator, which examines it after waiting on every path to a nil error. (2) On every path of every exported splitting, combining and regenerating function a non-nil error comes with nil data and a nil error with non-nil data.")
	r.rule(engineText)
	for _, c := range shamirConfigs(r) {
		w := load(c)
		e := newErrFlow(r, w, errRule)
		n := e.calls(func(ssa.CallInstruction) bool { return true })
		e.goroutines()
		r.count("call sites", n)
	}
	r.atLeast(errRule, 20)
	resultsPart(r)
}

type operation struct {
	pkg, name string
	params    []string
}

func splitOps() []operation {
	var out []operation
	add := func(pkg string, es []splitEntry) {
		for _, e := range es {
			ps := []string{"[]byte", "int", "int"}
			if e.gen {
				ps = append(ps, "*"+modPath+"/csprng.CSPRNG")
			}
			out = append(out, operation{pkg, e.name, ps})
		}
	}
	add("shamir", splitEntries)
	add("krawczyk", shortEntries)
	return out
}

func allOps() []operation {
	return append(splitOps(), operation{"shamir", "Combine", []string{bs2}}, operation{"shamir", "Regenerate", []string{bs2, "int"}})
}

// eachOp analyses every operation on every configuration, in parallel.
func eachOp(r *Report, ops []operation, f func(r *Report, o operation, a *Ana, st0 *State, args []Value)) {
	var names []string
	for _, c := range shamirConfigs(r) {
		for _, o := range ops {
			names = append(names, c.String()+"/"+o.pkg+"."+o.name)
		}
	}
	r.parts(names, func(s *Report, name string) {
		for _, c := range shamirConfigs(s) {
			for _, o := range ops {
				if c.String()+"/"+o.pkg+"."+o.name != name {
					continue
				}
				w := load(c)
				fn := w.fnOf(s, o.pkg+"."+o.name, o.params...)
				if fn == nil {
					continue
				}
				if o.pkg == "shamir" {
					fieldTables(s, w)
				}
				it := newInterp(w, o.pkg)
				st := newState()
				args := it.entryArgs(st, fn)
				st0 := st.clone()
				a := analyse(s, it, fn, st, args)
				if a.ok {
					f(s, o, a, st0, args)
				}
			}
		}
	})
}

func resultsPart(r *Report) {
	ops := allOps()
	eachOp(r, ops, func(r *Report, o operation, a *Ana, st0 *State, args []Value) {
		n := 0
		a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
			n++
			for _, d := range data {
				if isNil {
					r.oblige(nonNilData(x, d), "success returns data", nm, res.pos, "returns %s without an error", showV(d))
				} else {
					r.oblige(nilData(x, d), "no data with an error", nm, res.pos, "returns %s with an error", showV(d))
				}
			}
		})
		r.oblige(n > 0, "data and error are returned", short(a.name), "", "no path returns")
	})
	r.atLeast("success returns data", len(ops))
	r.atLeast("no data with an error", len(ops))
}
