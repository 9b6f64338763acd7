package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X03", "typestate analysis of pooled buffers in the relational abstract interpretation; ownership flow over the SSA of the pool", checkX03)
}

const (
	ruleGiven  = "a buffer taken from a pool has been given back when the function returns"
	ruleOnce   = "a buffer is not used or given back after it was given back"
	ruleOut    = "no result is in pooled memory"
	rulePool   = "the pool hands a buffer to one holder at a time"
	ruleNoWait = "the pool never blocks"
)

func checkX03(r *Report) {
	r.rule("(1) On every path of every exported operation, the failure of every random draw included, each buffer taken from a pool has been given back at the return, no buffer is used or given back after it was given back (also not by a later round of a loop), and the results can reach no pooled or given-back memory. (2) In the pool itself, a buffer that is put is handed over at most once and not kept or used afterwards, a buffer that is got was received from the channel (or sync.Pool) or made on the spot and is not kept; every channel operation is a select with a default; nothing else touches the channel.")
	r.rule(engineText)
	for _, c := range shamirConfigs(r) {
		poolImpl(r, load(c))
	}
	r.atLeast(rulePool, 4)
	r.atLeast(ruleNoWait, 2)
	ops := allOps()
	var names []string
	for _, c := range shamirConfigs(r) {
		for _, o := range ops {
			names = append(names, c.String()+"/"+o.pkg+"."+o.name)
		}
	}
	r.parts(names, func(s *Report, name string) {
		for _, c := range shamirConfigs(s) {
			for _, o := range ops {
				if c.String()+"/"+o.pkg+"."+o.name == name {
					w := load(c)
					if fn := w.fnOf(s, o.pkg+"."+o.name, o.params...); fn != nil {
						if o.pkg == "shamir" {
							fieldTables(s, w)
						}
						poolUse(s, w, o, fn)
					}
				}
			}
		}
	})
	r.atLeast(ruleGiven, 4)
	r.atLeast(ruleOut, 12)
	// every taking of a buffer is in a function the operations reach
	w := load(shamirConfigs(r)[0])
	for _, p := range sortedKeys(w.spkg) {
		for _, fn := range allFuncs(w.prog, w.spkg[p]) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && isPoolGet(c.Common()) && p != "utils" {
						r.oblige(r.analysed["get:"+short(fn.RelString(nil))] > 0, ruleGiven, short(fn.RelString(nil)), w.pos(in.Pos()), "no analysed operation takes this buffer")
					}
				}
			}
		}
	}
}

func isPoolGet(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	n := f.RelString(nil)
	return n == "(*"+modPath+"/utils.BytesBufferPool).Get" || n == "(*sync.Pool).Get"
}

// poolUse analyses one operation.
func poolUse(r *Report, w *World, o operation, fn *ssa.Function) {
	run := func(rep *Report, fail bool) *Ana {
		it := newInterp(w, o.pkg)
		it.fail = fail
		st := newState()
		return analyse(rep, it, fn, st, it.entryArgs(st, fn))
	}
	a := run(r, false)
	if !a.ok {
		return
	}
	takes := func(a *Ana) int {
		n := 0
		for _, k := range sortedKeys(a.it.notes) {
			if t := a.it.notes[k]; t.kind == "pool.get" {
				n++
				r.count("get:"+short(t.fn), 1)
			}
		}
		return n
	}
	as := []*Ana{a}
	if takes(a) > 0 {
		b := run(r, true)
		if !b.ok {
			return
		}
		takes(b)
		as = append(as, b)
	}
	for _, a := range as {
		for _, k := range sortedKeys(a.it.alarms) {
			x := a.it.alarms[k]
			switch x.kind {
			case "use-after-put":
				r.oblige(x.ctx.infeasible(), ruleOnce, short(x.fn), x.pos, "%s", x.detail)
			case "ownership":
				r.oblige(x.ctx.infeasible(), ruleGiven, short(x.fn), x.pos, "%s", x.detail)
			}
		}
		r.oblige(true, ruleOnce, short(a.name), "", "")
		for k, res := range a.res {
			if res.panic != "" || res.st.ctx.infeasible() {
				continue
			}
			nm := sprintf("%s, path %d", short(a.name), k+1)
			left := sortedKeys(outstanding(res.st))
			r.oblige(len(left) == 0, ruleGiven, nm, res.pos, "still held: %s", strings.Join(left, ", "))
			reach := map[string]bool{}
			var work []string
			add := func(s string) {
				if !reach[s] {
					reach[s] = true
					work = append(work, s)
				}
			}
			if tv, ok := res.val.(TupleV); ok {
				for _, v := range tv {
					refs(v, add)
				}
			} else if res.val != nil {
				refs(res.val, add)
			}
			for len(work) > 0 {
				ob := res.st.objs[work[0]]
				work = work[1:]
				if ob != nil {
					refs(ob.base, add)
					for _, e := range ob.ents {
						refs(e.val, add)
					}
				}
			}
			bad := ""
			for _, s := range sortedKeys(reach) {
				if ob := res.st.objs[s]; ob != nil && ob.kind == "pooled" {
					bad = s
				}
				for fl, on := range res.st.flags {
					if on && strings.HasPrefix(fl, "released:") {
						t := strings.TrimPrefix(fl, "released:")
						if t == s || strings.HasPrefix(t, s+"[") {
							bad = s
						}
					}
				}
			}
			r.oblige(bad == "", ruleOut, nm, res.pos, "the result refers to %s, which belongs to a pool", bad)
		}
	}
}

// ---------- the pool ----------

type poolCheck struct {
	r     *Report
	w     *World
	seen  map[*ssa.Function]bool // functions that may touch the channel
	depth int
}

func isBuf(t types.Type) bool {
	return t.String() == "*bytes.Buffer"
}

func poolImpl(r *Report, w *World) {
	c := &poolCheck{r: r, w: w, seen: map[*ssa.Function]bool{}}
	sp := w.spkg["utils"]
	if !r.oblige(sp != nil && sp.Type("BytesBufferPool") != nil, rulePool, "utils.BytesBufferPool", "", "not found") {
		return
	}
	named := sp.Type("BytesBufferPool").Type().(*types.Named)
	str, ok := named.Underlying().(*types.Struct)
	if !r.oblige(ok, rulePool, "utils.BytesBufferPool", "", "is not a struct") {
		return
	}
	for k := 0; k < str.NumFields(); k++ {
		t := str.Field(k).Type()
		good := false
		switch u := t.Underlying().(type) {
		case *types.Chan:
			good = isBuf(u.Elem())
		case *types.Basic:
			good = u.Kind() != types.UnsafePointer && u.Kind() != types.Uintptr
		}
		s := t.String()
		good = good || s == "sync.Pool" || strings.HasPrefix(s, "sync/atomic.Int") || strings.HasPrefix(s, "sync/atomic.Uint") || strings.HasPrefix(s, "sync/atomic.Bool")
		r.oblige(good, rulePool, "utils.BytesBufferPool."+str.Field(k).Name(), w.pos(str.Field(k).Pos()), "a field of type %s could keep a buffer", s)
	}
	ms := map[string]*ssa.Function{}
	for _, fn := range allFuncs(w.prog, sp) {
		if rc := fn.Signature.Recv(); rc != nil && strings.HasSuffix(rc.Type().String(), "utils.BytesBufferPool") {
			ms[fn.Name()] = fn
		}
	}
	get, put := ms["Get"], ms["Put"]
	if !r.oblige(get != nil && put != nil, rulePool, "utils.BytesBufferPool", "", "Get or Put not found") {
		return
	}
	// Put hands over its argument at most once
	if r.oblige(len(put.Params) == 2 && isBuf(put.Params[1].Type()), rulePool, "Put", w.pos(put.Pos()), "unexpected parameters") {
		ok, why, at := c.give(put, put.Params[1])
		r.oblige(ok, rulePool, "Put", at, "%s", why)
	}
	why, at := c.fresh(get, 0)
	r.oblige(why == "", rulePool, "Get", at, "%s", why)
	// nothing blocks
	for _, fn := range []*ssa.Function{get, put} {
		for _, g := range c.reach(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					bad := ""
					switch x := in.(type) {
					case *ssa.Send:
						bad = "a send that can wait"
					case *ssa.Select:
						if x.Blocking {
							bad = "a select that can wait"
						}
					case *ssa.UnOp:
						if x.Op == token.ARROW {
							bad = "a receive that can wait"
						}
					case ssa.CallInstruction:
						if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil {
							switch p := f.Pkg.Pkg.Path(); p {
							case "sync":
								if !strings.HasPrefix(f.RelString(nil), "(*sync.Pool).") {
									bad = "a call of " + f.RelString(nil)
								}
							case "time":
								bad = "a call of " + f.RelString(nil)
							}
						}
						if x.Common().IsInvoke() {
							bad = "a call that is not known"
						}
					}
					if bad != "" {
						r.oblige(false, ruleNoWait, short(g.RelString(nil)), w.pos(in.Pos()), "%s", bad)
					}
				}
			}
		}
		r.oblige(true, ruleNoWait, short(fn.RelString(nil)), "", "")
	}
	// who touches the fields
	for _, p := range sortedKeys(w.spkg) {
		for _, fn := range allFuncs(w.prog, w.spkg[p]) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if ok && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), named) {
						why := c.fieldUse(fn, fa)
						r.oblige(why == "", rulePool, short(fn.RelString(nil)), w.pos(fa.Pos()), "%s", why)
					}
					if f, ok := in.(*ssa.Field); ok && types.Identical(f.X.Type(), named) {
						r.oblige(false, rulePool, short(fn.RelString(nil)), w.pos(f.Pos()), "the pool is copied")
					}
				}
			}
		}
	}
}

// reach: fn and the library functions it calls.
func (c *poolCheck) reach(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					walk(x.Common().StaticCallee())
					if g := closureOf(x.Common().Value); g != nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	for _, f := range out {
		c.seen[f] = true
	}
	return out
}

// fieldUse: the field's value is only loaded for operations, or set in a new pool.
func (c *poolCheck) fieldUse(fn *ssa.Function, fa *ssa.FieldAddr) string {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ssa.Value(fa) {
				return "the address of the field is kept"
			}
			if _, isChan := x.Val.Type().Underlying().(*types.Chan); !isChan {
				continue
			}
			al, isNew := fa.X.(*ssa.Alloc)
			if !isNew || !al.Heap {
				return "the channel of an existing pool is replaced"
			}
			if why := c.newChan(x.Val); why != "" {
				return why
			}
		case *ssa.UnOp:
			if _, isChan := x.Type().Underlying().(*types.Chan); isChan {
				if why := c.chanUse(fn, x); why != "" {
					return why
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync/atomic" || strings.HasPrefix(f.RelString(nil), "(*sync.Pool).") && c.seen[fn]) {
				continue
			}
			return "the address of the field is passed on"
		case *ssa.FieldAddr: // sync.Pool.New
			for _, u := range *x.Referrers() {
				st, ok := u.(*ssa.Store)
				g := (*ssa.Function)(nil)
				if ok {
					g = closureOf(st.Val)
				}
				if g == nil {
					return "sync.Pool.New is not a known function"
				}
				if why, _ := c.fresh(g, 0); why != "" {
					return why
				}
			}
		default:
			return "the address of the field is kept"
		}
	}
	return ""
}

func (c *poolCheck) newChan(v ssa.Value) string {
	m, ok := v.(*ssa.MakeChan)
	if !ok {
		return "the channel of a pool is not made for it"
	}
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.Send:
			if x.Chan != ssa.Value(m) || !c.newBuf(x.X) {
				return "something else than a new buffer is put into a new pool"
			}
		case *ssa.Call:
			if _, b := x.Call.Value.(*ssa.Builtin); !b {
				return "the channel is passed on"
			}
		default:
			return "the channel has other users"
		}
	}
	return ""
}

func (c *poolCheck) chanUse(fn *ssa.Function, ch ssa.Value) string {
	for _, r := range *ch.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Select, *ssa.Send:
			if !c.seen[fn] {
				return "the channel is used outside Get and Put"
			}
		case *ssa.UnOp:
			if !c.seen[fn] {
				return "the channel is used outside Get and Put"
			}
		case *ssa.BinOp:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if g := x.Call.StaticCallee(); g != nil && c.seen[g] && c.seen[fn] {
				for k, a := range x.Call.Args {
					if a == ch && k < len(g.Params) {
						if why := c.chanUse(g, g.Params[k]); why != "" {
							return why
						}
					}
				}
				continue
			}
			return "the channel is closed or passed on"
		default:
			return "the channel is kept"
		}
	}
	return ""
}

// newBuf: v is a buffer made here.
func (c *poolCheck) newBuf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Heap && isBuf(x.Type())
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.RelString(nil) {
		case "bytes.NewBuffer":
			return c.newBytes(x.Call.Args[0])
		case "bytes.NewBufferString":
			return true
		}
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && len(f.Blocks) > 0 && c.depth < 4 {
			c.depth++
			defer func() { c.depth-- }()
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(ret.Results) != 1 || !c.newBuf(ret.Results[0]) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func (c *poolCheck) newBytes(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		for _, r := range *x.Referrers() {
			switch r.(type) {
			case *ssa.Call, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		return ok && al.Heap && len(*al.Referrers()) <= 2
	}
	return false
}

// fresh: every buffer fn returns was received from the pool or made on the spot, and is not kept.
func (c *poolCheck) fresh(fn *ssa.Function, depth int) (string, string) {
	at := c.w.pos(fn.Pos())
	if depth > 4 || len(fn.Blocks) == 0 {
		return "the source of the buffer is not known", at
	}
	seen := map[ssa.Value]bool{}
	var src func(v ssa.Value) string
	src = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		if why := c.kept(fn, v, at); why != "" {
			return why
		}
		if c.newBuf(v) {
			return ""
		}
		switch x := v.(type) {
		case *ssa.Const:
			return "" // nil is nobody's buffer
		case *ssa.Phi:
			for _, e := range x.Edges {
				if why := src(e); why != "" {
					return why
				}
			}
			return ""
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Select:
				return ""
			case *ssa.UnOp:
				if t.Op == token.ARROW {
					return ""
				}
			case *ssa.TypeAssert:
				return src(t.X)
			case *ssa.Call:
				if f := t.Call.StaticCallee(); f != nil {
					why, _ := c.fresh(f, depth+1)
					return why
				}
			}
		case *ssa.TypeAssert:
			return src(x.X)
		case *ssa.MakeInterface:
			return src(x.X)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return ""
			}
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && plainVar(al) {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok {
						if why := src(st.Val); why != "" {
							return why
						}
					}
				}
				return ""
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && f.RelString(nil) == "(*sync.Pool).Get" {
				return ""
			}
			if f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
				why, _ := c.fresh(f, depth+1)
				return why
			}
		}
		return "the buffer comes from " + v.String()
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			if !isBuf(v.Type()) && v.Type().String() != "any" && v.Type().String() != "interface{}" {
				continue
			}
			if why := src(v); why != "" {
				return why, c.w.pos(ret.Pos())
			}
		}
	}
	return "", at
}

// kept: something else than the return holds on to the buffer.
func (c *poolCheck) kept(fn *ssa.Function, v ssa.Value, at string) string {
	if v.Referrers() == nil {
		return ""
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return, *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.Extract, *ssa.TypeAssert, *ssa.MakeInterface:
		case *ssa.Store:
			if x.Val == v && !plainVar(x.Addr) {
				return "the buffer is also stored at " + c.w.pos(x.Pos())
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(f.RelString(nil), "(*bytes.Buffer).") && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				if f.Name() != "Bytes" && f.Name() != "AvailableBuffer" && f.Name() != "Next" {
					continue
				}
			}
			return "the buffer is also passed to " + callName(x)
		default:
			return "the buffer has another holder at " + c.w.pos(r.Pos())
		}
	}
	return ""
}

// give: v is handed to the pool at most once and not used afterwards.
func (c *poolCheck) give(fn *ssa.Function, v ssa.Value) (bool, string, string) {
	at := c.w.pos(fn.Pos())
	if c.depth > 4 {
		return false, "calls are too deep", at
	}
	var gives, uses []ssa.Instruction
	seen := map[ssa.Value]bool{}
	bad := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
			case *ssa.Phi:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.Store:
				if x.Val == v {
					if !plainVar(x.Addr) {
						bad = "the buffer is stored at " + c.w.pos(x.Pos())
						return
					}
					for _, u := range *x.Addr.(*ssa.Alloc).Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							walk(ld)
						}
					}
				}
			case *ssa.Select:
				gives = append(gives, x)
				n := 0
				for _, s := range x.States {
					if s.Send == v {
						n++
					}
				}
			case *ssa.Send:
				gives = append(gives, x)
			case *ssa.Call:
				f := x.Call.StaticCallee()
				nm := ""
				if f != nil {
					nm = f.RelString(nil)
				}
				switch {
				case nm == "(*sync.Pool).Put":
					gives = append(gives, x)
				case strings.HasPrefix(nm, "(*bytes.Buffer).") && x.Call.Args[0] == v && f.Name() != "Bytes" && f.Name() != "Next" && f.Name() != "AvailableBuffer":
					uses = append(uses, x)
				case f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && len(f.Blocks) > 0:
					for k, a := range x.Call.Args {
						if a == v {
							c.depth++
							ok, why, _ := c.give(f, f.Params[k])
							c.depth--
							if !ok {
								bad = why
								return
							}
						}
					}
					gives = append(gives, x)
				default:
					bad = "the buffer is passed to " + callName(x)
				}
			case *ssa.Return:
				bad = "the buffer is returned as well"
			default:
				bad = "the buffer has another holder at " + c.w.pos(r.Pos())
			}
			if bad != "" {
				return
			}
		}
	}
	walk(v)
	if bad != "" {
		return false, bad, at
	}
	for _, g := range gives {
		for _, o := range append(append([]ssa.Instruction(nil), gives...), uses...) {
			if canFollow(g, o) {
				return false, "the buffer is handed over and used again at " + c.w.pos(o.Pos()), c.w.pos(g.Pos())
			}
		}
	}
	return true, "", at
}

// canFollow: o can be executed after g.
func canFollow(g, o ssa.Instruction) bool {
	past := false
	for _, in := range g.Block().Instrs {
		if past && in == o {
			return true
		}
		if in == g {
			past = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), g.Block().Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == o.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}
