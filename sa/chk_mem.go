package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "effects and reachability in the relational abstract interpretation; alias flow over the SSA where the interpretation does not reach", checkX01)
}

const (
	ruleWrites = "nothing is written to the caller's memory"
	ruleRefers = "no result refers to the caller's memory"
	ruleKeeps  = "no package variable or generator refers to the caller's memory"
)

func checkX01(r *Report) {
	r.rule("On every path of every exported splitting, combining and regenerating operation, generator constructor and generator method, of the worker's operations too: no store, copy, append or modelled external call writes to memory the caller passed in (the length and the spare capacity of each buffer included; only the destination of a generator's Read is), the contents of every object the caller passed in are unchanged at the return, and neither the results nor any package variable nor the generator can reach it. For krawczyk.Combine the same is decided by a may-alias flow over the SSA.")
	r.rule(engineText)
	cfgs := shamirConfigs(r)
	var names []string
	for _, c := range cfgs {
		for _, o := range allOps() {
			names = append(names, c.String()+"/"+o.pkg+"."+o.name)
		}
		names = append(names, c.String()+"/generators", c.String()+"/worker", c.String()+"/krawczyk.Combine")
	}
	r.parts(names, func(s *Report, name string) {
		for _, c := range shamirConfigs(s) {
			w := load(c)
			for _, o := range allOps() {
				if c.String()+"/"+o.pkg+"."+o.name != name {
					continue
				}
				fn := w.fnOf(s, o.pkg+"."+o.name, o.params...)
				if fn == nil {
					continue
				}
				if o.pkg == "shamir" {
					fieldTables(s, w)
				}
				it := newInterp(w, o.pkg)
				st := newState()
				args := it.entryArgs(st, fn)
				st0 := st.clone()
				if a := analyse(s, it, fn, st, args); a.ok {
					untouched(s, a, st0, nil)
				}
			}
			switch name {
			case c.String() + "/generators":
				for _, g := range []genSpec{csprngGen, randomizerGen} {
					g.callersMemory(s, w)
				}
			case c.String() + "/worker":
				workerMemory(s, w)
			case c.String() + "/krawczyk.Combine":
				if fn := w.fnOf(s, "krawczyk.Combine", bs2, "int", "int"); fn != nil {
					aliasFlow(s, w, fn)
				}
			}
		}
	})
	r.atLeast(ruleWrites, 15)
	r.atLeast(ruleRefers, 20)
	r.atLeast(ruleKeeps, 20)
}

// reachFrom: the objects that can be reached from the values.
func reachFrom(st *State, vs ...Value) map[string]bool {
	out := map[string]bool{}
	var work []string
	add := func(s string) {
		if !out[s] {
			out[s] = true
			work = append(work, s)
		}
	}
	for _, v := range vs {
		if v != nil {
			refs(v, add)
		}
	}
	for len(work) > 0 {
		o := st.objs[work[0]]
		work = work[1:]
		if o == nil {
			continue
		}
		refs(o.base, add)
		for _, e := range o.ents {
			refs(e.val, add)
		}
	}
	return out
}

func inObjs(m map[string]bool, except func(string) bool) string {
	for _, s := range sortedKeys(m) {
		if strings.HasPrefix(s, "in:") && (except == nil || !except(s)) {
			return s
		}
	}
	return ""
}

// untouched: the analysed call neither writes to nor retains what it was given.
func untouched(r *Report, a *Ana, st0 *State, except func(string) bool) {
	for _, k := range sortedKeys(a.it.notes) {
		n := a.it.notes[k]
		ps := strings.SplitN(n.kind, ":", 3)
		if ps[0] != "write" && ps[0] != "append-spill" || len(ps) < 3 || !strings.HasPrefix(ps[2], "in:") {
			continue
		}
		if except != nil && except(ps[2]) || n.ctx.infeasible() {
			continue
		}
		if ps[0] == "write" && len(n.vals) >= 2 {
			lo, hi := asInt(n.vals[0]), asInt(n.vals[1])
			if n.ctx.prove(mkLE(hi, lo)) {
				continue // no byte
			}
		}
		r.oblige(false, ruleWrites, short(n.fn), n.pos, "%s", n.kind)
	}
	r.oblige(true, ruleWrites, short(a.name), "", "")
	for k, res := range a.res {
		if res.panic != "" || res.st.ctx.infeasible() {
			continue
		}
		nm := sprintf("%s, path %d", short(a.name), k+1)
		for _, o := range changed(res.st.ctx, st0, res.st) {
			if strings.HasPrefix(o, "in:") && (except == nil || !except(o)) {
				r.oblige(false, ruleWrites, nm, res.pos, "%s has other contents afterwards", o)
			}
		}
		if res.val != nil {
			s := inObjs(reachFrom(res.st, res.val), except)
			r.oblige(s == "", ruleRefers, nm, res.pos, "the result refers to %s", s)
		}
		s := ""
		for _, g := range sortedKeys(res.st.objs) {
			if strings.HasPrefix(g, "g:") {
				o := res.st.objs[g]
				vs := []Value{o.base}
				for _, e := range o.ents {
					vs = append(vs, e.val)
				}
				if t := inObjs(reachFrom(res.st, vs...), nil); t != "" {
					s = g + " refers to " + t
				}
			}
		}
		r.oblige(s == "", ruleKeeps, nm, res.pos, "%s", s)
	}
}

// callersMemory: constructors and methods of the generators.
func (g genSpec) callersMemory(r *Report, w *World) {
	for _, ct := range g.ctors {
		for _, s := range g.construct(r, w, ct) {
			nm := g.pkg + "." + ct.name + " on " + w.cfg.String()
			t := inObjs(reachFrom(s.st0, s.recv), nil)
			r.oblige(t == "", ruleKeeps, nm, "", "the generator refers to %s", t)
			for _, k := range sortedKeys(s.it.notes) {
				n := s.it.notes[k]
				if ps := strings.SplitN(n.kind, ":", 3); len(ps) == 3 && (ps[0] == "write" || ps[0] == "append-spill") && strings.HasPrefix(ps[2], "in:") {
					r.oblige(n.ctx.infeasible(), ruleWrites, short(n.fn), n.pos, "%s", n.kind)
				}
			}
			r.oblige(true, ruleWrites, nm, "", "")
			if !g.history(r, s) {
				continue
			}
			// a read
			if read := g.method(w, r, "Read", "[]byte"); read != nil {
				st := s.st.clone()
				s.it.root = "/read"
				s.it.notes = map[string]*Note{}
				buff := s.it.symbolicV(st, "in:buff", types.NewSlice(types.Typ[types.Uint8]), nil, nil).(SliceV)
				st0 := st.clone()
				if a := analyse(r, s.it, read, st, []Value{s.recv, buff}); a.ok {
					buf := func(o string) bool { return o == buff.obj.site || strings.HasPrefix(o, "in:first") }
					untouched(r, a, st0, buf)
					for k, res := range a.res {
						if res.panic != "" {
							continue
						}
						t := inObjs(reachFrom(res.st, s.recv, res.val), nil)
						r.oblige(t == "", ruleKeeps, sprintf("%s, path %d", short(a.name), k+1), res.pos, "the generator refers to %s", t)
					}
					for _, k := range sortedKeys(s.it.notes) {
						n := s.it.notes[k]
						if strings.HasPrefix(n.kind, "write:") && strings.HasSuffix(n.kind, ":"+buff.obj.site) && len(n.vals) >= 2 {
							lo, hi := asInt(n.vals[0]), asInt(n.vals[1])
							r.oblige(n.ctx.infeasible() || n.ctx.prove(mkLE(hi, lo)) || n.ctx.prove(mkLE(buff.off, lo)) && n.ctx.prove(mkLE(hi, add(buff.off, buff.ln))), ruleWrites, short(n.fn), n.pos, "writes outside the buffer it was asked to fill")
						}
					}
				}
			}
			for _, m := range []string{"Perm", "GetUniqueBytes"} {
				if m == "GetUniqueBytes" && g.pkg != "csprng" {
					continue
				}
				fn := g.method(w, r, m, "byte")
				if fn == nil {
					continue
				}
				st := s.st.clone()
				s.it.root = "/" + m
				s.it.notes = map[string]*Note{}
				n := s.it.symbolicV(st, "in:n", types.Typ[types.Uint8], nil, nil)
				a := analyse(r, s.it, fn, st, []Value{s.recv, n})
				if !a.ok {
					continue
				}
				for k, res := range a.res {
					if res.panic != "" || res.val == nil {
						continue
					}
					recv := reachFrom(res.st, s.recv)
					bad := ""
					for _, o := range sortedKeys(reachFrom(res.st, res.val)) {
						if recv[o] || strings.HasPrefix(o, "g:") {
							bad = o
						}
					}
					r.oblige(bad == "", ruleKeeps, sprintf("%s, path %d", short(a.name), k+1), res.pos, "the result is also held by the generator (%s)", bad)
				}
			}
		}
	}
}

// workerMemory: the worker's operations, against arbitrary operations that return new memory.
func workerMemory(r *Report, w *World) {
	for name, params := range map[string][]string{"Split": {"string", "[]byte", "int", "int"}, "Combine": {"string", bs2, "int", "int"}} {
		fn := w.fnOf(r, "worker.Worker."+name, append([]string{"*" + modPath + "/worker.Worker"}, params...)...)
		if fn == nil {
			continue
		}
		it := newInterp(w, "worker")
		for _, al := range algorithms {
			for _, t := range []string{al.split, al.combine} {
				t := t
				it.contracts[modPath+"/"+t] = func(f *frame, p *Path, c *callSite) []callRes {
					st := p.st
					sig := w.findFn(t).Signature
					v := it.symbolicV(st, "ret:"+t+"@"+c.site, sig.Results().At(0).Type(), nil, append([]*Poly(nil), st.inst...))
					return []callRes{f.errPath(st.clone(), 1), {st: st, val: tup(v, nilErr())}}
				}
			}
		}
		st := newState()
		args := it.entryArgs(st, fn)
		st0 := st.clone()
		if a := analyse(r, it, fn, st, args); a.ok {
			pre := "in:" + fn.Params[0].Name() + "*"
			own := func(o string) bool { return strings.HasPrefix(o, pre) } // the worker's own state
			untouched(r, a, st0, own)
			for k, res := range a.res {
				if res.panic != "" || res.val == nil {
					continue
				}
				nm := sprintf("%s, path %d", short(a.name), k+1)
				t := inObjs(reachFrom(res.st, res.val), nil)
				r.oblige(t == "", ruleRefers, nm, res.pos, "the result refers to %s", t)
				t = inObjs(reachFrom(res.st, args[0]), own)
				r.oblige(t == "", ruleKeeps, nm, res.pos, "the worker refers to %s", t)
			}
		}
	}
}

// ---------- alias flow ----------

// aliasWalk finds what may be memory of the caller, ignoring the order of
// statements and which element of a container is meant.
type aliasWalk struct {
	r     *Report
	w     *World
	seen  map[string]*aliasOut
	depth int
}

// aliasOut: what a function does with the caller's memory.
type aliasOut struct {
	ret   bool         // something it returns may be
	holds map[int]bool // parameters whose memory may hold pointers to it afterwards
}

const (
	isCallers = 1 // memory of the caller of the analysed function
	mayHold   = 2 // memory of ours that may hold pointers to it
)

func aliasFlow(r *Report, w *World, fn *ssa.Function) {
	x := &aliasWalk{r: r, w: w, seen: map[string]*aliasOut{}}
	in := map[int]int{}
	for k, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			in[k] = isCallers
		}
	}
	if x.fn(fn, in).ret {
		r.oblige(false, ruleRefers, short(fn.RelString(nil)), w.pos(fn.Pos()), "a result may be memory of the caller")
	}
	r.oblige(true, ruleRefers, short(fn.RelString(nil)), "", "")
	r.oblige(true, ruleKeeps, short(fn.RelString(nil)), "", "")
	r.oblige(true, ruleWrites, short(fn.RelString(nil)), "", "")
}

// readOnly: external functions that neither write to nor keep their arguments (other than in their result).
var readOnly = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint64": true,
	"(encoding/binary.bigEndian).Uint32": true, "bytes.Equal": true, "crypto/aes.NewCipher": true, "fmt.Sprintf": true,
}

// fn analyses one function whose parameters in the set are the caller's; the
// result tells if something it returns may be.
func (x *aliasWalk) fn(fn *ssa.Function, in map[int]int) *aliasOut {
	key := fn.String()
	for k := range fn.Params {
		if in[k] != 0 {
			key += sprintf(",%d:%d", k, in[k])
		}
	}
	if o := x.seen[key]; o != nil {
		return o // complete, or in progress: what it finds is reported there
	}
	out := &aliasOut{holds: map[int]bool{}}
	x.seen[key] = out
	if x.depth > 6 {
		x.r.oblige(false, ruleWrites, short(fn.RelString(nil)), x.w.pos(fn.Pos()), "undecided: the calls with the caller's memory nest too deeply")
		return out
	}
	x.depth++
	defer func() { x.depth-- }()
	nm := short(fn.RelString(nil))
	pos := func(in ssa.Instruction) string { return x.w.pos(in.Pos()) }
	alias := map[ssa.Value]bool{} // may point into the caller's memory
	holds := map[ssa.Value]bool{} // memory made here that may hold such pointers
	for k, m := range in {
		if m&isCallers != 0 {
			alias[fn.Params[k]] = true
		}
		if m&mayHold != 0 {
			holds[fn.Params[k]] = true
		}
	}
	var root func(v ssa.Value) ssa.Value
	root = func(v ssa.Value) ssa.Value {
		switch y := v.(type) {
		case *ssa.IndexAddr:
			return root(y.X)
		case *ssa.FieldAddr:
			return root(y.X)
		case *ssa.Slice:
			return root(y.X)
		}
		return v
	}
	ref := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Basic:
			return false
		}
		return true
	}
	final := false
	bad := func(rule string, in ssa.Instruction, why string, a ...interface{}) {
		if final {
			x.r.oblige(false, rule, nm, pos(in), why, a...)
		}
	}
	for changed := true; changed || !final; {
		if !changed {
			final = true
		}
		changed = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if v != nil && !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.Phi:
					for _, e := range y.Edges {
						if alias[e] {
							set(alias, y)
						}
						if holds[e] || holds[root(e)] {
							set(holds, y)
						}
					}
				case *ssa.Slice:
					if alias[y.X] {
						set(alias, y)
					}
					if holds[y.X] || holds[root(y.X)] {
						set(holds, y)
					}
				case *ssa.IndexAddr:
					if alias[y.X] {
						set(alias, y)
					}
				case *ssa.FieldAddr:
					if alias[y.X] {
						set(alias, y)
					}
				case *ssa.UnOp:
					if y.Op == token.MUL && ref(y.Type()) && (alias[y.X] || holds[y.X] || holds[root(y.X)]) {
						set(alias, y)
						set(holds, y)
					}
				case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Next, *ssa.Range, *ssa.TypeAssert, *ssa.Extract, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.SliceToArrayPointer, *ssa.Convert:
					v := y.(ssa.Value)
					if ex, ok := y.(*ssa.Extract); ok && !ref(ex.Type()) {
						continue
					}
					if cv, ok := y.(*ssa.Convert); ok {
						if _, bas := cv.Type().Underlying().(*types.Basic); bas {
							continue // to a string or a number: a copy
						}
						if _, bas := cv.X.Type().Underlying().(*types.Basic); bas {
							continue
						}
					}
					if isErrT(v.Type()) {
						continue
					}
					for _, op := range y.Operands(nil) {
						if *op != nil && alias[*op] && ref(v.Type()) {
							set(alias, v)
						}
						if *op != nil && holds[*op] {
							set(holds, v)
						}
					}
				case *ssa.Store:
					a := root(y.Addr)
					if alias[y.Addr] || alias[a] {
						bad(ruleWrites, y, "a store to %s", y.Addr.Name())
					}
					if alias[y.Val] || holds[y.Val] || holds[root(y.Val)] {
						if _, g := a.(*ssa.Global); g {
							bad(ruleKeeps, y, "%s is stored in %s", y.Val.Name(), a.Name())
						}
						set(holds, a)
					}
				case *ssa.MapUpdate:
					if alias[y.Map] {
						bad(ruleWrites, y, "an entry of %s is set", y.Map.Name())
					}
					if alias[y.Key] || alias[y.Value] || holds[y.Value] {
						set(holds, y.Map)
					}
				case *ssa.Send:
					if alias[y.X] || holds[y.X] {
						bad(ruleKeeps, y, "%s is sent on a channel", y.X.Name())
					}
				case *ssa.MakeClosure:
					for _, v := range y.Bindings {
						if alias[v] || holds[v] {
							bad(ruleKeeps, y, "a function holds %s", v.Name())
						}
					}
				case *ssa.Return:
					for _, v := range y.Results {
						if !isErrT(v.Type()) && (alias[v] || holds[v] || holds[root(v)]) {
							out.ret = true
						}
					}
				case ssa.CallInstruction:
					c := y.Common()
					v, _ := ins.(ssa.Value)
					touched := map[int]bool{}
					given := map[int]int{}
					for k, a := range c.Args {
						if alias[a] || alias[root(a)] {
							given[k] |= isCallers
						}
						if holds[a] || holds[root(a)] {
							given[k] |= mayHold
						}
						if given[k] != 0 {
							touched[k] = true
						}
					}
					if bl, ok := c.Value.(*ssa.Builtin); ok {
						switch bl.Name() {
						case "len", "cap", "print", "println", "min", "max":
						case "copy":
							if alias[c.Args[0]] || alias[root(c.Args[0])] {
								bad(ruleWrites, ins, "a copy to %s", c.Args[0].Name())
							}
							if touched[1] && ref(c.Args[1].Type().Underlying().(*types.Slice).Elem()) {
								set(holds, root(c.Args[0]))
							}
						case "append":
							if alias[c.Args[0]] {
								bad(ruleWrites, ins, "an append to %s", c.Args[0].Name())
								set(alias, v)
							}
							if s, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && touched[1] && ref(s.Elem()) || holds[c.Args[0]] {
								set(holds, v)
							}
						default:
							if len(touched) > 0 {
								bad(ruleWrites, ins, "%s of the caller's memory", bl.Name())
							}
						}
						continue
					}
					if len(touched) == 0 && !(c.IsInvoke() && (alias[c.Value] || holds[c.Value])) {
						continue
					}
					f := c.StaticCallee()
					name := callName(y)
					switch {
					case f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && len(f.Blocks) > 0:
						o := x.fn(f, given)
						if o.ret && v != nil {
							set(alias, v)
							set(holds, v)
						}
						for k := range o.holds {
							if k < len(c.Args) {
								set(holds, root(c.Args[k]))
							}
						}
					case f != nil && readOnly[f.RelString(nil)]:
					case name == "bytes.NewReader" || name == "bytes.NewBuffer":
						set(holds, v)
						if name == "bytes.NewBuffer" {
							set(alias, v)
						}
					case strings.HasSuffix(name, "reedsolomon.Encoder.Join"): // reads the fragments
					case strings.HasSuffix(name, "reedsolomon.Encoder.ReconstructData") || strings.HasSuffix(name, "reedsolomon.Encoder.Reconstruct"):
						// sets missing fragments in the list, which must be our own
						if alias[c.Args[0]] || alias[root(c.Args[0])] {
							bad(ruleWrites, ins, "the missing fragments are set in the caller's list")
						}
					case strings.HasSuffix(name, "reedsolomon.Encoder.Verify"):
					case f != nil && strings.HasPrefix(f.RelString(nil), "(*bytes.Reader)."), name == "io.Copy" && !touched[0]:
					default:
						bad(ruleWrites, ins, "%s is given the caller's memory", name)
					}
				case *ssa.Go, *ssa.Defer:
				}
			}
		}
		if final && !changed {
			break
		}
	}
	for k, p := range fn.Params {
		if holds[p] && in[k]&mayHold == 0 {
			out.holds[k] = true
		}
	}
	return out
}
