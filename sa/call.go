package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) callee(p *Path, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, f.val(p, a))
	}
	if c.IsInvoke() {
		recv := f.val(p, c.Value)
		iv, ok := recv.(IfaceV)
		if ok && iv.typ != nil {
			// statically known dynamic type
			ms := f.it.w.prog.MethodSets.MethodSet(iv.typ)
			if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				fn := f.it.w.prog.MethodValue(sel)
				if fn != nil {
					return FuncV{fn: fn}, append([]Value{iv.dyn}, args...)
				}
			}
		}
		tn := c.Value.Type().String()
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			tn = n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return FuncV{name: "(" + tn + ")." + c.Method.Name()}, append([]Value{recv}, args...)
	}
	return f.val(p, c.Value), args
}

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.RelString(nil)
}

func (f *frame) callValue(p *Path, fv Value, args []Value, in ssa.CallInstruction, site string) []callRes {
	fn, ok := fv.(FuncV)
	if !ok {
		giveUp("call of %T", fv)
	}
	if fn.bi != nil {
		if n := fn.bi.Name(); n == "copy" || n == "append" {
			f.accessArgs(p.st, args[1:], in)
			if n == "append" {
				f.accessArgs(p.st, args[:1], in)
			}
		}
		return f.builtin(p, fn.bi, args, in, site)
	}
	name := fn.name
	if fn.fn != nil {
		name = fullName(fn.fn)
	}
	if name == "" {
		f.alarm("nil", "call of a nil function", in, p.st)
		return []callRes{}
	}
	cs := &callSite{instr: in, name: name, args: args, site: "@" + site, sig: in.Common().Signature()}
	f.it.stats.sites["call@"+f.pos(in)] = true
	if fn.fn == nil || fn.fn.Blocks == nil || f.it.contracts[name] != nil || models[name] != nil {
		f.accessArgs(p.st, args, in)
	}
	if m := f.it.contracts[name]; m != nil && !f.inHome(fn.fn) {
		return m(f, p, cs)
	}
	if m := models[name]; m != nil {
		return m(f, p, cs)
	}
	if fn.fn == nil {
		giveUp("call of the unmodelled method %s", name)
	}
	if fn.fn.Blocks == nil {
		if m := asmModel(f, fn.fn); m != nil {
			return m(f, p, cs)
		}
		giveUp("call of the unmodelled function %s", name)
	}
	if os.Getenv("SA_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s%s ctx=%d\n", strings.Repeat(" ", f.it.depth), name, len(p.st.ctx.list()))
	}
	return f.it.run(fn.fn, args, p.st.clone(), site, fn.binds, f)
}

// inHome: functions of the analysed package are inlined, contracts apply to the others.
func (f *frame) inHome(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/"+f.it.home
}

func (f *frame) builtin(p *Path, b *ssa.Builtin, args []Value, in ssa.CallInstruction, site string) []callRes {
	st := p.st
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, IntV{x.ln})
		case StringV:
			return one(st, IntV{x.ln})
		case ArrayV:
			return one(st, IntV{konst(x.n)})
		case PtrV:
			return one(st, IntV{konst(x.arr.Len())})
		case MapV:
			return one(st, IntV{f.mapLen(st, x)})
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, IntV{x.cp})
		case PtrV:
			return one(st, IntV{konst(x.arr.Len())})
		}
	case "copy":
		dst, ok := args[0].(SliceV)
		if !ok {
			break
		}
		src, ok := args[1].(SliceV)
		if !ok {
			giveUp("copy from %T", args[1])
		}
		n := src.ln
		c := mkLE(src.ln, dst.ln)
		switch st.ctx.decide(c) {
		case 0:
			needSplit(c)
		case -1:
			n = dst.ln
		}
		if dst.obj == nil || src.obj == nil {
			return one(st, IntV{konst(0)})
		}
		f.useCheck(st, dst.obj, in)
		f.useCheck(st, src.obj, in)
		f.copyFrom(st, dst.obj, dst.off, st.obj(src.obj), src.obj.inst, src.off, n, in)
		return one(st, IntV{n})
	case "append":
		return one(st, f.appendOp(st, args[0].(SliceV), args[1], in, site))
	case "print", "println":
		f.note("output", in, st)
		return one(st, nil)
	case "panic":
		return []callRes{{st: st, panic: "explicit panic", pos: f.pos(in)}}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := mkLE(asInt(r), asInt(a))
			switch st.ctx.decide(c) {
			case 0:
				needSplit(c)
			case 1:
				if b.Name() == "max" {
					r = a
				}
			case -1:
				if b.Name() == "min" {
					r = a
				}
			}
		}
		return one(st, r)
	case "close":
		if ch, ok := args[0].(ChanV); ok && ch.obj != nil {
			if st.flags == nil {
				st.flags = map[string]bool{}
			}
			st.flags["closed:chan:"+refKey(ch.obj)] = true
		}
		return one(st, nil)
	case "delete":
		m := args[0].(MapV)
		k := mapKey(args[1])
		if m.obj != nil {
			f.setCell(st, &Ref{m.obj.site + ".has", m.obj.inst}, k, BoolV{condFalse}, nil)
		}
		return one(st, nil)
	case "clear":
		s, ok := args[0].(SliceV)
		if ok {
			if s.obj != nil {
				et := st.obj(s.obj).elem
				f.fill(st, s.obj, s.off, s.ln, zeroV(et), in)
			}
			return one(st, nil)
		}
	case "ssa:wrapnilchk":
		if pt, ok := args[0].(PtrV); ok {
			f.derefCheck(st, pt, in)
			return one(st, pt)
		}
	}
	giveUp("builtin %s", b.Name())
	return nil
}

func (f *frame) mapLen(st *State, m MapV) *Poly {
	if m.obj == nil {
		return konst(0)
	}
	appRange["maplen"] = [2]*Poly{konst(0), lenMax}
	return appP("maplen:"+refKey(m.obj)+objKey(st.obj(&Ref{m.obj.site + ".has", m.obj.inst})), st.inst...)
}

// appendOp models append. Whether the result shares memory with the old slice
// depends on its spare capacity; the result is modelled as a fresh object with
// the right content, and a write into the spare capacity is recorded where it is
// possible.
func (f *frame) appendOp(st *State, s SliceV, more Value, in ssa.CallInstruction, site string) Value {
	var add1 SliceV
	switch m := more.(type) {
	case SliceV:
		add1 = m
	case StringV:
		giveUp("append of a string")
	default:
		giveUp("append of %T", more)
	}
	et := in.Value().Type().Underlying().(*types.Slice).Elem()
	n := add(s.ln, add1.ln)
	st.assume(mkLE(n, lenMax))
	if s.obj != nil {
		f.useCheck(st, s.obj, in)
	}
	if add1.obj != nil {
		f.useCheck(st, add1.obj, in)
	} else if s.obj == nil {
		return s
	}
	if add1.obj == nil {
		return s
	}
	sname := "@" + strings.TrimPrefix(site, "@") + ".append"
	appRange[sname+".cap"] = [2]*Poly{konst(0), lenMax}
	cp := appP(sname+".cap", st.inst...)
	fits := mkLE(n, s.cp)
	inPlace := st.ctx.decide(fits)
	if s.obj == nil {
		inPlace = -1
	}
	var old *Obj
	if s.obj != nil {
		old = st.obj(s.obj)
	}
	src := st.obj(add1.obj)
	if inPlace == 1 {
		f.copyFrom(st, s.obj, add(s.off, s.ln), src, add1.obj.inst, add1.off, add1.ln, in)
		return SliceV{obj: s.obj, off: s.off, ln: n, cp: s.cp, isNil: s.isNil}
	}
	if inPlace == 0 {
		// the old backing array beyond the length may be overwritten
		f.note("append-spill:"+old.kind+":"+old.site, in, st, s, add1)
	}
	st.assume(mkLE(n, cp), mkGE(cp))
	r := f.alloc(st, sname, et, cp, "alloc", f.pos(in))
	if old != nil {
		f.copyFrom(st, r, konst(0), old, s.obj.inst, s.off, s.ln, nil)
	}
	f.copyFrom(st, r, s.ln, src, add1.obj.inst, add1.off, add1.ln, nil)
	// elements of the appended object may be shared with the old backing array
	isNil := condFalse
	if inPlace == 0 {
		if st.flags == nil {
			st.flags = map[string]bool{}
		}
		st.flags["alias:"+r.site+"~"+s.obj.site] = true
	}
	return SliceV{obj: r, off: konst(0), ln: n, cp: cp, isNil: isNil}
}

func fmtSite(s string, a ...interface{}) string { return fmt.Sprintf(s, a...) }
