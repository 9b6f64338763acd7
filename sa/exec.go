package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// wrapInt brings the ideal integer p into the range of type t.
func (f *frame) wrapInt(st *State, p *Poly, t types.Type) Value {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		giveUp("integer type %s", t)
	}
	if u.Kind() == types.Uint8 {
		return ByteV{mkByte(st.ctx, p)}
	}
	if _, ok := p.isConst(); ok && p.isC(0) {
		return IntV{p}
	}
	lo, hi := typeRange(u)
	if lo == nil { // being within a smaller range is enough
		lo, hi = konst(-1<<62), konst(1<<62)
	}
	w := f.it.wordBits()
	if w == 32 {
		switch u.Kind() {
		case types.Int:
			lo, hi = konst(-1<<31), konst(1<<31-1)
		case types.Uint, types.Uintptr:
			hi = konst(1<<32 - 1)
		}
	}
	okLo := st.ctx.proveGE(sub(p, lo)) || loTrivial(st.ctx, p, lo)
	okHi := hi == nil && fitsU64(st.ctx, p) || hi != nil && (hiTrivial(st.ctx, p, hi) || st.ctx.proveGE(sub(hi, p)))
	if okLo && okHi {
		return IntV{p}
	}
	if u.Info()&types.IsUnsigned != 0 && hi != nil {
		k, _ := hi.isConst()
		return IntV{modP(p, konst(k+1))}
	}
	if debugOn {
		fmt.Fprintf(os.Stderr, "WRAP %s (lo %v hi %v)\n", p, okLo, okHi)
		for _, q := range st.ctx.inf().lin {
			fmt.Fprintf(os.Stderr, "   | %s >= 0\n", q)
		}
	}
	name := fmt.Sprintf("wrap:%s", u.Name())
	if u.Kind() == types.Int || u.Kind() == types.Int64 {
		lo, hi = nil, nil
	}
	appRange[name] = [2]*Poly{lo, hi}
	return IntV{appP(name, p)}
}
func (it *Interp) wordBits() int {
	switch it.w.cfg.arch {
	case "386", "arm", "mips", "mipsle":
		return 32
	}
	return 64
}
func loTrivial(x *Ctx, p, lo *Poly) bool {
	l, _, ok, _ := x.bounds(p)
	k, _ := lo.isConst()
	return ok && l >= k
}
func hiTrivial(x *Ctx, p, hi *Poly) bool {
	_, h, _, ok := x.bounds(p)
	k, _ := hi.isConst()
	return ok && h <= k
}
func fitsU64(x *Ctx, p *Poly) bool { // upper bound below 2^64
	_, _, _, ok := x.bounds(p)
	return ok || isWordLike(p)
}
func isWordLike(p *Poly) bool {
	a := p.single()
	return a != nil && (a.kind == AWord || a.kind == AApp || a.kind == ASym)
}

func mkByte(x *Ctx, p *Poly) *BT {
	if c, ok := p.isConst(); ok {
		return bconst(byte(c))
	}
	if a := p.single(); a != nil && (a.kind == AIntOf) {
		return a.bs[0]
	}
	if x.proveGE(p) && x.proveGE(sub(konst(255), p)) {
		return bint(p)
	}
	q := x.simp(modP(p, konst(256)))
	return bint(q)
}

func (f *frame) binop(p *Path, x *ssa.BinOp) Value {
	st := p.st
	a, b := f.val(p, x.X), f.val(p, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		c := f.equal(st, a, b, t)
		if x.Op == token.NEQ {
			c = notC(c)
		}
		return BoolV{c}
	}
	if isBoolT(t) {
		switch x.Op {
		case token.AND:
			return BoolV{andC(asBool(a), asBool(b))}
		case token.OR:
			return BoolV{orC(asBool(a), asBool(b))}
		}
	}
	if _, ok := a.(StringV); ok {
		if x.Op == token.ADD {
			sa, sb := a.(StringV), b.(StringV)
			if sa.known && sb.known {
				return StringV{sa.s + sb.s, true, konst(int64(len(sa.s + sb.s)))}
			}
			return StringV{s: "+", ln: appP("strlen:" + valKey(a) + valKey(b))}
		}
		giveUp("string operation %s", x.Op)
	}
	if isByteT(t) {
		ba, bb := asByte(a), asByte(b)
		switch x.Op {
		case token.XOR:
			return ByteV{bxor(ba, bb)}
		case token.AND, token.OR, token.AND_NOT:
			if c, ok := ba.isConst(); ok && x.Op != token.AND_NOT {
				_ = c
				ba, bb = bb, ba
			}
			if k, ok := bb.isConst(); ok {
				switch x.Op {
				case token.AND:
					return ByteV{mkOpq("and", []*BT{ba}, []*Poly{konst(int64(k))})}
				case token.AND_NOT:
					return ByteV{mkOpq("and", []*BT{ba}, []*Poly{konst(int64(^k))})}
				case token.OR: // a|k = (a&^k)^k
					return ByteV{bxor(mkOpq("and", []*BT{ba}, []*Poly{konst(int64(^k))}), bconst(k))}
				}
			}
			return ByteV{mkOpq("bit"+x.Op.String(), []*BT{ba, bb}, nil)}
		case token.SHR, token.SHL:
			if k, ok := asInt(b).isConst(); ok {
				if x.Op == token.SHR {
					return ByteV{mkOpq("shr", []*BT{ba}, []*Poly{konst(k)})}
				}
				return ByteV{mkOpq("shl", []*BT{ba}, []*Poly{konst(k)})}
			}
			return ByteV{mkOpq("shift"+x.Op.String(), []*BT{ba}, []*Poly{asInt(b)})}
		}
	}
	pa, pb := asInt(a), asInt(b)
	switch x.Op {
	case token.LSS:
		return BoolV{mkLT(pa, pb)}
	case token.LEQ:
		return BoolV{mkLE(pa, pb)}
	case token.GTR:
		return BoolV{mkLT(pb, pa)}
	case token.GEQ:
		return BoolV{mkLE(pb, pa)}
	case token.ADD:
		return f.wrapInt(st, add(pa, pb), t)
	case token.SUB:
		return f.wrapInt(st, sub(pa, pb), t)
	case token.MUL:
		return f.wrapInt(st, mul(pa, pb), t)
	case token.QUO, token.REM:
		f.require(st, mkNE(pb), "div", x)
		// truncated division: both operands must be known non-negative / positive
		if !st.ctx.proveGE(addc(pb, -1)) {
			if c := mkGE(addc(pb, -1)); st.ctx.decide(c) == 0 {
				needSplit(c)
			}
			return IntV{appP("quo", pa, pb, konst(int64(x.Op)))}
		}
		if !st.ctx.proveGE(pa) {
			c := mkGE(pa)
			if st.ctx.decide(c) == 0 {
				needSplit(c)
			}
			// a < 0: -((-a)/b)
			q := scale(divP(scale(pa, -1), pb), -1)
			if x.Op == token.QUO {
				return f.wrapInt(st, q, t)
			}
			return f.wrapInt(st, sub(pa, mul(q, pb)), t)
		}
		q := st.ctx.simp(divP(pa, pb))
		if x.Op == token.QUO {
			return f.wrapInt(st, q, t)
		}
		return f.wrapInt(st, st.ctx.simp(sub(pa, mul(q, pb))), t)
	case token.SHR:
		if k, ok := pb.isConst(); ok && k >= 0 && k < 62 {
			if a := pa.single(); a != nil && a.kind == AWord && k%8 == 0 {
				if int(k/8) >= len(a.bs) {
					return f.wrapInt(st, konst(0), t)
				}
				return f.wrapInt(st, wordP(a.bs[k/8:]), t)
			}
			return f.wrapInt(st, st.ctx.simp(divP(pa, konst(1<<uint(k)))), t)
		}
		return f.wrapInt(st, appP("shr", pa, pb), t)
	case token.SHL:
		if k, ok := pb.isConst(); ok && k >= 0 && k < 62 {
			return f.wrapInt(st, scale(pa, 1<<uint(k)), t)
		}
		return f.wrapInt(st, appP("shl", pa, pb), t)
	case token.AND, token.AND_NOT, token.OR, token.XOR:
		return f.bitInt(st, x.Op, pa, pb, t)
	}
	giveUp("operator %s", x.Op)
	return nil
}

func lanes(p *Poly, n int) []*BT {
	if a := p.single(); a != nil {
		if a.kind == AWord && len(a.bs) <= n {
			out := append([]*BT(nil), a.bs...)
			for len(out) < n {
				out = append(out, bconst(0))
			}
			return out
		}
		if a.kind == AIntOf {
			out := []*BT{a.bs[0]}
			for len(out) < n {
				out = append(out, bconst(0))
			}
			return out
		}
	}
	if c, ok := p.isConst(); ok && c >= 0 {
		var out []*BT
		for i := 0; i < n; i++ {
			out = append(out, bconst(byte(c>>uint(8*i))))
		}
		return out
	}
	// word shifted left by whole bytes
	if len(p.t) == 1 && p.t[0].c > 1 && len(p.t[0].m) == 1 {
		c := p.t[0].c
		sh := 0
		for c%256 == 0 {
			c /= 256
			sh++
		}
		if c == 1 {
			if l := lanes(atomPoly(p.t[0].m[0]), n); l != nil {
				out := make([]*BT, 0, n)
				for i := 0; i < sh; i++ {
					out = append(out, bconst(0))
				}
				out = append(out, l...)
				return out[:n]
			}
		}
	}
	return nil
}

func (f *frame) bitInt(st *State, op token.Token, pa, pb *Poly, t types.Type) Value {
	if _, ok := pa.isConst(); ok && op != token.AND_NOT {
		pa, pb = pb, pa
	}
	if k, ok := pb.isConst(); ok {
		if ka, ok2 := pa.isConst(); ok2 {
			switch op {
			case token.AND:
				return IntV{konst(ka & k)}
			case token.OR:
				return IntV{konst(ka | k)}
			case token.XOR:
				return IntV{konst(ka ^ k)}
			case token.AND_NOT:
				return IntV{konst(ka &^ k)}
			}
		}
		pow := func(m int64) bool { return m > 0 && m&(m-1) == 0 }
		switch op {
		case token.AND:
			if k == 0 {
				return IntV{konst(0)}
			}
			if k > 0 && pow(k+1) {
				return IntV{st.ctx.simp(modP(pa, konst(k+1)))}
			}
			if k < 0 && pow(-k) {
				return f.wrapInt(st, st.ctx.simp(sub(pa, modP(pa, konst(-k)))), t)
			}
		case token.AND_NOT:
			if k >= 0 && pow(k+1) {
				return f.wrapInt(st, st.ctx.simp(sub(pa, modP(pa, konst(k+1)))), t)
			}
		case token.XOR, token.OR:
			if k == 0 {
				return IntV{pa}
			}
			if k == -1 && op == token.XOR {
				return f.wrapInt(st, addc(scale(pa, -1), -1), t)
			}
		}
	}
	la, lb := lanes(pa, 8), lanes(pb, 8)
	if la != nil && lb != nil {
		var out []*BT
		ok := true
		for i := range la {
			switch op {
			case token.XOR:
				out = append(out, bxor(la[i], lb[i]))
			case token.OR:
				z := bconst(0)
				if la[i] == z || lb[i] == z {
					out = append(out, bxor(la[i], lb[i]))
				} else {
					ok = false
				}
			case token.AND:
				ff := bconst(255)
				z := bconst(0)
				if la[i] == ff {
					out = append(out, lb[i])
				} else if lb[i] == ff {
					out = append(out, la[i])
				} else if la[i] == z || lb[i] == z {
					out = append(out, z)
				} else {
					ok = false
				}
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			n := intSize(t, f.it.wordBits())
			for len(out) > n {
				out = out[:n]
			}
			return IntV{wordP(out)}
		}
	}
	small := func(p *Poly) bool { return st.ctx.proveGE(p) && st.ctx.proveGE(sub(konst(1<<15-1), p)) }
	if op == token.OR && small(pa) && small(pb) {
		appRange["bits|"] = [2]*Poly{konst(0), konst(1<<15 - 1)}
		return IntV{appP("bits|", pa, pb)}
	}
	return f.wrapInt(st, appP("Bits"+op.String(), pa, pb), t)
}

func intSize(t types.Type, word int) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int64, types.Uint64:
		return 8
	}
	return word / 8
}

func (f *frame) equal(st *State, a, b Value, t types.Type) *Cond {
	switch x := a.(type) {
	case IntV:
		return mkEq(x.p, asInt(b))
	case ByteV:
		y := asByte(b)
		isInt := func(z *BT) bool { s := z.single(); return s != nil && s.kind == BInt }
		if isInt(x.b) || isInt(y) {
			return mkEq(intOf(x.b), intOf(y))
		}
		return mkBEQ(bxor(x.b, y))
	case BoolV:
		c, d := x.c, asBool(b)
		if d == condTrue {
			return c
		}
		if d == condFalse {
			return notC(c)
		}
		if c == condTrue {
			return d
		}
		if c == condFalse {
			return notC(d)
		}
		return orC(andC(c, d), andC(notC(c), notC(d)))
	case SliceV:
		y := b.(SliceV)
		if y.obj == nil {
			if x.obj == nil {
				return condTrue
			}
			return x.isNil
		}
		if x.obj == nil {
			return y.isNil
		}
	case PtrV:
		y := b.(PtrV)
		if y.obj == nil {
			if x.obj == nil {
				return condTrue
			}
			return x.isNil
		}
		if x.obj == nil {
			return y.isNil
		}
		if refKey(x.obj) == refKey(y.obj) {
			return mkEq(x.idx, y.idx)
		}
		return atomC("ptreq:" + valKey(a) + "|" + valKey(b))
	case MapV:
		y := b.(MapV)
		if y.obj == nil {
			if x.obj == nil {
				return condTrue
			}
			return x.isNil
		}
		return y.isNil
	case FuncV:
		if y, ok := b.(FuncV); ok && y.fn == nil && y.bi == nil && y.name == "" {
			return boolC(x.fn == nil && x.bi == nil && x.name == "")
		}
		return condFalse
	case ChanV:
		return boolC((x.obj == nil) == (b.(ChanV).obj == nil))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			break
		}
		if y.nilc == condTrue {
			return x.nilc
		}
		if x.nilc == condTrue {
			return y.nilc
		}
		if x.tag == y.tag && x.tag != "" {
			return condTrue
		}
		return andC(notC(x.nilc), notC(y.nilc), atomC("ifeq:"+valKey(a)+"|"+valKey(b)))
	case StringV:
		y := b.(StringV)
		if x.known && y.known {
			return boolC(x.s == y.s)
		}
		if y.known {
			x, y = y, x
		}
		if x.known {
			// one atom per (string, constant); a string equals at most one constant
			nm := "streq:" + y.s + ":" + x.s
			key := y.s
			strConsts[key] = appendNew(strConsts[key], x.s)
			impliedBy[nm] = func([]*Poly) []*Cond {
				var cs []*Cond
				for _, o := range strConsts[key] {
					if o != x.s {
						cs = append(cs, notC(atomC("streq:"+key+":"+o)))
					}
				}
				return cs
			}
			return atomC(nm)
		}
		if x.s == y.s {
			return condTrue
		}
		return atomC("streq:" + x.s + ":" + y.s)
	}
	giveUp("comparison of %T values", a)
	return nil
}

var strConsts = map[string][]string{}

func appendNew(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func one(st *State, v Value) []callRes { return []callRes{{st: st, val: v}} }

func (f *frame) derefCheck(st *State, p PtrV, in ssa.Instruction) {
	if p.obj == nil {
		f.alarm("nil", "dereference of nil", in, st)
		panic(deadPath{})
	}
	f.require(st, notC(p.isNil), "nil", in)
}

func (f *frame) exec(p *Path, in ssa.Instruction) []callRes {
	st := p.st
	set := func(v Value) []callRes { p.env[in.(ssa.Value)] = v; return nil }
	if c := f.it.conc; c != nil && c.start == nil && c.at == nil && c.g.region[in] {
		c.at = in
		defer func() { c.at = nil }()
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		site := "@" + f.cs + "/" + f.fn.Name() + "." + x.Name()
		if !x.Heap {
			// locals are per activation; they are still per iteration when inside a loop
		}
		r := f.alloc(st, site, et, konst(1), "alloc", f.pos(x))
		return set(ptrTo(r.site, r.inst, et))
	case *ssa.BinOp:
		return set(f.binop(p, x))
	case *ssa.UnOp:
		v := f.val(p, x.X)
		switch x.Op {
		case token.MUL:
			pt, ok := v.(PtrV)
			if !ok {
				giveUp("load through %T", v)
			}
			f.derefCheck(st, pt, in)
			f.useCheck(st, pt.obj, in)
			f.accessLoad(st, pt, x.Type(), in)
			return set(f.load(st, pt, x.Type()))
		case token.NOT:
			return set(BoolV{notC(asBool(v))})
		case token.SUB:
			return set(f.wrapInt(st, scale(asInt(v), -1), x.Type()))
		case token.XOR:
			if isByteT(x.Type()) {
				return set(ByteV{bxor(asByte(v), bconst(255))})
			}
			return set(f.wrapInt(st, addc(scale(asInt(v), -1), -1), x.Type()))
		case token.ARROW:
			return f.recv(p, x, v, false)
		}
	case *ssa.ChangeType:
		return set(f.val(p, x.X))
	case *ssa.ChangeInterface:
		return set(f.val(p, x.X))
	case *ssa.Convert:
		return set(f.convert(st, f.val(p, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := f.val(p, x.X)
		return set(IfaceV{nilc: condFalse, dyn: v, typ: x.X.Type(), tag: ""})
	case *ssa.MakeClosure:
		fv := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, f.val(p, b))
		}
		return set(fv)
	case *ssa.MakeSlice:
		n, c := asInt(f.val(p, x.Len)), asInt(f.val(p, x.Cap))
		f.require(st, andC(mkGE(n), mkLE(n, c)), "makeslice", in)
		site := "@" + f.cs + "/" + f.fn.Name() + "." + x.Name()
		et := x.Type().Underlying().(*types.Slice).Elem()
		st.assume(mkLE(c, lenMax))
		r := f.alloc(st, site, et, c, "alloc", f.pos(x))
		return set(SliceV{obj: r, off: konst(0), ln: n, cp: c, isNil: condFalse})
	case *ssa.MakeMap:
		site := "@" + f.cs + "/" + f.fn.Name() + "." + x.Name()
		r := f.allocMap(st, site, x.Type(), f.pos(x))
		return set(MapV{obj: r, isNil: condFalse})
	case *ssa.MakeChan:
		site := "@" + f.cs + "/" + f.fn.Name() + "." + x.Name()
		r := f.alloc(st, site, types.Typ[types.Int], konst(1), "chan", f.pos(x))
		st.objs[site].attr = map[string]Value{"size": IntV{asInt(f.val(p, x.Size))}}
		return set(ChanV{obj: r})
	case *ssa.Slice:
		return set(f.sliceOp(p, x))
	case *ssa.FieldAddr:
		pt := f.val(p, x.X).(PtrV)
		f.derefCheck(st, pt, in)
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return set(f.fieldPtr(st, pt, x.Field, s.Field(x.Field).Type()))
	case *ssa.Field:
		v := f.val(p, x.X)
		s, ok := v.(StructV)
		if !ok {
			giveUp("field of %T", v)
		}
		return set(s.f[x.Field])
	case *ssa.IndexAddr:
		return set(f.indexAddr(st, f.val(p, x.X), asInt(f.val(p, x.Index)), in))
	case *ssa.Index:
		v := f.val(p, x.X)
		i := asInt(f.val(p, x.Index))
		switch a := v.(type) {
		case ArrayV:
			f.require(st, andC(mkGE(i), mkLT(i, konst(a.n))), "index", in)
			if a.src == nil {
				return set(a.base)
			}
			s2 := st.clone()
			s2.objs[a.src.site] = a.src
			return set(cell(s2, &Ref{a.src.site, a.inst}, add(a.off, i)))
		case StringV:
			f.require(st, andC(mkGE(i), mkLT(i, a.ln)), "index", in)
			if k, ok := i.isConst(); ok && a.known {
				return set(ByteV{bconst(a.s[k])})
			}
			return set(ByteV{selB("str:"+a.s, i)})
		}
		giveUp("index of %T", v)
	case *ssa.Store:
		pt, ok := f.val(p, x.Addr).(PtrV)
		if !ok {
			giveUp("store through %T", f.val(p, x.Addr))
		}
		f.derefCheck(st, pt, in)
		f.useCheck(st, pt.obj, in)
		f.store(st, pt, f.val(p, x.Val), x.Val.Type(), in)
		return nil
	case *ssa.Extract:
		v := f.val(p, x.Tuple)
		t, ok := v.(TupleV)
		if !ok || x.Index >= len(t) {
			giveUp("extract from %T", v)
		}
		return set(t[x.Index])
	case *ssa.TypeAssert:
		return f.typeAssert(p, x)
	case *ssa.Lookup:
		return set(f.lookup(p, x))
	case *ssa.MapUpdate:
		f.mapUpdate(p, x)
		return nil
	case *ssa.Send:
		v := f.val(p, x.Chan)
		f.note("send-blocking", in, st, v, f.val(p, x.X))
		return nil
	case *ssa.Select:
		return f.selectOp(p, x)
	case *ssa.Defer:
		d := deferred{call: x}
		d.fn, d.args = f.callee(p, x.Common())
		p.defers = append(p.defers, d)
		return nil
	case *ssa.Go:
		fn, args := f.callee(p, x.Common())
		f.note("go", in, st)
		f.it.inGo++
		defer func() { f.it.inGo-- }()
		gcs := f.cs + "/go" + fmt.Sprint(instrIndex(x))
		if c := f.it.conc; c != nil {
			defer c.enter(st, x, gcs)()
		}
		rs := f.callValue(p, fn, args, x, gcs)
		for i := range rs {
			rs[i].val = nil
		}
		return nonNil(rs)
	case *ssa.Call:
		fn, args := f.callee(p, x.Common())
		return nonNil(f.callValue(p, fn, args, x, f.cs+"/"+x.Name()))
	case *ssa.SliceToArrayPointer:
		s := f.val(p, x.X).(SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		f.require(st, mkLE(konst(at.Len()), s.ln), "slice", in)
		return set(PtrV{obj: s.obj, idx: s.off, isNil: condFalse, arr: at})
	case *ssa.Range, *ssa.Next:
		giveUp("range over a map or string in %s", f.fn)
	}
	giveUp("instruction %T in %s", in, f.fn)
	return nil
}

func nonNil(r []callRes) []callRes {
	if r == nil {
		return []callRes{}
	}
	return r
}
func instrIndex(in ssa.Instruction) int {
	for i, j := range in.Block().Instrs {
		if j == in {
			return in.Block().Index*1000 + i
		}
	}
	return -1
}

func (f *frame) indexAddr(st *State, v Value, i *Poly, in ssa.Instruction) Value {
	et := in.(*ssa.IndexAddr).Type().(*types.Pointer).Elem()
	mk := func(r *Ref, idx *Poly) Value {
		q := PtrV{obj: r, idx: idx, isNil: condFalse}
		if at, ok := et.Underlying().(*types.Array); ok {
			q.arr = at
		}
		return q
	}
	stride := int64(1)
	if at, ok := et.Underlying().(*types.Array); ok {
		stride, _ = flatArray(at)
	}
	switch x := v.(type) {
	case SliceV:
		if x.obj == nil {
			f.alarm("index", "index of a nil slice", in, st)
			panic(deadPath{})
		}
		f.require(st, andC(mkGE(i), mkLT(i, x.ln)), "index", in)
		return mk(x.obj, add(x.off, scale(i, stride)))
	case PtrV:
		f.derefCheck(st, x, in)
		if x.arr == nil {
			giveUp("index through a pointer to %T", v)
		}
		f.require(st, andC(mkGE(i), mkLT(i, konst(x.arr.Len()))), "index", in)
		return mk(x.obj, add(x.idx, scale(i, stride)))
	}
	giveUp("index of %T", v)
	return nil
}

func (f *frame) sliceOp(p *Path, x *ssa.Slice) Value {
	st := p.st
	v := f.val(p, x.X)
	var lo, hi, mx *Poly
	if x.Low != nil {
		lo = asInt(f.val(p, x.Low))
	} else {
		lo = konst(0)
	}
	if x.High != nil {
		hi = asInt(f.val(p, x.High))
	}
	if x.Max != nil {
		mx = asInt(f.val(p, x.Max))
	}
	switch s := v.(type) {
	case StringV:
		if hi == nil {
			hi = s.ln
		}
		f.require(st, andC(mkGE(lo), mkLE(lo, hi), mkLE(hi, s.ln)), "slice", x)
		return StringV{s: s.s + "[sub]", ln: sub(hi, lo)}
	case SliceV:
		if hi == nil {
			hi = s.ln
		}
		cp := s.cp
		cs := []*Cond{mkGE(lo), mkLE(lo, hi)}
		if mx != nil {
			cs = append(cs, mkLE(hi, mx), mkLE(mx, cp))
		} else {
			cs = append(cs, mkLE(hi, cp))
			mx = cp
		}
		f.require(st, andC(cs...), "slice", x)
		if s.obj == nil {
			return s
		}
		return SliceV{obj: s.obj, off: add(s.off, lo), ln: sub(hi, lo), cp: sub(mx, lo), isNil: s.isNil}
	case PtrV:
		f.derefCheck(st, s, x)
		if s.arr == nil {
			giveUp("slice of a pointer")
		}
		n := konst(s.arr.Len())
		if _, ok := s.arr.Elem().Underlying().(*types.Array); ok {
			giveUp("slice of an array of arrays")
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		f.require(st, andC(mkGE(lo), mkLE(lo, hi), mkLE(hi, mx), mkLE(mx, n)), "slice", x)
		return SliceV{obj: s.obj, off: add(s.idx, lo), ln: sub(hi, lo), cp: sub(mx, lo), isNil: condFalse}
	}
	giveUp("slice of %T", v)
	return nil
}

func (f *frame) convert(st *State, v Value, from, to types.Type) Value {
	tb, okT := to.Underlying().(*types.Basic)
	fb, okF := from.Underlying().(*types.Basic)
	if okT && okF && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
		p := asInt(v)
		if tb.Kind() == types.Uint8 {
			if b, ok := v.(ByteV); ok {
				return b
			}
			if a := p.single(); a != nil && a.kind == AWord {
				return ByteV{a.bs[0]}
			}
			if l := lanes(p, 8); l != nil {
				return ByteV{l[0]}
			}
		}
		if a := p.single(); a != nil && a.kind == AWord {
			n := intSize(to, f.it.wordBits())
			if n < len(a.bs) {
				return IntV{wordP(a.bs[:n])}
			}
			return IntV{p} // the value is the same unless the sign bit is involved
		}
		return f.wrapInt(st, p, to)
	}
	if okT && tb.Info()&types.IsString != 0 {
		return StringV{s: "conv:" + valKey(v), ln: appP("strlen:" + valKey(v))}
	}
	if _, ok := v.(StringV); ok {
		giveUp("conversion of a string to %s", to)
	}
	return v
}

func (f *frame) typeAssert(p *Path, x *ssa.TypeAssert) []callRes {
	v := f.val(p, x.X)
	iv, ok := v.(IfaceV)
	if !ok {
		giveUp("type assertion on %T", v)
	}
	if iv.typ == nil {
		giveUp("type assertion on an unknown dynamic type")
	}
	match := types.Identical(iv.typ, x.AssertedType)
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		match = types.Implements(iv.typ, it)
	}
	var res Value
	if match {
		res = iv.dyn
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			res = iv
		}
	} else {
		res = zeroV(x.AssertedType)
	}
	if x.CommaOk {
		p.env[x] = TupleV{res, BoolV{boolC(match)}}
		return nil
	}
	if !match {
		f.alarm("typeassert", "type assertion fails", x, p.st)
		return []callRes{}
	}
	p.env[x] = res
	return nil
}

// ---------- maps: presence and value contents over the key symbol #j ----------

func (f *frame) allocMap(st *State, site string, t types.Type, pos string) *Ref {
	m := t.Underlying().(*types.Map)
	f.alloc(st, site+".has", types.Typ[types.Bool], konst(2), "map", pos)
	f.alloc(st, site+".val", m.Elem(), konst(2), "map", pos)
	return &Ref{site, append([]*Poly(nil), st.inst...)}
}

func mapKey(v Value) *Poly {
	switch x := v.(type) {
	case IntV:
		return x.p
	case ByteV:
		return intOf(x.b)
	}
	giveUp("map key %T", v)
	return nil
}

func (f *frame) lookup(p *Path, x *ssa.Lookup) Value {
	v := f.val(p, x.X)
	m, ok := v.(MapV)
	if !ok {
		giveUp("lookup in %T", v)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	if m.obj == nil {
		if x.CommaOk {
			return TupleV{zeroV(et), BoolV{condFalse}}
		}
		return zeroV(et)
	}
	k := mapKey(f.val(p, x.Index))
	has := f.mapHas(p.st, m.obj, k)
	var val Value
	if isBoolT(et) {
		// the values of sets are usually all true: m[k] == has(k) && val(k)
		vc := f.boolCell(p.st, &Ref{m.obj.site + ".val", m.obj.inst}, k)
		val = BoolV{vc}
		if has == condFalse {
			val = BoolV{condFalse}
		}
	} else {
		switch p.st.ctx.decide(has) {
		case 1:
			val = cell(p.st, &Ref{m.obj.site + ".val", m.obj.inst}, k)
		case -1:
			val = zeroV(et)
		default:
			needSplit(has)
		}
	}
	if x.CommaOk {
		return TupleV{val, BoolV{has}}
	}
	return val
}
func (f *frame) mapHas(st *State, r *Ref, k *Poly) *Cond {
	return f.boolCell(st, &Ref{r.site + ".has", r.inst}, k)
}

// boolCell reads a boolean cell as a condition, without splitting.
func (f *frame) boolCell(st *State, r *Ref, idx *Poly) *Cond {
	cs := cellCases(st.ctx, st.obj(r), r.inst, idx)
	res := asBool(cs[len(cs)-1].v)
	for k := len(cs) - 2; k >= 0; k-- {
		v := asBool(cs[k].v)
		g := cs[k].g
		switch {
		case v == condTrue:
			res = orC(g, res)
		case v == condFalse:
			res = andC(notC(g), res)
		default:
			res = orC(andC(g, v), andC(notC(g), res))
		}
	}
	return res
}

func (f *frame) mapUpdate(p *Path, x *ssa.MapUpdate) {
	m, ok := f.val(p, x.Map).(MapV)
	if !ok {
		giveUp("map update of %T", f.val(p, x.Map))
	}
	if m.obj == nil {
		f.alarm("nil", "assignment to an entry of a nil map", x, p.st)
		panic(deadPath{})
	}
	k := mapKey(f.val(p, x.Key))
	f.setCell(p.st, &Ref{m.obj.site + ".has", m.obj.inst}, k, BoolV{condTrue}, nil)
	f.setCell(p.st, &Ref{m.obj.site + ".val", m.obj.inst}, k, f.val(p, x.Value), nil)
}

// ---------- channels ----------

func (f *frame) recv(p *Path, x ssa.Instruction, v Value, nonblock bool) []callRes {
	if ch, ok := v.(ChanV); ok && ch.obj != nil {
		key := "chan:" + refKey(ch.obj)
		if o := p.st.objs[ch.obj.site]; o != nil && o.kind == "chan" && p.st.flags["closed:"+key] {
			// a closed channel made here: what was sent, or the zero value
			u := x.(*ssa.UnOp)
			et := u.X.Type().Underlying().(*types.Chan).Elem()
			res := func(st *State, w Value, ok bool) callRes {
				if u.CommaOk {
					return callRes{st: st, val: TupleV{w, BoolV{boolC(ok)}}}
				}
				return callRes{st: st, val: w}
			}
			out := []callRes{}
			if p.st.flags[key] || f.it.maybeSent[key] {
				w := f.it.chanVals[key]
				if _, isErr := w.(IfaceV); !isErr {
					giveUp("receive of %T from a local channel", w)
				}
				out = append(out, res(p.st.clone(), w, true))
			}
			f.note("recv", x, p.st, ch)
			return append(out, res(p.st, zeroV(et), false))
		}
	}
	if !nonblock {
		f.note("recv-blocking", x, p.st, v)
	}
	giveUp("blocking receive in %s", f.fn)
	return nil
}

func (f *frame) selectOp(p *Path, x *ssa.Select) []callRes {
	var out []callRes
	if x.Blocking {
		f.note("select-blocking", x, p.st)
	}
	mkRes := func(idx int64, recvd Value, recvIdx int) Value {
		t := TupleV{IntV{konst(idx)}, BoolV{boolC(idx >= 0)}}
		ri := 0
		for k, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if k == recvIdx {
					t = append(t, recvd)
				} else {
					t = append(t, zeroV(et))
				}
				ri++
			}
		}
		return t
	}
	for k, s := range x.States {
		st := p.st.clone()
		ch := f.val(p, s.Chan)
		if s.Dir == types.SendOnly {
			v := f.val(p, s.Send)
			f.note("send", x, st, ch, v)
			if c, ok := ch.(ChanV); ok && c.obj != nil {
				key := "chan:" + refKey(c.obj)
				if st.flags == nil {
					st.flags = map[string]bool{}
				}
				st.flags[key] = true
				f.it.chanVal(key, v)
			}
			out = append(out, callRes{st: st, val: mkRes(int64(k), nil, -1)})
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		c, _ := ch.(ChanV)
		if c.obj == nil {
			continue // a nil channel is never ready
		}
		var v Value
		if o := st.objs[c.obj.site]; o != nil && o.kind == "chan" {
			// a channel made here: something can be received only after a send
			key := "chan:" + refKey(c.obj)
			if !st.flags[key] && !f.it.maybeSent[key] {
				continue
			}
			v = f.it.chanVals[key]
			if v == nil {
				giveUp("receive of an unknown value")
			}
			if _, ok := v.(IfaceV); !ok {
				giveUp("receive of %T from a local channel", v)
			}
		} else {
			name := "recv@" + f.cs + "/" + x.Name()
			v = f.it.symbolicV(st, name, et, nil, append([]*Poly(nil), st.inst...))
		}
		f.note("recv", x, st, ch, v)
		out = append(out, callRes{st: st, val: mkRes(int64(k), v, k)})
	}
	if !x.Blocking {
		out = append(out, callRes{st: p.st, val: mkRes(-1, nil, -1)})
	}
	return nonNil(out)
}

func (it *Interp) chanVal(key string, v Value) {
	if it.chanVals == nil {
		it.chanVals = map[string]Value{}
		it.maybeSent = map[string]bool{}
	}
	it.chanVals[key] = v
	it.maybeSent[key] = true
}

// useCheck is the typestate rule for memory that has been given away.
func (f *frame) useCheck(st *State, r *Ref, in ssa.Instruction) {
	if r == nil || len(st.flags) == 0 {
		return
	}
	if st.flags["released:"+refKey(r)] {
		f.alarm("use-after-put", "memory of "+showRef(r)+" is used after it was given back", in, st)
	}
}
