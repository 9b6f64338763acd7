package main

// Models of the functions outside the library (standard library, AES-CTR and
// erasure-code dependencies). A function that has none is never guessed at: the
// analysis gives up on the path, and the property that needed it is undecided.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]Model

func errV() IfaceV          { return IfaceV{nilc: condFalse, tag: "error"} }
func nilErr() IfaceV        { return IfaceV{nilc: condTrue} }
func tup(vs ...Value) Value { return TupleV(vs) }

var kbv = symAtom("#kb")

// randomDraw fills a slice with fresh values of a random source.
func (f *frame) randomDraw(p *Path, c *callSite, s SliceV, src string) {
	st := p.st
	if s.obj == nil {
		return
	}
	f.useCheck(st, s.obj, c.instr)
	f.note("draw:"+src, c.instr, st, s)
	args := append(append([]*Poly(nil), st.inst...), sub(jP, s.off))
	f.fill(st, s.obj, s.off, s.ln, ByteV{selB(src+":"+c.site, args...)}, c.instr)
}

// readLike: (n int, err error) of a source filling args[k].
func readLike(src string, k int) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		s, ok := c.args[k].(SliceV)
		if !ok {
			giveUp("random read into %T", c.args[k])
		}
		st := p.st
		var out []callRes
		if f.it.fail {
			st2 := st.clone()
			// nothing is promised about the buffer after a failure
			if s.obj != nil {
				args := append(append([]*Poly(nil), st.inst...), sub(jP, s.off))
				f.fill(st2, s.obj, s.off, s.ln, ByteV{selB("failed:"+c.site, args...)}, c.instr)
			}
			if st2.flags == nil {
				st2.flags = map[string]bool{}
			}
			st2.flags["failed"] = true
			nm := "failed.n:" + c.site
			appRange[nm] = [2]*Poly{konst(0), lenMax}
			out = append(out, callRes{st: st2, val: tup(IntV{appP(nm, st.inst...)}, IfaceV{nilc: condFalse, tag: "error"})})
		}
		f.randomDraw(p, c, s, src)
		out = append(out, callRes{st: st, val: tup(IntV{s.ln}, nilErr())})
		return out
	}
}

func constModel(v func(f *frame, st *State, c *callSite) Value) Model {
	return func(f *frame, p *Path, c *callSite) []callRes { return one(p.st, v(f, p.st, c)) }
}

func bufVal(s SliceV) Value { return OpaqueV{tag: "bytes.Buffer", args: []Value{s}} }
func nilSlice() SliceV {
	return SliceV{off: konst(0), ln: konst(0), cp: konst(0), isNil: condTrue}
}

func (f *frame) bufOf(st *State, v Value, in ssa.Instruction) (PtrV, SliceV) {
	pt, ok := v.(PtrV)
	if !ok {
		giveUp("buffer is %T", v)
	}
	f.derefCheck(st, pt, in)
	f.useCheck(st, pt.obj, in)
	b, ok := cell(st, pt.obj, pt.idx).(OpaqueV)
	if !ok || b.tag != "bytes.Buffer" || len(b.args) == 0 {
		giveUp("unknown buffer contents")
	}
	s, ok := b.args[0].(SliceV)
	if !ok {
		giveUp("unknown buffer contents")
	}
	return pt, s
}
func (f *frame) setBuf(st *State, pt PtrV, s SliceV) {
	f.setCell(st, pt.obj, pt.idx, bufVal(s), nil)
}

// bufAppend appends src to the buffer.
func (f *frame) bufAppend(p *Path, c *callSite, buf Value, n *Poly, put func(r *Ref, at *Poly)) {
	st := p.st
	pt, s := f.bufOf(st, buf, c.instr)
	nm := c.site + ".buf"
	appRange[nm+".cap"] = [2]*Poly{konst(0), lenMax}
	cp := appP(nm+".cap", st.inst...)
	tot := add(s.ln, n)
	st.assume(mkLE(tot, cp), mkLE(tot, lenMax))
	var old *Obj
	if s.obj != nil {
		old = st.obj(s.obj)
	}
	r := f.alloc(st, nm, types.Typ[types.Uint8], cp, "alloc", f.pos(c.instr))
	if old != nil {
		f.copyFrom(st, r, konst(0), old, s.obj.inst, s.off, s.ln, nil)
	}
	put(r, s.ln)
	f.setBuf(st, pt, SliceV{obj: r, off: konst(0), ln: tot, cp: cp, isNil: condFalse})
}

// contentTerm is the content of the first n bytes of a slice as a term over #kb.
func (f *frame) contentTerm(st *State, s SliceV) *BT {
	if s.obj == nil {
		return bconst(0)
	}
	kb := atomPoly(kbv)
	x := st.ctx.assume(mkGE(kb), mkLT(kb, s.ln))
	cs := cellCases(x, st.obj(s.obj), s.obj.inst, add(s.off, kb))
	r := asByte(cs[len(cs)-1].v)
	for k := len(cs) - 2; k >= 0; k-- {
		r = bite(cs[k].g, asByte(cs[k].v), r)
	}
	return r
}

// keyed stream: OpaqueV{tag:"stream:<mode>", args: key, keylen, iv, position pointer}
func ksByte(mode string, key, iv *BT, pos *Poly) *BT {
	return mkOpq("ks:"+mode, []*BT{key, iv}, []*Poly{pos})
}

func (f *frame) newStream(p *Path, c *callSite, mode string) []callRes {
	st := p.st
	blk, ok := c.args[0].(IfaceV)
	var bo OpaqueV
	if ok {
		bo, ok = blk.dyn.(OpaqueV)
	}
	if !ok || bo.tag != "aes" {
		giveUp("stream over an unknown block cipher")
	}
	iv := c.args[1].(SliceV)
	f.require(st, mkEq(iv.ln, konst(16)), "ivlen", c.instr)
	r := f.alloc(st, c.site+".pos", types.Typ[types.Int], konst(1), "alloc", f.pos(c.instr))
	f.setCell(st, r, konst(0), IntV{konst(0)}, nil)
	ivt := f.contentTerm(st, iv)
	f.note("cipher:"+mode, c.instr, st, bo.args[0], bo.args[1], ByteV{ivt}, IntV{iv.ln})
	return one(st, IfaceV{nilc: condFalse, tag: "stream", dyn: OpaqueV{tag: "stream:" + mode, args: []Value{bo.args[0], bo.args[1], ByteV{ivt}, PtrV{obj: r, idx: konst(0), isNil: condFalse}}}})
}

// xorStream: dst[j] = src[j] ^ keystream, over n bytes; advances the position.
func (f *frame) streamParts(v Value) (OpaqueV, PtrV) {
	i, ok := v.(IfaceV)
	if !ok {
		giveUp("stream is %T", v)
	}
	o, ok := i.dyn.(OpaqueV)
	if !ok || !strings.HasPrefix(o.tag, "stream:") {
		giveUp("unknown key stream")
	}
	return o, o.args[3].(PtrV)
}

func (f *frame) xorInto(p *Path, c *callSite, dst, src SliceV, n *Poly, mode string, key, iv *BT, pos *Poly) {
	st := p.st
	if dst.obj == nil || src.obj == nil {
		return
	}
	f.useCheck(st, dst.obj, c.instr)
	f.useCheck(st, src.obj, c.instr)
	so := st.obj(src.obj)
	rel := sub(jP, dst.off)
	x := st.ctx.assume(mkLE(dst.off, jP), mkLT(jP, add(dst.off, n)))
	cs := cellCases(x, so, src.obj.inst, add(src.off, rel))
	r := asByte(cs[len(cs)-1].v)
	for k := len(cs) - 2; k >= 0; k-- {
		r = bite(cs[k].g, asByte(cs[k].v), r)
	}
	f.fill(st, dst.obj, dst.off, n, ByteV{bxor(r, ksByte(mode, key, iv, add(pos, rel)))}, c.instr)
}

func permModel(kind string) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		n := asInt(c.args[len(c.args)-1])
		st := p.st
		f.require(st, mkGE(n), "rand", c.instr)
		nm := kind + ":" + c.site
		injective[nm] = true
		appRange[nm] = [2]*Poly{konst(0), addc(n, -1)}
		r := f.alloc(st, c.site, types.Typ[types.Int], n, "alloc", f.pos(c.instr))
		args := append(append([]*Poly(nil), st.inst...), jP)
		f.fill(st, r, konst(0), n, IntV{appP(nm, args...)}, nil)
		return one(st, SliceV{obj: r, off: konst(0), ln: n, cp: n, isNil: condFalse})
	}
}

func intModel(kind string, lo, hi *Poly) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		nm := kind + ":" + c.site
		appRange[nm] = [2]*Poly{lo, hi}
		f.note("draw:"+kind, c.instr, p.st)
		return one(p.st, IntV{appP(nm, p.st.inst...)})
	}
}
func intnModel(kind string) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		n := asInt(c.args[len(c.args)-1])
		f.require(p.st, mkGE(addc(n, -1)), "rand", c.instr)
		nm := kind + ":" + c.site
		appRange[nm] = [2]*Poly{konst(0), nil}
		v := appP(nm, p.st.inst...)
		p.st.assume(mkLT(v, n))
		f.note("draw:"+kind, c.instr, p.st)
		return one(p.st, IntV{v})
	}
}

func wordGet(n int, big bool) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		s := c.args[len(c.args)-1].(SliceV)
		f.require(st, mkLE(konst(int64(n)), s.ln), "index", c.instr)
		if s.obj == nil {
			return []callRes{}
		}
		f.useCheck(st, s.obj, c.instr)
		bs := make([]*BT, n)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			bs[i] = asByte(sliceCell(st, s, konst(int64(k))))
		}
		return one(st, IntV{wordP(bs)})
	}
}
func wordPut(n int, big bool) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		s := c.args[len(c.args)-2].(SliceV)
		v := asInt(c.args[len(c.args)-1])
		f.require(st, mkLE(konst(int64(n)), s.ln), "index", c.instr)
		if s.obj == nil {
			return []callRes{}
		}
		f.useCheck(st, s.obj, c.instr)
		l := lanes(v, n)
		if l == nil {
			for i := 0; i < n; i++ {
				l = append(l, mkOpq("byteof", nil, []*Poly{v, konst(int64(i)), konst(int64(n))}))
			}
		}
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			f.setCell(st, s.obj, add(s.off, konst(int64(k))), ByteV{l[i]}, c.instr)
		}
		return one(st, nil)
	}
}

func atomicAdd(sz int) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		pt := c.args[0].(PtrV)
		f.derefCheck(st, pt, c.instr)
		d := asInt(c.args[1])
		f.note("atomic", c.instr, st, pt)
		v := f.wrapInt(st, add(asInt(cell(st, pt.obj, pt.idx)), d), st.obj(pt.obj).elem)
		f.setCell(st, pt.obj, pt.idx, v, c.instr)
		return one(st, v)
	}
}

func noop(f *frame, p *Path, c *callSite) []callRes {
	if c.sig.Results().Len() == 0 {
		return one(p.st, nil)
	}
	giveUp("result of %s", c.name)
	return nil
}

func init() {
	models = map[string]Model{}
	m := models
	errNew := constModel(func(f *frame, st *State, c *callSite) Value { return errV() })
	m["fmt.Errorf"], m["errors.New"] = errNew, errNew
	m["errors.Is"] = constModel(func(f *frame, st *State, c *callSite) Value {
		return BoolV{atomC("errors.Is:" + c.site)}
	})
	str := constModel(func(f *frame, st *State, c *callSite) Value {
		nm := "str:" + c.site
		appRange[nm] = [2]*Poly{konst(0), lenMax}
		return StringV{s: nm, ln: appP(nm, st.inst...)}
	})
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.Itoa", "(error).Error"} {
		m[n] = str
	}
	m["crypto/rand.Read"] = readLike("sec", 0)
	m["io.ReadFull"] = func(f *frame, p *Path, c *callSite) []callRes {
		i, _ := c.args[0].(IfaceV)
		src := ""
		switch {
		case i.tag == "g:crypto/rand.Reader":
			src = "sec"
		case i.typ != nil && i.typ.String() == "*"+modPath+"/csprng.CSPRNG":
			// ReadFull calls Read until the buffer is full
			if rd := f.it.contracts["(*"+modPath+"/csprng.CSPRNG).Read"]; rd != nil {
				return rd(f, p, &callSite{c.instr, c.name, []Value{i.dyn, c.args[1]}, c.site, c.sig})
			}
		}
		if src == "" {
			giveUp("io.ReadFull from an unknown reader")
		}
		return readLike(src, 1)(f, p, c)
	}
	m["(io.Reader).Read"] = func(f *frame, p *Path, c *callSite) []callRes {
		i, _ := c.args[0].(IfaceV)
		if i.tag != "g:crypto/rand.Reader" {
			giveUp("Read of an unknown reader")
		}
		return readLike("sec", 1)(f, p, c)
	}
	m["math/rand.Read"] = readLike("weak", 0)
	m["math/rand.Seed"] = noop
	m["math/rand.Perm"] = permModel("weakperm")
	m["math/rand.Intn"] = intnModel("weakn")
	m["math/rand.Int31n"] = intnModel("weakn")
	m["math/rand.Int63n"] = intnModel("weakn")
	m["math/rand.Uint32"] = intModel("weaku32", konst(0), konst(1<<32-1))
	m["math/rand.Uint64"] = intModel("weaku64", konst(0), nil)
	m["math/rand.Int"] = intModel("weakint", konst(0), konst(1<<63-1))
	m["math/rand.Int63"] = intModel("weakint", konst(0), konst(1<<63-1))
	m["math/rand.Int31"] = intModel("weakint31", konst(0), konst(1<<31-1))
	m["runtime.NumCPU"] = intModel("numcpu", konst(1), konst(1<<20))
	m["runtime.GOMAXPROCS"] = intModel("maxprocs", konst(1), konst(1<<20))

	m["crypto/subtle.ConstantTimeByteEq"] = func(f *frame, p *Path, c *callSite) []callRes {
		cd := mkBEQ(bxor(asByte(c.args[0]), asByte(c.args[1])))
		return one(p.st, IntV{intOf(ind(cd))})
	}
	m["crypto/subtle.ConstantTimeEq"] = func(f *frame, p *Path, c *callSite) []callRes {
		return one(p.st, IntV{intOf(ind(mkEq(asInt(c.args[0]), asInt(c.args[1]))))})
	}
	m["crypto/subtle.ConstantTimeSelect"] = func(f *frame, p *Path, c *callSite) []callRes {
		v := asInt(c.args[0])
		cd := mkEq(v, konst(1))
		if a := v.single(); a != nil && a.kind == AIntOf && len(a.bs[0].m) > 0 {
			if b := a.bs[0].single(); b != nil && b.kind == BInd {
				cd = b.c
			} else if b := bxor(a.bs[0], bconst(1)).single(); b != nil && b.kind == BInd {
				cd = notC(b.c)
			}
		}
		x, y := asInt(c.args[1]), asInt(c.args[2])
		switch p.st.ctx.decide(cd) {
		case 1:
			return one(p.st, IntV{x})
		case -1:
			return one(p.st, IntV{y})
		}
		bt := func(q *Poly) *BT {
			if k, ok := q.isConst(); ok && k >= 0 && k < 256 {
				return bconst(byte(k))
			}
			if a := q.single(); a != nil && a.kind == AIntOf {
				return a.bs[0]
			}
			if p.st.ctx.proveGE(q) && p.st.ctx.proveGE(sub(konst(255), q)) {
				return bint(q)
			}
			return nil
		}
		bx, by := bt(x), bt(y)
		if bx != nil && by != nil {
			return one(p.st, IntV{intOf(bite(cd, bx, by))})
		}
		needSplit(cd)
		return nil
	}
	m["crypto/subtle.ConstantTimeCopy"] = func(f *frame, p *Path, c *callSite) []callRes {
		giveUp("ConstantTimeCopy")
		return nil
	}

	for _, o := range []string{"little", "big"} {
		big := o == "big"
		for _, sz := range []int{16, 32, 64} {
			m[fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", o, sz)] = wordGet(sz/8, big)
			m[fmt.Sprintf("(encoding/binary.%sEndian).PutUint%d", o, sz)] = wordPut(sz/8, big)
		}
	}
	m["sync/atomic.AddUint64"], m["sync/atomic.AddInt64"] = atomicAdd(8), atomicAdd(8)
	m["sync/atomic.AddUint32"], m["sync/atomic.AddInt32"] = atomicAdd(4), atomicAdd(4)
	for _, k := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		m["sync/atomic.Load"+k] = func(f *frame, p *Path, c *callSite) []callRes {
			pt := c.args[0].(PtrV)
			f.derefCheck(p.st, pt, c.instr)
			f.note("atomic", c.instr, p.st, pt)
			return one(p.st, cell(p.st, pt.obj, pt.idx))
		}
		m["sync/atomic.Store"+k] = func(f *frame, p *Path, c *callSite) []callRes {
			pt := c.args[0].(PtrV)
			f.derefCheck(p.st, pt, c.instr)
			f.note("atomic-store", c.instr, p.st, pt)
			f.setCell(p.st, pt.obj, pt.idx, c.args[1], c.instr)
			return one(p.st, nil)
		}
	}
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		n := n
		m[n] = func(f *frame, p *Path, c *callSite) []callRes {
			f.note("sync:"+n, c.instr, p.st, c.args...)
			if strings.HasPrefix(n, "(*sync.WaitGroup).") {
				f.waitGroup(p.st, n, c)
			}
			return one(p.st, nil)
		}
	}

	// bytes.Buffer
	m["(*bytes.Buffer).Reset"] = func(f *frame, p *Path, c *callSite) []callRes {
		pt, s := f.bufOf(p.st, c.args[0], c.instr)
		if s.obj != nil {
			s.ln = konst(0)
			f.setBuf(p.st, pt, s)
		}
		return one(p.st, nil)
	}
	m["(*bytes.Buffer).Grow"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		pt, s := f.bufOf(st, c.args[0], c.instr)
		n := asInt(c.args[1])
		f.require(st, mkGE(n), "grow", c.instr)
		tot := add(s.ln, n)
		if s.obj != nil && st.ctx.prove(mkLE(tot, s.cp)) {
			return one(st, nil)
		}
		// the new backing memory: the old one when it was big enough (its bytes are
		// left over from earlier use), otherwise new
		nm := c.site + ".grown"
		appRange[nm+".cap"] = [2]*Poly{konst(0), lenMax}
		cp := appP(nm+".cap", st.inst...)
		st.assume(mkLE(tot, cp), mkLE(tot, lenMax))
		kind := "alloc"
		var old *Obj
		if s.obj != nil {
			old = st.obj(s.obj)
			kind = old.kind
		}
		r := f.alloc(st, nm, types.Typ[types.Uint8], cp, kind, f.pos(c.instr))
		args := append(append([]*Poly(nil), st.inst...), jP)
		f.fill(st, r, konst(0), cp, ByteV{selB("stale:"+nm, args...)}, nil)
		if old != nil {
			f.copyFrom(st, r, konst(0), old, s.obj.inst, s.off, s.ln, nil)
		}
		f.setBuf(st, pt, SliceV{obj: r, off: konst(0), ln: s.ln, cp: cp, isNil: condFalse})
		return one(st, nil)
	}
	m["(*bytes.Buffer).Bytes"] = func(f *frame, p *Path, c *callSite) []callRes {
		_, s := f.bufOf(p.st, c.args[0], c.instr)
		return one(p.st, s)
	}
	m["(*bytes.Buffer).Len"] = func(f *frame, p *Path, c *callSite) []callRes {
		_, s := f.bufOf(p.st, c.args[0], c.instr)
		return one(p.st, IntV{s.ln})
	}
	m["(*bytes.Buffer).Cap"] = func(f *frame, p *Path, c *callSite) []callRes {
		_, s := f.bufOf(p.st, c.args[0], c.instr)
		return one(p.st, IntV{s.cp})
	}
	m["(*bytes.Buffer).Write"] = func(f *frame, p *Path, c *callSite) []callRes {
		s := c.args[1].(SliceV)
		if s.obj != nil {
			src := p.st.obj(s.obj)
			f.bufAppend(p, c, c.args[0], s.ln, func(r *Ref, at *Poly) {
				f.copyFrom(p.st, r, at, src, s.obj.inst, s.off, s.ln, nil)
			})
		}
		return one(p.st, tup(IntV{s.ln}, nilErr()))
	}
	m["(*bytes.Buffer).WriteByte"] = func(f *frame, p *Path, c *callSite) []callRes {
		f.bufAppend(p, c, c.args[0], konst(1), func(r *Ref, at *Poly) {
			f.setCell(p.st, r, at, c.args[1], nil)
		})
		return one(p.st, nilErr())
	}
	m["bytes.NewBuffer"] = func(f *frame, p *Path, c *callSite) []callRes {
		r := f.alloc(p.st, c.site, modelType(f.it.w, "bytes", "Buffer"), konst(1), "alloc", f.pos(c.instr))
		f.setCell(p.st, r, konst(0), bufVal(c.args[0].(SliceV)), nil)
		return one(p.st, PtrV{obj: r, idx: konst(0), isNil: condFalse})
	}
	m["bytes.NewReader"] = func(f *frame, p *Path, c *callSite) []callRes {
		r := f.alloc(p.st, c.site, modelType(f.it.w, "bytes", "Reader"), konst(1), "alloc", f.pos(c.instr))
		f.setCell(p.st, r, konst(0), OpaqueV{tag: "bytes.Reader", args: []Value{c.args[0]}}, nil)
		return one(p.st, PtrV{obj: r, idx: konst(0), isNil: condFalse})
	}

	// AES
	m["crypto/aes.NewCipher"] = func(f *frame, p *Path, c *callSite) []callRes {
		s := c.args[0].(SliceV)
		ok := orC(mkEq(s.ln, konst(16)), mkEq(s.ln, konst(24)), mkEq(s.ln, konst(32)))
		switch p.st.ctx.decide(ok) {
		case 0:
			needSplit(ok)
		case -1:
			return one(p.st, tup(IfaceV{nilc: condTrue}, errV()))
		}
		f.note("key:aes", c.instr, p.st, s)
		k := f.contentTerm(p.st, s)
		return one(p.st, tup(IfaceV{nilc: condFalse, tag: "aes", dyn: OpaqueV{tag: "aes", args: []Value{ByteV{k}, IntV{s.ln}}}}, nilErr()))
	}
	for _, md := range []string{"CTR", "OFB"} {
		md := md
		m["crypto/cipher.New"+md] = func(f *frame, p *Path, c *callSite) []callRes { return f.newStream(p, c, md) }
	}
	m["(crypto/cipher.Stream).XORKeyStream"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		o, pos := f.streamParts(c.args[0])
		dst, src := c.args[1].(SliceV), c.args[2].(SliceV)
		f.require(st, mkLE(src.ln, dst.ln), "keystream", c.instr)
		at := asInt(cell(st, pos.obj, pos.idx))
		f.xorInto(p, c, dst, src, src.ln, strings.TrimPrefix(o.tag, "stream:"), asByte(o.args[0]), asByte(o.args[2]), at)
		f.setCell(st, pos.obj, pos.idx, IntV{add(at, src.ln)}, nil)
		return one(st, nil)
	}
	m["github.com/starius/aesctrat.NewAesCtr"] = func(f *frame, p *Path, c *callSite) []callRes {
		s := c.args[0].(SliceV)
		ok := orC(mkEq(s.ln, konst(16)), mkEq(s.ln, konst(24)), mkEq(s.ln, konst(32)))
		f.require(p.st, ok, "keylen", c.instr)
		f.note("key:aesctr", c.instr, p.st, s)
		k := f.contentTerm(p.st, s)
		r := f.alloc(p.st, c.site, types.Typ[types.Int], konst(1), "alloc", f.pos(c.instr))
		f.setCell(p.st, r, konst(0), OpaqueV{tag: "aesctr", args: []Value{ByteV{k}, IntV{s.ln}}}, nil)
		return one(p.st, PtrV{obj: r, idx: konst(0), isNil: condFalse})
	}
	m["(*github.com/starius/aesctrat.AesCtr).XORKeyStreamAt"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		pt := c.args[0].(PtrV)
		f.derefCheck(st, pt, c.instr)
		var key *BT
		switch o := st.objs[pt.obj.site]; {
		case o != nil && o.kind == "alloc":
			v, ok := cell(st, pt.obj, pt.idx).(OpaqueV)
			if !ok || v.tag != "aesctr" {
				giveUp("unknown AES-CTR state")
			}
			key = asByte(v.args[0])
		default:
			key = selB("key:"+pt.obj.site, append(append([]*Poly(nil), pt.obj.inst...), atomPoly(kbv))...)
		}
		dst, src, iv := c.args[1].(SliceV), c.args[2].(SliceV), c.args[3].(SliceV)
		off := asInt(c.args[4])
		f.require(st, mkLE(src.ln, dst.ln), "keystream", c.instr)
		f.require(st, mkEq(iv.ln, konst(16)), "ivlen", c.instr)
		f.note("keystream", c.instr, st, dst, IntV{off}, IntV{src.ln})
		f.xorInto(p, c, dst, src, src.ln, "CTR", key, f.contentTerm(st, iv), off)
		return one(st, nil)
	}
	m["io.Copy"] = ioCopy
	asmInit()
	rsModels(models)
}

// modelType looks a standard library type up among the imports of the library.
func modelType(w *World, pkg, name string) types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	giveUp("type %s.%s not found", pkg, name)
	return nil
}

// io.Copy between byte readers, buffers and cipher streams: everything is
// copied; a stream on either side combines the data with its key stream.
func ioCopy(f *frame, p *Path, c *callSite) []callRes {
	st := p.st
	type leg struct {
		streams []OpaqueV
		pos     []PtrV
		end     Value
	}
	follow := func(v Value, field int) leg {
		var l leg
		for d := 0; d < 4; d++ {
			i, ok := v.(IfaceV)
			if !ok || i.typ == nil {
				giveUp("io.Copy with an unknown endpoint")
			}
			switch i.typ.String() {
			case "*crypto/cipher.StreamWriter", "*crypto/cipher.StreamReader":
				pt := i.dyn.(PtrV)
				s := i.typ.(*types.Pointer).Elem()
				sv := f.load(st, pt, s).(StructV)
				o, pos := f.streamParts(sv.f[0])
				l.streams = append(l.streams, o)
				l.pos = append(l.pos, pos)
				v = sv.f[1]
			case "crypto/cipher.StreamWriter", "crypto/cipher.StreamReader":
				sv := i.dyn.(StructV)
				o, pos := f.streamParts(sv.f[0])
				l.streams = append(l.streams, o)
				l.pos = append(l.pos, pos)
				v = sv.f[1]
			default:
				l.end = v
				return l
			}
		}
		giveUp("io.Copy with nested streams")
		return l
	}
	dst, src := follow(c.args[0], 1), follow(c.args[1], 1)
	si := src.end.(IfaceV)
	var data SliceV
	pt := si.dyn.(PtrV)
	f.derefCheck(st, pt, c.instr)
	ov, ok := cell(st, pt.obj, pt.idx).(OpaqueV)
	if !ok || ov.tag != "bytes.Reader" && ov.tag != "bytes.Buffer" {
		giveUp("io.Copy from %s", si.typ)
	}
	data = ov.args[0].(SliceV)
	di := dst.end.(IfaceV)
	if di.typ.String() != "*bytes.Buffer" {
		giveUp("io.Copy to %s", di.typ)
	}
	f.setCell(st, pt.obj, pt.idx, OpaqueV{tag: ov.tag, args: []Value{SliceV{obj: data.obj, off: add(data.off, data.ln), ln: konst(0), cp: konst(0), isNil: condFalse}}}, nil)
	if data.obj != nil && !st.ctx.prove(mkEQ(data.ln)) {
		so := st.obj(data.obj)
		f.bufAppend(p, c, di.dyn, data.ln, func(r *Ref, at *Poly) {
			rel := sub(jP, at)
			x := st.ctx.assume(mkLE(at, jP), mkLT(jP, add(at, data.ln)))
			cs := cellCases(x, so, data.obj.inst, add(data.off, rel))
			b := asByte(cs[len(cs)-1].v)
			for k := len(cs) - 2; k >= 0; k-- {
				b = bite(cs[k].g, asByte(cs[k].v), b)
			}
			for _, l := range []leg{src, dst} {
				for k, o := range l.streams {
					pos := asInt(cell(st, l.pos[k].obj, l.pos[k].idx))
					b = bxor(b, ksByte(strings.TrimPrefix(o.tag, "stream:"), asByte(o.args[0]), asByte(o.args[2]), add(pos, rel)))
				}
			}
			f.fill(st, r, at, data.ln, ByteV{b}, nil)
		})
		for _, l := range []leg{src, dst} {
			for k := range l.streams {
				pos := asInt(cell(st, l.pos[k].obj, l.pos[k].idx))
				f.setCell(st, l.pos[k].obj, l.pos[k].idx, IntV{add(pos, data.ln)}, nil)
			}
		}
	}
	return one(st, tup(IntV{data.ln}, nilErr()))
}

var _ = token.ADD

// waitGroup counts what a WaitGroup waits for. A goroutine is interpreted where
// it is started, so everything is done when Wait is reached.
func (f *frame) waitGroup(st *State, n string, c *callSite) {
	pt, ok := c.args[0].(PtrV)
	if !ok || pt.obj == nil || st.objs[pt.obj.site+".wg"] == nil {
		f.note("wait:of an unknown WaitGroup", c.instr, st)
		return
	}
	ref := &Ref{pt.obj.site + ".wg", pt.obj.inst}
	now := asInt(cell(st, ref, pt.idx))
	switch n {
	case "(*sync.WaitGroup).Wait":
		why := "ok"
		if !st.ctx.prove(mkEQ(now)) {
			why = "for " + now.String() + " more than there are goroutines"
		}
		f.note("wait:"+why, c.instr, st)
	case "(*sync.WaitGroup).Add":
		if f.it.inGo > 0 {
			f.note("wait:in vain, a goroutine registers itself", c.instr, st)
		}
		f.setCell(st, ref, pt.idx, IntV{add(now, asInt(c.args[1]))}, nil)
	default:
		if !st.ctx.prove(mkGE(addc(now, -1))) {
			f.note("wait:in vain, the counter may become negative", c.instr, st)
		}
		f.setCell(st, ref, pt.idx, IntV{addc(now, -1)}, nil)
	}
}
