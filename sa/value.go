package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- abstract values ----------

type Value interface{}

type IntV struct{ p *Poly }
type ByteV struct{ b *BT }
type BoolV struct{ c *Cond }

type Ref struct {
	site string
	inst []*Poly
}

type SliceV struct {
	obj         *Ref // nil: nil slice
	off, ln, cp *Poly
	isNil       *Cond
	str         bool
}
type PtrV struct {
	obj   *Ref // nil: nil pointer
	idx   *Poly
	isNil *Cond
	arr   *types.Array // pointer to a whole array object (off = idx)
}
type StructV struct{ f []Value }
type ArrayV struct { // array value: a snapshot of an object, or uniform
	src  *Obj
	inst []*Poly
	off  *Poly
	base Value
	n    int64
}
type TupleV []Value
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	name  string // external function value
}
type IfaceV struct { // interface value; error values too
	nilc *Cond
	dyn  Value
	typ  types.Type
	tag  string
}
type MapV struct {
	obj   *Ref
	isNil *Cond
}
type ChanV struct {
	obj *Ref
}
type StringV struct {
	s     string
	known bool
	ln    *Poly
}
type OpaqueV struct {
	tag  string
	args []Value
}

// ---------- objects ----------

// index symbols of content functions
var jv = symAtom("#j")
var jP = atomPoly(jv)

func iv(k int) *Atom { return symAtom(fmt.Sprintf("#i%d", k)) }

type Entry struct {
	g   *Cond
	val Value
}

type Obj struct {
	site  string
	elem  types.Type
	ninst int
	ln    *Poly   // number of elements, over #i
	ents  []Entry // oldest first
	base  Value   // over #i,#j
	kind  string  // alloc, input, global, pooled, map, chan, model
	born  int     // loop depth at which it was allocated
	pos   string
	attr  map[string]Value
	tab   *Table
}

func (o *Obj) clone() *Obj { c := *o; c.ents = append([]Entry(nil), o.ents...); return &c }

type Event struct {
	kind string
	site string
	pos  string
	ctx  *Ctx
	inst []*Poly
	vals []Value
	fn   string
}

type State struct {
	ctx    *Ctx
	objs   map[string]*Obj
	inst   []*Poly
	events []*Event
	flags  map[string]bool
	log    []undo
	logOn  bool
}

func (s *State) clone() *State {
	n := *s
	n.log, n.logOn = nil, false
	n.objs = make(map[string]*Obj, len(s.objs))
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.events = append([]*Event(nil), s.events...)
	n.inst = append([]*Poly(nil), s.inst...)
	if s.flags != nil {
		n.flags = map[string]bool{}
		for k, v := range s.flags {
			n.flags[k] = v
		}
	}
	return &n
}

// ---------- substitution in values ----------

func substV(s *Subst, v Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case IntV:
		return IntV{s.P(x.p)}
	case ByteV:
		return ByteV{s.B(x.b)}
	case BoolV:
		return BoolV{s.C(x.c)}
	case SliceV:
		if x.obj == nil {
			return x
		}
		return SliceV{obj: substRef(s, x.obj), off: s.P(x.off), ln: s.P(x.ln), cp: s.P(x.cp), isNil: s.C(x.isNil), str: x.str}
	case PtrV:
		if x.obj == nil {
			return x
		}
		return PtrV{obj: substRef(s, x.obj), idx: s.P(x.idx), isNil: s.C(x.isNil), arr: x.arr}
	case StructV:
		r := StructV{}
		for _, f := range x.f {
			r.f = append(r.f, substV(s, f))
		}
		return r
	case ArrayV:
		r := ArrayV{base: substV(s, x.base), n: x.n}
		if x.src != nil {
			r.src = substObj(s, x.src)
			r.off = s.P(x.off)
			for _, p := range x.inst {
				r.inst = append(r.inst, s.P(p))
			}
		}
		return r
	case TupleV:
		r := TupleV{}
		for _, f := range x {
			r = append(r, substV(s, f))
		}
		return r
	case FuncV:
		r := x
		r.binds = nil
		for _, f := range x.binds {
			r.binds = append(r.binds, substV(s, f))
		}
		return r
	case IfaceV:
		r := x
		r.nilc = s.C(x.nilc)
		r.dyn = substV(s, x.dyn)
		return r
	case MapV:
		return MapV{substRef(s, x.obj), s.C(x.isNil)}
	case ChanV:
		return ChanV{substRef(s, x.obj)}
	case StringV:
		r := x
		if x.ln != nil {
			r.ln = s.P(x.ln)
		}
		return r
	case OpaqueV:
		r := OpaqueV{tag: x.tag}
		for _, f := range x.args {
			r.args = append(r.args, substV(s, f))
		}
		return r
	}
	giveUp("substV: %T", v)
	return nil
}
func substObj(s *Subst, o *Obj) *Obj {
	n := o.clone()
	ch := false
	for i, e := range n.ents {
		g, v := s.C(e.g), substV(s, e.val)
		if g != e.g || valKey(v) != valKey(e.val) {
			ch = true
			n.ents[i] = Entry{g, v}
		}
	}
	if n.base != nil {
		if b := substV(s, n.base); valKey(b) != valKey(n.base) {
			n.base = b
			ch = true
		}
	}
	if l := s.P(n.ln); l != n.ln {
		n.ln = l
		ch = true
	}
	for k, v := range n.attr {
		if w := substV(s, v); valKey(w) != valKey(v) {
			if !ch || true {
				m := map[string]Value{}
				for a, b := range n.attr {
					m[a] = b
				}
				m[k] = w
				n.attr = m
				ch = true
			}
		}
	}
	if !ch {
		return o
	}
	var es []Entry
	for _, e := range n.ents {
		if e.g != condFalse {
			es = append(es, e)
		}
	}
	n.ents = es
	return n
}
func substRef(s *Subst, r *Ref) *Ref {
	if r == nil || len(r.inst) == 0 {
		return r
	}
	n := &Ref{site: r.site}
	for _, p := range r.inst {
		n.inst = append(n.inst, s.P(p))
	}
	return n
}

// valKey gives a structural identity for values.
func valKey(v Value) string {
	var sb strings.Builder
	writeKey(&sb, v)
	return sb.String()
}
func refKey(r *Ref) string {
	if r == nil {
		return "nil"
	}
	s := r.site
	for _, p := range r.inst {
		s += fmt.Sprintf("[%d]", p.id)
	}
	return s
}
func writeKey(sb *strings.Builder, v Value) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("nil")
	case IntV:
		fmt.Fprintf(sb, "i%d", x.p.id)
	case ByteV:
		fmt.Fprintf(sb, "b%d", x.b.id)
	case BoolV:
		fmt.Fprintf(sb, "c%d", x.c.id)
	case SliceV:
		if x.obj == nil {
			sb.WriteString("sNil")
		} else {
			fmt.Fprintf(sb, "s%s,%d,%d,%d,%d", refKey(x.obj), x.off.id, x.ln.id, x.cp.id, x.isNil.id)
		}
	case PtrV:
		if x.obj == nil {
			sb.WriteString("pNil")
		} else {
			fmt.Fprintf(sb, "p%s,%d,%d,%v", refKey(x.obj), x.idx.id, x.isNil.id, x.arr != nil)
		}
	case StructV:
		sb.WriteString("{")
		for _, f := range x.f {
			writeKey(sb, f)
			sb.WriteString(";")
		}
		sb.WriteString("}")
	case ArrayV:
		fmt.Fprintf(sb, "A%d", x.n)
		if x.src != nil {
			sb.WriteString(objKey(x.src))
			for _, p := range x.inst {
				fmt.Fprintf(sb, ",%d", p.id)
			}
			fmt.Fprintf(sb, "@%d", x.off.id)
		}
		writeKey(sb, x.base)
	case TupleV:
		sb.WriteString("(")
		for _, f := range x {
			writeKey(sb, f)
			sb.WriteString(";")
		}
		sb.WriteString(")")
	case FuncV:
		fmt.Fprintf(sb, "F%p%s", x.fn, x.name)
		for _, f := range x.binds {
			writeKey(sb, f)
			sb.WriteString(";")
		}
	case IfaceV:
		fmt.Fprintf(sb, "I%d%s", x.nilc.id, x.tag)
		writeKey(sb, x.dyn)
	case MapV:
		sb.WriteString("m" + refKey(x.obj))
	case ChanV:
		sb.WriteString("h" + refKey(x.obj))
	case StringV:
		fmt.Fprintf(sb, "S%v%q", x.known, x.s)
		if x.ln != nil {
			fmt.Fprintf(sb, "%d", x.ln.id)
		}
	case OpaqueV:
		sb.WriteString("O" + x.tag)
		for _, f := range x.args {
			writeKey(sb, f)
			sb.WriteString(";")
		}
	default:
		fmt.Fprintf(sb, "?%T", v)
	}
}
func entsKey(es []Entry) string {
	var sb strings.Builder
	for _, e := range es {
		fmt.Fprintf(&sb, "|%d:", e.g.id)
		writeKey(&sb, e.val)
	}
	return sb.String()
}
func objKey(o *Obj) string {
	var sb strings.Builder
	sb.WriteString(entsKey(o.ents))
	sb.WriteString("#")
	writeKey(&sb, o.base)
	fmt.Fprintf(&sb, "#%d", o.ln.id)
	var ks []string
	for k := range o.attr {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString("," + k + "=")
		writeKey(&sb, o.attr[k])
	}
	return sb.String()
}

func showV(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case IntV:
		return x.p.String()
	case ByteV:
		return x.b.String()
	case BoolV:
		return x.c.String()
	case SliceV:
		if x.obj == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("slice(%s off=%s len=%s cap=%s)", showRef(x.obj), x.off, x.ln, x.cp)
	case PtrV:
		if x.obj == nil {
			return "nil-ptr"
		}
		return fmt.Sprintf("&%s[%s]", showRef(x.obj), x.idx)
	case IfaceV:
		return fmt.Sprintf("iface(nil:%s %s)", x.nilc, x.tag)
	case StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, showV(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, showV(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case OpaqueV:
		return "opaque:" + x.tag
	}
	return fmt.Sprintf("%T", v)
}
func showRef(r *Ref) string {
	s := r.site
	for _, p := range r.inst {
		s += "[" + p.String() + "]"
	}
	return s
}

// walkV visits every Ref in a value.
func walkRefs(v Value, f func(*Ref)) {
	switch x := v.(type) {
	case SliceV:
		if x.obj != nil {
			f(x.obj)
		}
	case PtrV:
		if x.obj != nil {
			f(x.obj)
		}
	case StructV:
		for _, y := range x.f {
			walkRefs(y, f)
		}
	case TupleV:
		for _, y := range x {
			walkRefs(y, f)
		}
	case ArrayV:
		if x.src != nil {
			for _, e := range x.src.ents {
				walkRefs(e.val, f)
			}
			walkRefs(x.src.base, f)
		}
		walkRefs(x.base, f)
	case FuncV:
		for _, y := range x.binds {
			walkRefs(y, f)
		}
	case IfaceV:
		walkRefs(x.dyn, f)
	case MapV:
		if x.obj != nil {
			f(x.obj)
		}
	case ChanV:
		if x.obj != nil {
			f(x.obj)
		}
	case OpaqueV:
		for _, y := range x.args {
			walkRefs(y, f)
		}
	}
}

// ---------- zero values and types ----------

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroV(t types.Type) Value {
	if isModelType(t) {
		tag := t.String()
		if tag == "bytes.Buffer" {
			return OpaqueV{tag: tag, args: []Value{SliceV{off: konst(0), ln: konst(0), cp: konst(0), isNil: condTrue}}}
		}
		return OpaqueV{tag: "zero:" + tag}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Uint8:
			return ByteV{bconst(0)}
		case u.Info()&types.IsInteger != 0:
			return IntV{konst(0)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{condFalse}
		case u.Info()&types.IsString != 0:
			return StringV{"", true, konst(0)}
		}
		return OpaqueV{tag: "zero:" + t.String()}
	case *types.Slice:
		return SliceV{off: konst(0), ln: konst(0), cp: konst(0), isNil: condTrue}
	case *types.Pointer:
		return PtrV{isNil: condTrue}
	case *types.Interface:
		return IfaceV{nilc: condTrue}
	case *types.Map:
		return MapV{isNil: condTrue}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct:
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, zeroV(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		return ArrayV{base: zeroV(u.Elem()), n: u.Len()}
	}
	return OpaqueV{tag: "zero:" + t.String()}
}
