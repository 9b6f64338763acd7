package main

// Assembly routines are translated, instruction by instruction, into Go
// functions over byte lanes and offsets, which the abstract interpreter then
// analyses like any other function. General registers hold an integer or an
// offset into the memory of one argument (decided by a data-flow analysis of
// the register types), vector registers are 32 byte variables each. Positions
// are those of the assembly source.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type regT struct {
	k string // "", int, ptr, sym, bad
	n string // argument or data symbol
}

type asmXlate struct {
	arch   string
	fn     *AsmFn
	file   *AsmFile
	prm    []asmParam
	in     []map[string]regT // register types before each instruction
	sb     strings.Builder
	ivars  map[string]bool
	vregs  map[string]bool
	labels map[int]bool
	data   map[string]bool
	tmp    int
}

type asmParam struct {
	name string
	off  int64
	kind string // slice, int, byte, word
	size int64
}

func (x *asmXlate) fail(in AsmIns, f string, a ...interface{}) {
	giveUp("assembly %s line %d (%s %s): %s", x.fn.name, in.line, in.op, strings.Join(in.args, ", "), fmt.Sprintf(f, a...))
}

func asmParams(sig *types.Signature) ([]asmParam, bool) {
	var out []asmParam
	off := int64(0)
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		nm := fmt.Sprintf("p%d", i)
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			if !isByteT(u.Elem()) {
				return nil, false
			}
			off = (off + 7) &^ 7
			out = append(out, asmParam{nm, off, "slice", 24})
			off += 24
		case *types.Basic:
			sz := int64(intSize(u, 64))
			if u.Info()&types.IsInteger == 0 {
				return nil, false
			}
			off = (off + sz - 1) / sz * sz
			k := "int"
			if sz == 1 {
				k = "byte"
			}
			out = append(out, asmParam{nm, off, k, sz})
			off += sz
		default:
			return nil, false
		}
	}
	return out, sig.Results().Len() == 0
}

// asmModel returns the analysis of an assembly routine.
func asmModel(f *frame, fn *ssa.Function) Model {
	if fn.Pkg == nil || !isLib(fn.Pkg.Pkg.Path()) {
		return nil
	}
	w := f.it.w
	t := w.asmSSA(fn)
	return func(f *frame, p *Path, c *callSite) []callRes {
		return f.it.run(t, c.args, p.st.clone(), c.site[1:], nil, f)
	}
}

func (w *World) asmSSA(fn *ssa.Function) *ssa.Function {
	if w.asmGo == nil {
		w.asmGo = map[*ssa.Function]*ssa.Function{}
	}
	if g := w.asmGo[fn]; g != nil {
		return g
	}
	short := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	w.asmOf()
	def := w.asm[short][fn.Name()]
	if def == nil {
		giveUp("no assembly for %s", fn)
	}
	x := &asmXlate{arch: w.cfg.arch, fn: def, file: w.asmData[short+"."+fn.Name()], ivars: map[string]bool{}, vregs: map[string]bool{}, labels: map[int]bool{}, data: map[string]bool{}}
	if x.arch != "amd64" && x.arch != "arm64" {
		giveUp("assembly of %s", x.arch)
	}
	var ok bool
	if x.prm, ok = asmParams(fn.Signature); !ok {
		giveUp("signature of the assembly routine %s", fn)
	}
	src := x.translate(fn)
	g := buildAsm(w, fn.Name(), src)
	w.asmGo[fn] = g
	return g
}

var asmDump = ""

func buildAsm(w *World, name, src string) *ssa.Function {
	if asmDump == name {
		fmt.Println(src)
	}
	fset := w.prog.Fset
	file, err := parser.ParseFile(fset, "asm_"+name+".go", src, 0)
	if err != nil {
		giveUp("translation of %s: %v", name, err)
	}
	pkg := types.NewPackage("verif/asm", "asm")
	sp, _, err := ssautil.BuildPackage(&types.Config{Importer: importer.Default()}, fset, pkg, []*ast.File{file}, 0)
	if err != nil {
		giveUp("translation of %s: %v", name, err)
	}
	return sp.Func("F")
}

var x86Sizes = map[string]int{"B": 1, "W": 2, "L": 4, "Q": 8}

// ---- register types ----

func (x *asmXlate) succ(i int) []int {
	in := x.fn.ins[i]
	lbl := func() int {
		t := in.args[len(in.args)-1]
		if k, ok := x.fn.labels[t]; ok {
			return k
		}
		x.fail(in, "unknown label %s", t)
		return 0
	}
	switch x.jump(in.op) {
	case "ret":
		return nil
	case "jmp":
		return []int{lbl()}
	case "cond":
		return []int{i + 1, lbl()}
	}
	return []int{i + 1}
}

func (x *asmXlate) jump(op string) string {
	switch op {
	case "RET":
		return "ret"
	case "JMP":
		return "jmp"
	}
	if x.arch == "arm64" {
		switch op {
		case "B":
			return "jmp"
		case "CBZ", "CBNZ", "CBZW", "CBNZW", "TBZ", "TBNZ":
			return "cond"
		}
		if _, ok := arm64Cond[op]; ok {
			return "cond"
		}
		return ""
	}
	if _, ok := x86Cond[op]; ok {
		return "cond"
	}
	return ""
}

var x86Cond = map[string]string{
	"JEQ": "fl == 0", "JZ": "fl == 0", "JE": "fl == 0", "JNE": "fl != 0", "JNZ": "fl != 0",
	"JLT": "fa < fb", "JL": "fa < fb", "JGE": "fa >= fb", "JGT": "fa > fb", "JG": "fa > fb", "JLE": "fa <= fb",
	"JMI": "fl < 0", "JPL": "fl >= 0",
	"JCS": "U<", "JLO": "U<", "JB": "U<", "JC": "U<", "JCC": "U>=", "JHS": "U>=", "JAE": "U>=", "JNC": "U>=",
	"JHI": "U>", "JA": "U>", "JLS": "U<=", "JBE": "U<=",
}
var arm64Cond = map[string]string{
	"BEQ": "fl == 0", "BNE": "fl != 0", "BMI": "fl < 0", "BPL": "fl >= 0",
	"BLT": "fa < fb", "BGE": "fa >= fb", "BGT": "fa > fb", "BLE": "fa <= fb",
	"BLO": "U<", "BCC": "U<", "BHS": "U>=", "BCS": "U>=", "BHI": "U>", "BLS": "U<=",
}

func isGP(arch, r string) bool {
	if arch == "arm64" {
		if r == "ZR" {
			return true
		}
		if strings.HasPrefix(r, "R") {
			n, err := strconv.Atoi(r[1:])
			return err == nil && n >= 0 && n <= 30
		}
		return false
	}
	switch r {
	case "AX", "BX", "CX", "DX", "SI", "DI", "BP", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15":
		return true
	}
	return false
}

func (x *asmXlate) isV(r string) bool {
	if len(r) < 2 {
		return false
	}
	n, err := strconv.Atoi(r[1:])
	if err != nil || n < 0 || n > 31 {
		return false
	}
	if x.arch == "arm64" {
		return r[0] == 'V'
	}
	return r[0] == 'X' || r[0] == 'Y'
}

// fpArg is name+off(FP).
func (x *asmXlate) fpArg(a string) (asmParam, int64, bool) {
	if !strings.HasSuffix(a, "(FP)") {
		return asmParam{}, 0, false
	}
	b := strings.TrimSuffix(a, "(FP)")
	k := strings.LastIndexByte(b, '+')
	if k < 0 {
		return asmParam{}, 0, false
	}
	off, err := strconv.ParseInt(b[k+1:], 0, 64)
	if err != nil {
		return asmParam{}, 0, false
	}
	for _, p := range x.prm {
		if off >= p.off && off < p.off+p.size {
			return p, off - p.off, true
		}
	}
	return asmParam{}, 0, false
}

// mem is an addressing mode: off(base)(index*scale).
type asmMem struct {
	off       int64
	base, idx string
	scale     int64
}

func (x *asmXlate) memArg(a string) (asmMem, bool) {
	k := strings.IndexByte(a, '(')
	if k < 0 || strings.HasPrefix(a, "$") {
		return asmMem{}, false
	}
	m := asmMem{scale: 1}
	if k > 0 {
		v, ok := immVal(a[:k])
		if !ok {
			return m, false
		}
		m.off = v
	}
	rest := a[k:]
	e := strings.IndexByte(rest, ')')
	m.base = rest[1:e]
	rest = rest[e+1:]
	if !isGP(x.arch, m.base) {
		return m, false
	}
	if rest != "" {
		if rest[0] != '(' || rest[len(rest)-1] != ')' {
			return m, false
		}
		p := strings.SplitN(rest[1:len(rest)-1], "*", 2)
		m.idx = p[0]
		if len(p) == 2 {
			v, err := strconv.ParseInt(p[1], 0, 64)
			if err != nil {
				return m, false
			}
			m.scale = v
		}
		if !isGP(x.arch, m.idx) {
			return m, false
		}
	}
	return m, true
}

func immVal(s string) (int64, bool) {
	s = strings.TrimPrefix(s, "$")
	s = strings.Trim(s, "()")
	neg := false
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	var v int64
	if u, err := strconv.ParseUint(s, 0, 64); err == nil {
		v = int64(u)
	} else {
		// a constant expression
		tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, s)
		if err != nil || tv.Value == nil {
			return 0, false
		}
		k, err2 := strconv.ParseInt(tv.Value.ExactString(), 0, 64)
		if err2 != nil {
			return 0, false
		}
		v = k
	}
	if neg {
		v = -v
	}
	return v, true
}

func isImm(a string) bool { return strings.HasPrefix(a, "$") && !strings.Contains(a, "(SB)") }

func (x *asmXlate) regTypes() {
	n := len(x.fn.ins)
	x.in = make([]map[string]regT, n+1)
	x.in[0] = map[string]regT{}
	work := []int{0}
	for len(work) > 0 {
		i := work[0]
		work = work[1:]
		if i >= n {
			giveUp("assembly %s runs past its end", x.fn.name)
		}
		out := map[string]regT{}
		for k, v := range x.in[i] {
			out[k] = v
		}
		x.effect(x.fn.ins[i], out)
		for _, s := range x.succ(i) {
			if s >= n {
				giveUp("assembly %s runs past its end", x.fn.name)
			}
			if x.in[s] == nil {
				x.in[s] = map[string]regT{}
				for k, v := range out {
					x.in[s][k] = v
				}
				work = append(work, s)
				continue
			}
			ch := false
			for k, v := range x.in[s] {
				if o, ok := out[k]; !ok || o != v {
					if v.k != "bad" {
						x.in[s][k] = regT{k: "bad"}
						ch = true
					}
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
}

// dest is the general register an instruction writes, if any.
func (x *asmXlate) effect(in AsmIns, t map[string]regT) {
	a := in.args
	if len(a) == 0 || x.jump(in.op) != "" {
		return
	}
	op := in.op
	if x.arch == "arm64" {
		if strings.HasSuffix(op, ".P") || strings.HasSuffix(op, ".W") {
			return // the base register keeps its type
		}
		switch op {
		case "CMP", "TST", "CMN", "VLD1", "VST1":
			return
		}
	} else {
		switch op {
		case "CMPQ", "TESTQ", "CMPL", "TESTL", "CMPB", "TESTB":
			return
		}
	}
	d := a[len(a)-1]
	if !isGP(x.arch, d) {
		return
	}
	typ := func(s string) regT {
		if isGP(x.arch, s) {
			if s == "ZR" {
				return regT{k: "int"}
			}
			if v, ok := t[s]; ok {
				return v
			}
			return regT{k: "bad"}
		}
		if p, o, ok := x.fpArg(s); ok {
			if p.kind == "slice" && o == 0 {
				return regT{"ptr", p.name}
			}
			return regT{k: "int"}
		}
		if strings.Contains(s, "(SB)") {
			if strings.HasPrefix(s, "$") {
				nm, _ := symOff(s[1:])
				return regT{"sym", nm}
			}
		}
		return regT{k: "int"}
	}
	switch op {
	case "MOVQ", "MOVD":
		if x.isV(a[0]) {
			t[d] = regT{k: "int"}
			return
		}
		t[d] = typ(a[0])
		return
	case "LEAQ":
		if strings.Contains(a[0], "(SB)") {
			nm, _ := symOff(a[0])
			t[d] = regT{"sym", nm}
			return
		}
		if m, ok := x.memArg(a[0]); ok {
			t[d] = typ(m.base)
			return
		}
		t[d] = regT{k: "bad"}
		return
	case "ADDQ", "SUBQ", "INCQ", "DECQ", "ADD", "SUB", "ADDS", "SUBS":
		var l, r regT
		switch len(a) {
		case 1:
			return
		case 2:
			l, r = typ(d), typ(a[0])
		default:
			l, r = typ(a[1]), typ(a[0])
		}
		isPtr := func(q regT) bool { return q.k == "ptr" || q.k == "sym" }
		sub := strings.HasPrefix(op, "SUB")
		switch {
		case isPtr(l) && isPtr(r) && sub && l == r:
			t[d] = regT{k: "int"}
		case isPtr(l) && isPtr(r):
			t[d] = regT{k: "bad"}
		case isPtr(l):
			t[d] = l
		case isPtr(r) && !sub:
			t[d] = r
		case l.k == "bad" || r.k == "bad":
			t[d] = regT{k: "bad"}
		default:
			t[d] = regT{k: "int"}
		}
		return
	}
	t[d] = regT{k: "int"}
}

// ---- emission ----

func (x *asmXlate) ln(f string, a ...interface{}) {
	fmt.Fprintf(&x.sb, f+"\n", a...)
}

func (x *asmXlate) reg(r string) string {
	if r == "ZR" {
		return "0"
	}
	x.ivars["r"+r] = true
	return "r" + r
}

func (x *asmXlate) lane(r string, i int) string {
	b := r[1:]
	x.vregs[b] = true
	return fmt.Sprintf("v%s_%d", b, i)
}

// intOp is an operand read as an integer.
func (x *asmXlate) intOp(i int, a string) string {
	in := x.fn.ins[i]
	if isImm(a) {
		v, ok := immVal(a)
		if !ok {
			x.fail(in, "constant %s", a)
		}
		return fmt.Sprintf("int(%d)", v)
	}
	if isGP(x.arch, a) {
		if a == "ZR" {
			return "0"
		}
		t := x.in[i][a]
		switch t.k {
		case "int":
			return x.reg(a)
		case "ptr":
			return fmt.Sprintf("(addr(%s) + %s)", t.n, x.reg(a))
		}
		x.fail(in, "%s holds an unknown value", a)
	}
	if p, o, ok := x.fpArg(a); ok {
		switch {
		case p.kind == "slice" && o == 8:
			return "len(" + p.name + ")"
		case p.kind == "slice" && o == 16:
			return "cap(" + p.name + ")"
		case p.kind == "slice" && o == 0:
			return "addr(" + p.name + ")"
		case o == 0 && p.kind != "slice":
			return "int(" + p.name + ")"
		}
	}
	x.fail(in, "operand %s", a)
	return ""
}

// rawOp keeps pointers as offsets.
func (x *asmXlate) rawOp(i int, a string) (string, regT) {
	if isGP(x.arch, a) && a != "ZR" {
		t := x.in[i][a]
		if t.k == "ptr" || t.k == "sym" {
			return x.reg(a), t
		}
	}
	if p, o, ok := x.fpArg(a); ok && p.kind == "slice" && o == 0 {
		return "0", regT{"ptr", p.name}
	}
	if strings.HasPrefix(a, "$") && strings.Contains(a, "(SB)") {
		nm, off := symOff(a[1:])
		return fmt.Sprint(off), regT{"sym", nm}
	}
	return x.intOp(i, a), regT{k: "int"}
}

// cellAt is the Go expression of the byte k of a memory operand.
func (x *asmXlate) cellAt(i int, a string, k int) string {
	in := x.fn.ins[i]
	if strings.Contains(a, "(SB)") && !strings.HasPrefix(a, "$") {
		nm, off := symOff(a)
		return fmt.Sprintf("%s[%d]", x.sym(in, nm), off+int64(k))
	}
	m, ok := x.memArg(a)
	if !ok {
		x.fail(in, "operand %s", a)
	}
	t := x.in[i][m.base]
	base := ""
	switch t.k {
	case "ptr":
		base = t.n
	case "sym":
		base = x.sym(in, t.n)
	default:
		x.fail(in, "%s is not an address", m.base)
	}
	e := x.reg(m.base)
	if m.idx != "" {
		it := x.in[i][m.idx]
		if it.k != "int" {
			x.fail(in, "%s is not an index", m.idx)
		}
		e += fmt.Sprintf(" + %s*%d", x.reg(m.idx), m.scale)
	}
	return fmt.Sprintf("%s[%s + %d]", base, e, m.off+int64(k))
}

func (x *asmXlate) sym(in AsmIns, nm string) string {
	d, ok := x.file.data[nm]
	if !ok || len(d) == 0 {
		x.fail(in, "data symbol %s", nm)
	}
	x.data[nm] = true
	return "d_" + nm
}

func (x *asmXlate) isMem(a string) bool {
	if strings.HasPrefix(a, "$") {
		return false
	}
	return strings.HasSuffix(a, ")") && !strings.HasSuffix(a, "(FP)")
}

// vsrc lists the bytes of a vector operand.
func (x *asmXlate) vsrc(i int, a string, n int) []string {
	var out []string
	for k := 0; k < n; k++ {
		if x.isV(a) {
			out = append(out, x.lane(a, k))
		} else {
			out = append(out, x.cellAt(i, a, k))
		}
	}
	return out
}

// vset assigns lanes all at once.
func (x *asmXlate) vset(r string, es []string, from int, zeroRest int) {
	var l []string
	for k := range es {
		l = append(l, x.lane(r, from+k))
	}
	for k := from + len(es); k < zeroRest; k++ {
		l = append(l, x.lane(r, k))
		es = append(es, "0")
	}
	x.ln("%s = %s", strings.Join(l, ", "), strings.Join(es, ", "))
}

func (x *asmXlate) vstore(i int, a string, es []string) {
	for k, e := range es {
		x.ln("%s = %s", x.cellAt(i, a, k), e)
	}
}

func (x *asmXlate) width(r string) int {
	if r[0] == 'Y' {
		return 32
	}
	return 16
}

func (x *asmXlate) jumpTo(i int) string {
	in := x.fn.ins[i]
	k := x.fn.labels[in.args[len(in.args)-1]]
	x.labels[k] = true
	return fmt.Sprintf("goto L%d", k)
}

func (x *asmXlate) cond(c string) string {
	if strings.HasPrefix(c, "U") {
		return "uint(fa) " + c[1:] + " uint(fb)"
	}
	return c
}

// flags after an arithmetic result: compare is set when the carry is meaningful.
func (x *asmXlate) flags(res, a, b string) {
	x.ln("fl, fa, fb = %s, %s, %s", res, a, b)
}

func (x *asmXlate) translate(fn *ssa.Function) string {
	x.regTypes()
	var body []string
	needLabel := map[int]bool{}
	for i, in := range x.fn.ins {
		if x.in[i] == nil {
			body = append(body, "") // unreachable
			continue
		}
		x.sb.Reset()
		if x.arch == "arm64" {
			x.arm(i, in)
		} else {
			x.x86(i, in)
		}
		body = append(body, x.sb.String())
	}
	for k := range x.labels {
		needLabel[k] = true
	}
	var o strings.Builder
	o.WriteString("package asm\n")
	o.WriteString("func addr(p []byte) int\nfunc aligned(x int)\n")
	o.WriteString("func shuf(t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, c byte) byte\n")
	o.WriteString("func tbl(t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, c byte) byte\n")
	var ds []string
	for d := range x.data {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		var l []string
		for _, b := range x.file.data[d] {
			l = append(l, fmt.Sprint(b))
		}
		fmt.Fprintf(&o, "var d_%s = [%d]byte{%s}\n", d, len(l), strings.Join(l, ", "))
	}
	var ps []string
	for i := range x.prm {
		p := x.prm[i]
		t := "[]byte"
		if p.kind != "slice" {
			t = types.TypeString(fn.Signature.Params().At(i).Type().Underlying(), nil)
		}
		ps = append(ps, p.name+" "+t)
	}
	fmt.Fprintf(&o, "func F(%s) {\n", strings.Join(ps, ", "))
	var vs []string
	for v := range x.ivars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	vs = append(vs, "fl", "fa", "fb")
	fmt.Fprintf(&o, "var %s int\n", strings.Join(vs, ", "))
	fmt.Fprintf(&o, "%s = %s\n", strings.Join(under(len(vs)), ", "), strings.Join(vs, ", "))
	var rs []string
	for v := range x.vregs {
		rs = append(rs, v)
	}
	sort.Strings(rs)
	var ls []string
	for _, r := range rs {
		for k := 0; k < 32; k++ {
			ls = append(ls, fmt.Sprintf("v%s_%d", r, k))
		}
	}
	if len(ls) > 0 {
		fmt.Fprintf(&o, "var %s byte\n", strings.Join(ls, ", "))
		fmt.Fprintf(&o, "%s = %s\n", strings.Join(under(len(ls)), ", "), strings.Join(ls, ", "))
	}
	for i, b := range body {
		if needLabel[i] {
			fmt.Fprintf(&o, "L%d:\n", i)
		}
		// every statement of an instruction has the position of the instruction
		for _, l := range strings.Split(strings.TrimRight(b, "\n"), "\n") {
			if l == "" {
				continue
			}
			fmt.Fprintf(&o, "//line %s:%d\n%s\n", x.fn.file, x.fn.ins[i].line, l)
		}
	}
	o.WriteString("}\n")
	return o.String()
}

func under(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "_")
	}
	return l
}

// shiftLanes: logical shift of groups of g bytes by n bits (left when l).
func shiftLanes(src []string, g int, n int64, left bool) []string {
	out := make([]string, len(src))
	q, r := int(n/8), n%8
	for i := range src {
		lo := i / g * g
		get := func(k int) string {
			if k < lo || k >= lo+g {
				return ""
			}
			return src[k]
		}
		var a, b string
		if left {
			a, b = get(i-q), get(i-q-1)
		} else {
			a, b = get(i+q), get(i+q+1)
		}
		var parts []string
		sh := func(e string, k int64, l bool) {
			if e == "" || k >= 8 {
				return
			}
			op := ">>"
			if l {
				op = "<<"
			}
			if k == 0 {
				parts = append(parts, e)
			} else {
				parts = append(parts, fmt.Sprintf("(%s %s %d)", e, op, k))
			}
		}
		sh(a, r, left)
		if r > 0 {
			sh(b, 8-r, !left)
		}
		if len(parts) == 0 {
			out[i] = "0"
		} else {
			out[i] = strings.Join(parts, " ^ ")
		}
	}
	return out
}

func zip(a, b []string, op string) []string {
	out := make([]string, len(a))
	for i := range a {
		out[i] = a[i] + " " + op + " " + b[i]
	}
	return out
}

func shufLanes(fn string, tbl, ctl []string) []string {
	out := make([]string, len(ctl))
	for i := range ctl {
		h := i / 16 * 16
		out[i] = fmt.Sprintf("%s(%s, %s)", fn, strings.Join(tbl[h:h+16], ", "), ctl[i])
	}
	return out
}

func (x *asmXlate) x86(i int, in AsmIns) {
	a := in.args
	op := in.op
	need := func(ns ...int) {
		for _, n := range ns {
			if len(a) == n {
				return
			}
		}
		x.fail(in, "%d operands", len(a))
	}
	switch x.jump(op) {
	case "ret":
		x.ln("return")
		return
	case "jmp":
		x.ln("%s", x.jumpTo(i))
		return
	case "cond":
		x.ln("if %s { %s }", x.cond(x86Cond[op]), x.jumpTo(i))
		return
	}
	imm := func(s string) int64 {
		v, ok := immVal(s)
		if !ok || !isImm(s) {
			x.fail(in, "constant %s", s)
		}
		return v
	}
	vec3 := func() (d string, s1, s2 []string, zr int) { // VOP src2, src1, dst
		need(3)
		d = a[2]
		n := x.width(d)
		return d, x.vsrc(i, a[1], n), x.vsrc(i, a[0], n), 32
	}
	switch op {
	case "NOP", "VZEROUPPER", "PCALIGN", "PREFETCHT0", "PREFETCHT1", "PREFETCHT2", "PREFETCHNTA", "SFENCE", "LFENCE", "MFENCE":
		if op == "VZEROUPPER" {
			for _, r := range x.usedV() {
				x.vset("X"+r, nil, 16, 32)
			}
		}
		x.ln("_ = 0")
		return
	case "MOVQ", "MOVL":
		need(2)
		s, d := a[0], a[1]
		n := 8
		if op == "MOVL" {
			n = 4
		}
		switch {
		case isGP(x.arch, d) && x.isV(s):
			x.fail(in, "vector to general register")
		case isGP(x.arch, d) && x.isMem(s) && !strings.HasPrefix(s, "$"):
			x.fail(in, "integer load")
		case isGP(x.arch, d):
			if op == "MOVL" && !isImm(s) {
				x.fail(in, "32-bit move")
			}
			e, _ := x.rawOp(i, s)
			x.ln("%s = %s", x.reg(d), e)
		case x.isV(d) && isGP(x.arch, s):
			var l []string
			e := x.intOp(i, s)
			for k := 0; k < n; k++ {
				l = append(l, fmt.Sprintf("byte(%s >> %d)", e, 8*k))
			}
			x.vset(d, l, 0, 16)
		case x.isV(d) && x.isMem(s):
			x.vset(d, x.vsrc(i, s, n), 0, 16)
		case x.isV(d) && x.isV(s):
			x.vset(d, x.vsrc(i, s, n), 0, 16)
		case x.isV(s) && x.isMem(d):
			x.vstore(i, d, x.vsrc(i, s, n))
		default:
			x.fail(in, "operands")
		}
		return
	case "LEAQ":
		need(2)
		if m, ok := x.memArg(a[0]); ok {
			e := x.reg(m.base)
			if t := x.in[i][m.base].k; t != "ptr" && t != "sym" && t != "int" {
				x.fail(in, "%s holds an unknown value", m.base)
			}
			if m.idx != "" {
				e += fmt.Sprintf(" + %s*%d", x.intOp(i, m.idx), m.scale)
			}
			x.ln("%s = %s + %d", x.reg(a[1]), e, m.off)
			return
		}
		if strings.Contains(a[0], "(SB)") {
			_, off := symOff(a[0])
			x.ln("%s = %d", x.reg(a[1]), off)
			return
		}
	case "ADDQ", "SUBQ", "ANDQ", "ORQ", "XORQ":
		need(2)
		d := a[1]
		if !isGP(x.arch, d) {
			break
		}
		so, st := x.rawOp(i, a[0])
		do, dt := x.rawOp(i, d)
		goOp := map[string]string{"ADDQ": "+", "SUBQ": "-", "ANDQ": "&", "ORQ": "|", "XORQ": "^"}[op]
		if op == "XORQ" && a[0] == d {
			x.ln("%s = 0", x.reg(d))
			x.flags("0", "0", "0")
			return
		}
		ptrs := dt.k != "int" || st.k != "int"
		switch op {
		case "ADDQ":
			if st.k != "int" && dt.k != "int" {
				x.fail(in, "sum of addresses")
			}
		case "SUBQ":
			if st.k != "int" && st != dt {
				x.fail(in, "difference of addresses")
			}
		default:
			so, do = x.intOp(i, a[0]), x.intOp(i, d)
			ptrs = false
		}
		x.ln("fa = %s", do)
		x.ln("%s = %s %s %s", x.reg(d), do, goOp, so)
		switch {
		case ptrs && !(st.k == dt.k):
			// an address is never zero and its sign is not used
			x.flags("1", "1", "0")
		case op == "SUBQ":
			x.ln("fl, fb = %s, %s", x.reg(d), so2(so, do, x.reg(d)))
		default:
			x.flags(x.reg(d), x.reg(d), "0")
		}
		return
	case "INCQ", "DECQ", "NEGQ":
		need(1)
		if !isGP(x.arch, a[0]) {
			break
		}
		r := x.reg(a[0])
		switch op {
		case "INCQ":
			x.ln("%s = %s + 1", r, r)
		case "DECQ":
			x.ln("%s = %s - 1", r, r)
		case "NEGQ":
			x.intOp(i, a[0])
			x.ln("%s = -%s", r, r)
		}
		if x.in[i][a[0]].k == "int" {
			x.flags(r, r, "0")
		} else {
			x.flags("1", "1", "0")
		}
		return
	case "SHRQ", "SHLQ", "SARQ":
		need(2)
		if !isGP(x.arch, a[1]) {
			break
		}
		k := imm(a[0]) & 63
		e := x.intOp(i, a[1])
		r := x.reg(a[1])
		switch op {
		case "SHLQ":
			x.ln("%s = %s << %d", r, e, k)
		case "SARQ":
			x.ln("%s = %s >> %d", r, e, k)
		default:
			x.ln("%s = int(uint(%s) >> %d)", r, e, k)
		}
		x.flags(r, r, "0")
		return
	case "CMPQ":
		need(2)
		so, st := x.rawOp(i, a[1])
		do, dt := x.rawOp(i, a[0])
		if st != dt {
			so, do = x.intOp(i, a[1]), x.intOp(i, a[0])
		}
		x.ln("fa, fb = %s, %s", do, so)
		x.ln("fl = fa - fb")
		return
	case "TESTQ":
		need(2)
		e := x.intOp(i, a[0])
		if a[0] != a[1] {
			e += " & " + x.intOp(i, a[1])
		}
		x.ln("fl = %s", e)
		x.ln("fa, fb = fl, 0")
		return
	case "MOVOU", "MOVOA", "MOVO", "MOVUPS", "MOVAPS", "MOVUPD", "MOVAPD", "MOVDQU", "MOVDQA":
		need(2)
		al := op == "MOVOA" || op == "MOVO" || op == "MOVAPS" || op == "MOVAPD" || op == "MOVDQA"
		x.move(i, in, a[0], a[1], 16, al, 16)
		return
	case "VMOVDQU", "VMOVDQA", "VMOVUPS", "VMOVAPS", "VMOVUPD", "VMOVAPD", "VMOVNTDQ":
		need(2)
		r := a[0]
		if !x.isV(r) {
			r = a[1]
		}
		al := op == "VMOVDQA" || op == "VMOVAPS" || op == "VMOVAPD" || op == "VMOVNTDQ"
		x.move(i, in, a[0], a[1], x.width(r), al, 32)
		return
	case "PXOR", "XORPS", "XORPD", "PAND", "ANDPS", "ANDPD", "POR", "ORPS", "ORPD", "PANDN":
		need(2)
		d := a[1]
		if !x.isV(d) {
			break
		}
		if (op == "PXOR" || op == "XORPS" || op == "XORPD") && a[0] == d {
			x.vset(d, nil, 0, 16)
			return
		}
		if x.isMem(a[0]) {
			x.align(i, a[0], 16)
		}
		s, t := x.vsrc(i, a[0], 16), x.vsrc(i, d, 16)
		o := "^"
		switch op {
		case "PAND", "ANDPS", "ANDPD":
			o = "&"
		case "POR", "ORPS", "ORPD":
			o = "|"
		case "PANDN":
			o = "&^"
			s, t = t, s // dst = ^dst & src
			x.vset(d, zip(t, s, o), 0, 0)
			return
		}
		x.vset(d, zip(t, s, o), 0, 0)
		return
	case "VPXOR", "VXORPS", "VPAND", "VANDPS", "VPOR", "VORPS", "VPANDN":
		d, s1, s2, zr := vec3()
		o := "^"
		switch op {
		case "VPAND", "VANDPS":
			o = "&"
		case "VPOR", "VORPS":
			o = "|"
		case "VPANDN": // ^src1 & src2
			x.vset(d, zip(s2, s1, "&^"), 0, zr)
			return
		}
		if o == "^" && a[0] == a[1] {
			x.vset(d, nil, 0, 32)
			return
		}
		x.vset(d, zip(s1, s2, o), 0, zr)
		return
	case "PSRLQ", "PSRLL", "PSRLW", "PSLLQ", "PSLLL", "PSLLW", "PSRLO", "PSLLO", "PSRLDQ", "PSLLDQ":
		need(2)
		g, n := 8, imm(a[0])
		switch op[4:] {
		case "L":
			g = 4
		case "W":
			g = 2
		case "O", "DQ":
			g, n = 16, n*8
		}
		x.vset(a[1], shiftLanes(x.vsrc(i, a[1], 16), g, n, op[2] == 'L' && op[3] == 'L'), 0, 0)
		return
	case "VPSRLQ", "VPSRLD", "VPSRLW", "VPSLLQ", "VPSLLD", "VPSLLW":
		need(3)
		g := map[byte]int{'Q': 8, 'D': 4, 'W': 2}[op[5]]
		x.vset(a[2], shiftLanes(x.vsrc(i, a[1], x.width(a[2])), g, imm(a[0]), op[3] == 'L'), 0, 32)
		return
	case "PSHUFB":
		need(2)
		x.vset(a[1], shufLanes("shuf", x.vsrc(i, a[1], 16), x.vsrc(i, a[0], 16)), 0, 0)
		return
	case "VPSHUFB":
		need(3)
		n := x.width(a[2])
		x.vset(a[2], shufLanes("shuf", x.vsrc(i, a[1], n), x.vsrc(i, a[0], n)), 0, 32)
		return
	case "VINSERTI128", "VINSERTF128":
		need(4)
		l := x.vsrc(i, a[2], 32)
		s := x.vsrc(i, a[1], 16)
		if imm(a[0])&1 == 1 {
			l = append(append([]string{}, l[:16]...), s...)
		} else {
			l = append(append([]string{}, s...), l[16:]...)
		}
		x.vset(a[3], l, 0, 32)
		return
	case "VBROADCASTI128", "VBROADCASTF128":
		need(2)
		s := x.vsrc(i, a[0], 16)
		x.vset(a[1], append(append([]string{}, s...), s...), 0, 32)
		return
	case "VPBROADCASTB", "VPBROADCASTQ", "VPBROADCASTD", "VPBROADCASTW":
		need(2)
		g := map[byte]int{'B': 1, 'Q': 8, 'D': 4, 'W': 2}[op[len(op)-1]]
		s := x.vsrc(i, a[0], g)
		var l []string
		for k := 0; k < x.width(a[1]); k++ {
			l = append(l, s[k%g])
		}
		x.vset(a[1], l, 0, 32)
		return
	case "PSHUFD", "PSHUFL":
		need(3)
		s := x.vsrc(i, a[1], 16)
		k := imm(a[0])
		var l []string
		for q := 0; q < 4; q++ {
			e := int(k>>(2*q)) & 3
			l = append(l, s[4*e:4*e+4]...)
		}
		x.vset(a[2], l, 0, 0)
		return
	case "PUNPCKLQDQ", "PUNPCKLBW":
		need(2)
		d, s := x.vsrc(i, a[1], 16), x.vsrc(i, a[0], 16)
		var l []string
		if op == "PUNPCKLQDQ" {
			l = append(append(l, d[:8]...), s[:8]...)
		} else {
			for k := 0; k < 8; k++ {
				l = append(l, d[k], s[k])
			}
		}
		x.vset(a[1], l, 0, 0)
		return
	}
	x.fail(in, "instruction not modelled")
}

// so2 keeps the subtrahend readable after the destination was overwritten.
func so2(so, do, d string) string {
	if so == d {
		return "fa"
	}
	return so
}

func (x *asmXlate) usedV() []string {
	m := map[string]bool{}
	for _, in := range x.fn.ins {
		for _, a := range in.args {
			if x.isV(a) {
				m[a[1:]] = true
			}
		}
	}
	var l []string
	for r := range m {
		l = append(l, r)
	}
	sort.Strings(l)
	return l
}

func (x *asmXlate) align(i int, m string, n int) {
	mm, ok := x.memArg(m)
	if !ok {
		return
	}
	if t := x.in[i][mm.base]; t.k == "ptr" {
		e := fmt.Sprintf("addr(%s) + %s + %d", t.n, x.reg(mm.base), mm.off)
		if mm.idx != "" {
			e += fmt.Sprintf(" + %s*%d", x.reg(mm.idx), mm.scale)
		}
		x.ln("aligned%s(%s)", "", e)
		_ = n
	}
}

func (x *asmXlate) move(i int, in AsmIns, s, d string, n int, al bool, zr int) {
	switch {
	case x.isV(d):
		if al && x.isMem(s) {
			x.align(i, s, n)
		}
		if zr == 16 {
			zr = 0
		}
		x.vset(d, x.vsrc(i, s, n), 0, zr)
	case x.isV(s) && x.isMem(d):
		if al {
			x.align(i, d, n)
		}
		x.vstore(i, d, x.vsrc(i, s, n))
	default:
		x.fail(in, "operands")
	}
}

func (x *asmXlate) arm(i int, in AsmIns) {
	a := in.args
	op := in.op
	post := false
	if strings.HasSuffix(op, ".P") {
		post = true
		op = strings.TrimSuffix(op, ".P")
	}
	switch x.jump(op) {
	case "ret":
		x.ln("return")
		return
	case "jmp":
		x.ln("%s", x.jumpTo(i))
		return
	case "cond":
		switch op {
		case "CBZ":
			x.ln("if %s == 0 { %s }", x.intOp(i, a[0]), x.jumpTo(i))
			return
		case "CBNZ":
			x.ln("if %s != 0 { %s }", x.intOp(i, a[0]), x.jumpTo(i))
			return
		}
		if c, ok := arm64Cond[op]; ok {
			x.ln("if %s { %s }", x.cond(c), x.jumpTo(i))
			return
		}
		x.fail(in, "instruction not modelled")
	}
	vname := func(s string) string { // V8.B16 -> V8, all 16 bytes
		k := strings.IndexByte(s, '.')
		if k < 0 {
			return s
		}
		switch s[k+1:] {
		case "B16", "H8", "S4", "D2":
			return s[:k]
		}
		x.fail(in, "arrangement %s", s)
		return ""
	}
	list := func(s string) []string {
		s = strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
		var l []string
		for _, p := range strings.Split(s, ",") {
			l = append(l, vname(strings.TrimSpace(p)))
		}
		return l
	}
	three := func() (string, []string, []string) {
		d := vname(a[2])
		return d, x.vsrc(i, vname(a[1]), 16), x.vsrc(i, vname(a[0]), 16)
	}
	switch op {
	case "NOP", "PRFM", "PCALIGN":
		x.ln("_ = 0")
		return
	case "MOVD":
		if len(a) == 2 && isGP(x.arch, a[1]) && !x.isMem(a[0]) {
			e, _ := x.rawOp(i, a[0])
			x.ln("%s = %s", x.reg(a[1]), e)
			return
		}
	case "ADD", "SUB", "ADDS", "SUBS", "AND", "ORR", "EOR", "ANDS":
		d := a[len(a)-1]
		l := d
		if len(a) == 3 {
			l = a[1]
		}
		if !isGP(x.arch, d) || d == "ZR" {
			break
		}
		so, st := x.rawOp(i, a[0])
		lo, lt := x.rawOp(i, l)
		base := strings.TrimSuffix(op, "S")
		goOp := map[string]string{"ADD": "+", "SUB": "-", "AND": "&", "ORR": "|", "EOR": "^"}[base]
		switch base {
		case "ADD":
			if st.k != "int" && lt.k != "int" {
				x.fail(in, "sum of addresses")
			}
		case "SUB":
			if st.k != "int" && st != lt {
				x.fail(in, "difference of addresses")
			}
		default:
			so, lo = x.intOp(i, a[0]), x.intOp(i, l)
		}
		if strings.HasSuffix(op, "S") {
			x.ln("fa, fb = %s, %s", lo, so)
		}
		x.ln("%s = %s %s %s", x.reg(d), lo, goOp, so)
		if strings.HasSuffix(op, "S") {
			x.ln("fl = %s", x.reg(d))
			if base != "SUB" {
				x.ln("fa, fb = fl, 0")
			}
		}
		return
	case "CMP":
		so, st := x.rawOp(i, a[0])
		lo, lt := x.rawOp(i, a[1])
		if st != lt {
			so, lo = x.intOp(i, a[0]), x.intOp(i, a[1])
		}
		x.ln("fa, fb = %s, %s", lo, so)
		x.ln("fl = fa - fb")
		return
	case "LSR", "LSL", "ASR":
		d := a[len(a)-1]
		l := d
		if len(a) == 3 {
			l = a[1]
		}
		k, ok := immVal(a[0])
		if !ok || !isImm(a[0]) {
			break
		}
		switch op {
		case "LSR":
			x.ln("%s = int(uint(%s) >> %d)", x.reg(d), x.intOp(i, l), k&63)
		case "LSL":
			x.ln("%s = %s << %d", x.reg(d), x.intOp(i, l), k&63)
		default:
			x.ln("%s = %s >> %d", x.reg(d), x.intOp(i, l), k&63)
		}
		return
	case "VLD1", "VST1":
		if len(a) != 2 {
			break
		}
		m, v := a[0], a[1]
		if op == "VST1" {
			m, v = a[1], a[0]
		}
		if !strings.HasPrefix(v, "[") {
			break
		}
		regs := list(v)
		inc := int64(0)
		mm, ok := x.memArg(m)
		if !ok {
			break
		}
		if post {
			inc = mm.off
			mm.off = 0
			if inc != int64(16*len(regs)) {
				x.fail(in, "post-increment")
			}
		}
		if mm.off != 0 || mm.idx != "" {
			break
		}
		pm := "(" + mm.base + ")"
		for k, r := range regs {
			mk := fmt.Sprintf("%d%s", 16*k, pm)
			if op == "VLD1" {
				x.vset(r, x.vsrc(i, mk, 16), 0, 0)
			} else {
				x.vstore(i, mk, x.vsrc(i, r, 16))
			}
		}
		if post {
			x.ln("%s = %s + %d", x.reg(mm.base), x.reg(mm.base), inc)
		}
		return
	case "VMOV":
		s, d := a[0], a[1]
		switch {
		case isGP(x.arch, s) && strings.Contains(d, ".B["):
			k := strings.Index(d, ".B[")
			n, err := strconv.Atoi(strings.TrimSuffix(d[k+3:], "]"))
			if err != nil || n < 0 || n > 15 {
				break
			}
			x.ln("%s = byte(%s)", x.lane(d[:k], n), x.intOp(i, s))
			return
		case strings.HasPrefix(s, "V") && strings.HasPrefix(d, "V") && !strings.Contains(s+d, "["):
			x.vset(vname(d), x.vsrc(i, vname(s), 16), 0, 0)
			return
		}
	case "VMOVI":
		v, ok := immVal(a[0])
		if ok && strings.HasSuffix(a[1], ".B16") {
			var l []string
			for k := 0; k < 16; k++ {
				l = append(l, fmt.Sprint(byte(v)))
			}
			x.vset(vname(a[1]), l, 0, 0)
			return
		}
	case "VDUP":
		s, d := a[0], a[1]
		if !strings.HasSuffix(d, ".B16") {
			break
		}
		e := ""
		if isGP(x.arch, s) {
			e = "byte(" + x.intOp(i, s) + ")"
		} else if k := strings.Index(s, ".B["); k > 0 {
			n, err := strconv.Atoi(strings.TrimSuffix(s[k+3:], "]"))
			if err != nil || n < 0 || n > 15 {
				break
			}
			e = x.lane(s[:k], n)
		} else {
			break
		}
		var l []string
		for k := 0; k < 16; k++ {
			l = append(l, e)
		}
		x.vset(vname(d), l, 0, 0)
		return
	case "VEOR", "VAND", "VORR":
		d, s1, s2 := three()
		o := map[string]string{"VEOR": "^", "VAND": "&", "VORR": "|"}[op]
		if op == "VEOR" && vname(a[0]) == vname(a[1]) {
			x.vset(d, nil, 0, 16)
			return
		}
		x.vset(d, zip(s1, s2, o), 0, 0)
		return
	case "VUSHR", "VSHL":
		k, ok := immVal(a[0])
		sf := strings.LastIndexByte(a[1], '.')
		if !ok || sf < 0 {
			break
		}
		g := map[string]int{"B16": 1, "H8": 2, "S4": 4, "D2": 8}[a[1][sf+1:]]
		if g == 0 {
			break
		}
		x.vset(vname(a[2]), shiftLanes(x.vsrc(i, vname(a[1]), 16), g, k, op == "VSHL"), 0, 0)
		return
	case "VTBL":
		tl := list(a[1])
		if len(tl) != 1 {
			break
		}
		x.vset(vname(a[2]), shufLanes("tbl", x.vsrc(i, tl[0], 16), x.vsrc(i, vname(a[0]), 16)), 0, 0)
		return
	}
	x.fail(in, "instruction not modelled")
}

// ---- models of the helpers of the translation ----

func init() {
	asmInit = func() {
		models["verif/asm.addr"] = func(f *frame, p *Path, c *callSite) []callRes {
			s := c.args[0].(SliceV)
			nm := "addr:nil"
			var inst []*Poly
			off := konst(0)
			if s.obj != nil {
				nm = "addr:" + s.obj.site
				inst = s.obj.inst
				off = s.off
			}
			appRange[nm] = [2]*Poly{konst(0), lenMax}
			return one(p.st, IntV{add(appP(nm, inst...), off)})
		}
		models["verif/asm.aligned"] = func(f *frame, p *Path, c *callSite) []callRes {
			v := asInt(c.args[0])
			if debugOn {
				fmt.Println("ALIGN", v, p.st.ctx.list())
			}
			f.require(p.st, mkEQ(p.st.ctx.simp(modP(v, konst(16)))), "alignment", c.instr)
			return one(p.st, nil)
		}
		models["verif/asm.shuf"] = func(f *frame, p *Path, c *callSite) []callRes { return shufModel(f, p, c, true) }
		models["verif/asm.tbl"] = func(f *frame, p *Path, c *callSite) []callRes { return shufModel(f, p, c, false) }
	}
}

var asmInit func()

// shufModel: byte c of a 16-entry table; for a shuffle, bit 7 of the control
// gives zero and bits 4 to 6 are ignored; for a table lookup, 16 and above give zero.
func shufModel(f *frame, p *Path, c *callSite, shuffle bool) []callRes {
	var t []*BT
	for _, a := range c.args[:16] {
		t = append(t, asByte(a))
	}
	ctl := asByte(c.args[16])
	x := p.st.ctx
	if k, ok := ctl.isConst(); ok {
		switch {
		case shuffle && k&0x80 == 0:
			return one(p.st, ByteV{t[k&15]})
		case !shuffle && k < 16:
			return one(p.st, ByteV{t[k]})
		}
		return one(p.st, ByteV{bconst(0)})
	}
	// the control is known to be below 16
	if mkOpq("and", []*BT{ctl}, []*Poly{konst(15)}) != ctl {
		giveUp("shuffle control %s may exceed 15", ctl)
	}
	same := true
	for _, e := range t {
		same = same && e == t[0]
	}
	if same {
		return one(p.st, ByteV{t[0]})
	}
	// multiples of one element
	lin := func(w func(i int) byte, one int) *BT {
		g := bmul(t[one], bconst(gfInv(w(one))))
		for i, e := range t {
			if bmul(bconst(w(i)), g) != e {
				return nil
			}
		}
		return g
	}
	if g := lin(func(i int) byte { return byte(i) }, 1); g != nil {
		if a := ctl.single(); a != nil && a.kind == BOpq && a.name == "shr" { // x>>k = (x ^ (x & (1<<k - 1))) / X^k
			if k, _ := a.ps[0].isConst(); k < 8 {
				m := int64(1)<<uint(k) - 1
				return one(p.st, ByteV{bmulAll(bxor(a.bs[0], mkOpq("and", a.bs, []*Poly{konst(m)})), bconst(gfInv(byte(m+1))), g)})
			}
		}
		return one(p.st, ByteV{bmul(ctl, g)})
	}
	if g := lin(func(i int) byte { return byte(i << 4) }, 1); g != nil {
		return one(p.st, ByteV{bmul(mkOpq("shl", []*BT{ctl}, []*Poly{konst(4)}), g)})
	}
	// consecutive cells of one array
	a0 := t[0].single()
	if a0 != nil && a0.kind == BSel && len(a0.ps) > 0 {
		at := func(d *Poly) *BT {
			ps := append([]*Poly(nil), a0.ps...)
			ps[len(ps)-1] = add(ps[len(ps)-1], d)
			return selB(a0.name, ps...)
		}
		ok := true
		for i, e := range t {
			ok = ok && at(konst(int64(i))) == e
		}
		if ok {
			return one(p.st, ByteV{at(intOf(ctl))})
		}
	}
	_ = x
	giveUp("shuffle of an unrecognised table")
	return nil
}

func gfInv(a byte) byte { return gfPow(a, 254) }
