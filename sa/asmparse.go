package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// A reader for Go assembly files: macros are expanded, labels resolved.

type AsmIns struct {
	op   string
	args []string
	line int
}

type AsmFn struct {
	name   string
	file   string
	line   int
	ins    []AsmIns
	labels map[string]int
	frame  string
}

type AsmFile struct {
	path  string
	fns   []*AsmFn
	data  map[string][]byte // DATA symbols
	inits map[string]map[int]bool
}

type asmErr struct{ msg string }

type asmLine struct {
	text string
	line int
}

type asmMacro struct {
	params []string
	hasPar bool
	body   []asmLine
}

func parseAsm(path string, defined map[string]bool) (f *AsmFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(asmErr); ok {
				f, err = nil, fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	raw, e := os.ReadFile(path)
	if e != nil {
		return nil, e
	}
	f = &AsmFile{path: path, data: map[string][]byte{}, inits: map[string]map[int]bool{}}
	var lines []asmLine
	inC := false
	for i, l := range strings.Split(strings.ReplaceAll(string(raw), "\r\n", "\n"), "\n") {
		var sb strings.Builder
		for j := 0; j < len(l); j++ {
			if inC {
				if strings.HasPrefix(l[j:], "*/") {
					inC = false
					j++
				}
				continue
			}
			if strings.HasPrefix(l[j:], "/*") {
				inC = true
				j++
				continue
			}
			if strings.HasPrefix(l[j:], "//") {
				break
			}
			sb.WriteByte(l[j])
		}
		lines = append(lines, asmLine{strings.TrimSpace(sb.String()), i + 1})
	}
	macros := map[string]*asmMacro{}
	var cond []bool
	active := func() bool {
		for _, c := range cond {
			if !c {
				return false
			}
		}
		return true
	}
	var fn *AsmFn
	fail := func(l int, s string, a ...interface{}) {
		panic(asmErr{fmt.Sprintf("%s:%d: %s", path, l, fmt.Sprintf(s, a...))})
	}
	var emit func(s string, line, depth int)
	emit = func(s string, line, depth int) {
		if depth > 20 {
			fail(line, "macros nested too deeply")
		}
		for _, part := range strings.Split(s, ";") {
			part = strings.TrimSpace(part)
			for {
				// labels
				k := strings.IndexByte(part, ':')
				if k <= 0 || !isIdent(part[:k]) {
					break
				}
				if fn == nil {
					fail(line, "label outside a function")
				}
				if _, dup := fn.labels[part[:k]]; dup {
					fail(line, "label %s is defined twice", part[:k])
				}
				fn.labels[part[:k]] = len(fn.ins)
				part = strings.TrimSpace(part[k+1:])
			}
			if part == "" {
				continue
			}
			op := part
			rest := ""
			if k := strings.IndexAny(part, " \t("); k >= 0 {
				op, rest = part[:k], strings.TrimSpace(part[k:])
			}
			if m := macros[op]; m != nil {
				var args []string
				if m.hasPar {
					if !strings.HasPrefix(rest, "(") || !strings.HasSuffix(rest, ")") {
						fail(line, "macro %s without arguments", op)
					}
					args = splitArgs(rest[1 : len(rest)-1])
					if len(args) != len(m.params) {
						fail(line, "macro %s with %d arguments, wants %d", op, len(args), len(m.params))
					}
				}
				for _, b := range m.body {
					t := b.text
					if m.hasPar {
						t = substIdents(t, m.params, args)
					} else if rest != "" {
						t += " " + rest
					}
					emit(t, line, depth+1)
				}
				continue
			}
			// object-like macros used as operands
			var ks, vs []string
			for n, m := range macros {
				if !m.hasPar && len(m.body) == 1 {
					ks = append(ks, n)
					vs = append(vs, m.body[0].text)
				}
			}
			if len(ks) > 0 {
				for r := 0; r < 5; r++ {
					n := substIdents(rest, ks, vs)
					if n == rest {
						break
					}
					rest = n
				}
			}
			args := splitArgs(rest)
			switch op {
			case "TEXT":
				if len(args) < 1 {
					fail(line, "bad TEXT")
				}
				name := args[0]
				k := strings.Index(name, "(SB)")
				if k < 0 {
					fail(line, "bad TEXT symbol %s", name)
				}
				name = strings.TrimPrefix(strings.TrimPrefix(name[:k], "\u00b7"), "\"\".")
				if j := strings.IndexByte(name, '<'); j >= 0 {
					name = name[:j]
				}
				fn = &AsmFn{name: name, file: path, line: line, labels: map[string]int{}}
				if len(args) > 0 {
					fn.frame = args[len(args)-1]
				}
				f.fns = append(f.fns, fn)
				continue
			case "DATA":
				if len(args) != 2 {
					fail(line, "bad DATA")
				}
				f.dataLine(args[0], args[1], func(s string) { fail(line, "%s", s) })
				continue
			case "GLOBL":
				if len(args) < 2 {
					fail(line, "bad GLOBL")
				}
				sym, _ := symOff(args[0])
				n, err := strconv.ParseInt(strings.TrimPrefix(args[len(args)-1], "$"), 0, 32)
				if err != nil || n < 0 {
					fail(line, "bad GLOBL size")
				}
				d := f.data[sym]
				for int64(len(d)) < n {
					d = append(d, 0)
				}
				f.data[sym] = d
				continue
			}
			if fn == nil {
				fail(line, "instruction outside a function")
			}
			fn.ins = append(fn.ins, AsmIns{op, args, line})
		}
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l.text, "#") {
			d := strings.TrimSpace(l.text[1:])
			full := []asmLine{{strings.TrimSpace(strings.TrimSuffix(d, "\\")), l.line}}
			for strings.HasSuffix(lines[i].text, "\\") && i+1 < len(lines) {
				i++
				full = append(full, asmLine{strings.TrimSpace(strings.TrimSuffix(lines[i].text, "\\")), lines[i].line})
			}
			w := strings.Fields(d)
			if len(w) == 0 {
				continue
			}
			arg := ""
			if len(w) > 1 {
				arg = w[1]
			}
			switch w[0] {
			case "ifdef":
				_, m := macros[arg]
				cond = append(cond, defined[arg] || m)
				continue
			case "ifndef":
				_, m := macros[arg]
				cond = append(cond, !(defined[arg] || m))
				continue
			case "else":
				if len(cond) == 0 {
					fail(l.line, "#else without #if")
				}
				cond[len(cond)-1] = !cond[len(cond)-1]
				continue
			case "endif":
				if len(cond) == 0 {
					fail(l.line, "#endif without #if")
				}
				cond = cond[:len(cond)-1]
				continue
			}
			if !active() {
				continue
			}
			switch w[0] {
			case "include":
				continue
			case "undef":
				delete(macros, arg)
			case "define":
				head := strings.TrimSpace(strings.TrimPrefix(full[0].text, "define"))
				m := &asmMacro{}
				k := 0
				for k < len(head) && isIdent(head[:k+1]) {
					k++
				}
				name := head[:k]
				rest := head[k:]
				if strings.HasPrefix(rest, "(") {
					e := strings.IndexByte(rest, ')')
					if e < 0 {
						fail(l.line, "bad #define")
					}
					m.hasPar = true
					m.params = splitArgs(rest[1:e])
					rest = rest[e+1:]
				}
				full[0].text = strings.TrimSpace(rest)
				for _, b := range full {
					// a backslash inside the body stands for a line break
					t := strings.TrimSpace(strings.Trim(b.text, "\\"))
					if t != "" {
						m.body = append(m.body, asmLine{t, b.line})
					}
				}
				macros[name] = m
			default:
				fail(l.line, "unsupported directive #%s", w[0])
			}
			continue
		}
		if !active() || l.text == "" {
			continue
		}
		emit(l.text, l.line, 0)
	}
	return f, nil
}

func symOff(s string) (string, int64) {
	k := strings.Index(s, "(SB)")
	if k >= 0 {
		s = s[:k]
	}
	off := int64(0)
	if k := strings.LastIndexByte(s, '+'); k >= 0 {
		if n, err := strconv.ParseInt(s[k+1:], 0, 64); err == nil {
			off = n
			s = s[:k]
		}
	}
	s = strings.TrimSuffix(s, "<>")
	return strings.TrimPrefix(s, "\u00b7"), off
}

func (f *AsmFile) dataLine(dst, val string, fail func(string)) {
	k := strings.LastIndexByte(dst, '/')
	if k < 0 {
		fail("bad DATA")
		return
	}
	w, err := strconv.Atoi(dst[k+1:])
	if err != nil || w < 1 || w > 16 {
		fail("bad DATA width")
		return
	}
	sym, off := symOff(dst[:k])
	val = strings.TrimPrefix(val, "$")
	var bs []byte
	if strings.HasPrefix(val, "\"") {
		s, err := strconv.Unquote(val)
		if err != nil {
			fail("bad DATA string")
			return
		}
		bs = []byte(s)
		for len(bs) < w {
			bs = append(bs, 0)
		}
	} else {
		v, err := strconv.ParseUint(val, 0, 64)
		if err != nil {
			n, err2 := strconv.ParseInt(val, 0, 64)
			if err2 != nil {
				fail("bad DATA value")
				return
			}
			v = uint64(n)
		}
		for i := 0; i < w; i++ {
			bs = append(bs, byte(v>>(8*uint(i))))
		}
	}
	if off < 0 || off > 1<<20 {
		fail("bad DATA offset")
		return
	}
	d := f.data[sym]
	for int64(len(d)) < off+int64(w) {
		d = append(d, 0)
	}
	copy(d[off:], bs[:w])
	f.data[sym] = d
}

func isIdent(s string) bool {
	for i, r := range s {
		if r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9' {
			continue
		}
		return false
	}
	return s != ""
}

func splitArgs(s string) []string {
	var out []string
	depth := 0
	start := 0
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[start:]))
}

// substIdents replaces whole identifiers.
func substIdents(s string, names, vals []string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && isIdent(s[i:j+1]) {
			j++
		}
		if j == i {
			// digits directly before an identifier belong to a number
			if s[i] >= '0' && s[i] <= '9' {
				for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
					j++
				}
				sb.WriteString(s[i:j])
				i = j
				continue
			}
			sb.WriteByte(s[i])
			i++
			continue
		}
		id := s[i:j]
		for k, n := range names {
			if n == id {
				id = vals[k]
				break
			}
		}
		sb.WriteString(id)
		i = j
	}
	return sb.String()
}
