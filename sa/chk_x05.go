package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X05", "who-may-call analysis over the library's reference graph (SSA)", checkX05)
}

// forbiddenFn tells why reachable library code may not refer to a function.
func forbiddenFn(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() == nil {
		return ""
	}
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	name := fn.Name()
	recv := ""
	if sig := fn.Signature; sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	name = strings.TrimSuffix(strings.TrimSuffix(name, "$bound"), "$thunk")
	switch pkg {
	case "os":
		if recv == "" {
			switch name {
			case "Exit":
				return "ends the process"
			case "NewFile":
				return "opens a file descriptor of the process, possibly its output"
			}
		}
		if recv == "Process" && (name == "Kill" || name == "Signal") {
			return "signals a process"
		}
	case "syscall", "golang.org/x/sys/unix":
		switch name {
		case "Exit", "Kill", "Abort", "Exec", "RawSyscall", "Syscall", "Syscall6", "RawSyscall6", "Write", "Tgkill", "ExitProcess":
			return "makes a system call that ends the process or may write to its output"
		}
	case "runtime":
		if name == "Goexit" && recv == "" {
			return "ends the caller's goroutine"
		}
		if name == "Breakpoint" {
			return "stops the process"
		}
	case "runtime/debug":
		switch name {
		case "PrintStack":
			return "writes to standard error"
		}
	case "fmt":
		switch name {
		case "Print", "Println", "Printf":
			return "writes to standard output"
		}
	case "log":
		if recv == "" {
			switch name {
			case "Print", "Println", "Printf", "Fatal", "Fatalln", "Fatalf", "Panic", "Panicln", "Panicf", "Output":
				return "writes to the standard log"
			case "Default":
				return "gives access to the standard log"
			}
		}
		if recv == "Logger" && strings.HasPrefix(name, "Fatal") {
			return "ends the process"
		}
	case "log/slog":
		if recv == "" {
			switch name {
			case "Debug", "Info", "Warn", "Error", "DebugContext", "InfoContext", "WarnContext", "ErrorContext", "Log", "LogAttrs":
				return "writes to the standard log"
			case "Default":
				return "gives access to the standard log"
			}
		}
	case "log/syslog":
		return "writes to the system log"
	case "os/signal":
		return ""
	case "testing":
		return ""
	}
	return ""
}

func forbiddenGlobal(g *ssa.Global) string {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "os" {
		return ""
	}
	switch g.Name() {
	case "Stdout", "Stderr":
		return "is an output of the process"
	}
	return ""
}

func checkX05(r *Report) {
	r.rule("From every exported function, method and package initialiser of the library the reference graph is closed (a function counts as reachable as soon as reachable code refers to it in any way, called or not); no reachable function may refer to a function that ends the process or writes to its output or log, use the print and println builtins, or refer to os.Stdout or os.Stderr. Panics that a caller's input can trigger are decided by P05, P07, K01 and K02, including those inside goroutines.")
	r.assumes("the dependencies (standard library, reedsolomon, aesctrat, cpuid) do not write or exit on their own")
	total := 0
	for _, c := range []Config{cfgAMD64, cfgARM64, cfgNoasm} {
		w := load(c)
		rc := w.reach()
		for _, fn := range rc.order {
			if !w.libFn(fn) {
				continue
			}
			r.count("functions", 1)
			total++
			live := liveBlocks(w, fn)
			bad := 0
			for _, b := range fn.Blocks {
				if !live[b] {
					continue
				}
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						why, what := "", ""
						switch v := (*op).(type) {
						case *ssa.Function:
							why, what = forbiddenFn(v), v.String()
						case *ssa.Global:
							why, what = forbiddenGlobal(v), v.String()
						case *ssa.Builtin:
							if v.Name() == "print" || v.Name() == "println" {
								why, what = "writes to standard error", "builtin "+v.Name()
							}
						}
						r.count("references", 1)
						if why != "" {
							bad++
							r.oblige(false, "no exit and no output", fn.String()+" -> "+what, w.instrPos(in), "%s %s; reached as %s", what, why, rc.chain(fn))
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
						m := ci.Common().Method
						if n := m.FullName(); n == "(os.Signal).Signal" {
							bad++
						}
					}
				}
			}
			if bad == 0 {
				r.oblige(true, "no exit and no output", fn.String()+" on "+c.String(), "", "")
			}
		}
	}
	r.atLeast("no exit and no output", 60)
	// the deny list still names existing things: the rule must be able to match
	w := load(cfgAMD64)
	pos := 0
	for _, q := range [][2]string{{"os", "Exit"}, {"fmt", "Println"}, {"log", "Fatalf"}} {
		if p := w.prog.ImportedPackage(q[0]); p != nil {
			if f := p.Func(q[1]); f != nil {
				r.oblige(forbiddenFn(f) != "", "the rule matches", q[0]+"."+q[1], "", "the deny list does not match %s.%s", q[0], q[1])
				pos++
			}
		}
	}
	r.atLeast("the rule matches", 1)
	_ = total
}
