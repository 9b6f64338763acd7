package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

func init() {
	register("F05", "type-checking of every build configuration, and symbol agreement between Go declarations and assembly", checkF05)
}

// plainLoad type-checks the library for one configuration.
func plainLoad(c Config) ([]*packages.Package, error) {
	conf := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: goEnv(c),
	}
	if c.tags != "" {
		conf.BuildFlags = []string{"-tags=" + c.tags}
	}
	ps, err := packages.Load(conf, "./...")
	if err != nil {
		return nil, err
	}
	var out []*packages.Package
	for _, p := range ps {
		if isLib(p.PkgPath) {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out, nil
}

var f05Quick = []string{"linux/386", "linux/amd64", "linux/arm", "linux/arm64", "linux/loong64", "linux/mips", "linux/mips64", "linux/mips64le", "linux/mipsle",
	"linux/ppc64", "linux/ppc64le", "linux/riscv64", "linux/s390x", "js/wasm", "windows/amd64", "windows/386", "darwin/arm64", "freebsd/amd64"}

func goTool(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Env = goEnv(cfgAMD64)
	cmd.Dir = repoDir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		return o.String(), fmt.Errorf("go %s: %v: %s", strings.Join(args, " "), err, e.String())
	}
	return o.String(), nil
}

func checkF05(r *Report) {
	r.rule("For every build configuration (operating system, architecture, with and without assembly) every library package and its dependencies are type-checked from source with that configuration's word size and file selection; every function declared without a body must have exactly one TEXT symbol of its name in an assembly file of that configuration, every assembly file must assemble, and the exported vector operations must be declared, with one signature, in every configuration.")
	r.assumes("the go toolchain's file selection, type checker and assembler accept what the compiler accepts", "the dependencies' own assembly assembles")
	plats := f05Quick
	tagsets := []string{"", "noasm"}
	if r.tier == "thorough" {
		out, err := goTool("tool", "dist", "list")
		if err != nil {
			fatal("%v", err)
		}
		plats = strings.Fields(out)
		tagsets = append(tagsets, "appengine")
	}
	var cfgs []Config
	for _, p := range plats {
		k := strings.IndexByte(p, '/')
		for _, t := range tagsets {
			cfgs = append(cfgs, Config{p[:k], p[k+1:], t})
		}
	}
	type res struct {
		ps  []*packages.Package
		err error
	}
	rs := make([]res, len(cfgs))
	sem := make(chan struct{}, maxInt(2, runtime.NumCPU()/2))
	var wg sync.WaitGroup
	type fnSig struct{ sig, cfg, pos string }
	type cfgOut struct {
		vec   map[string]fnSig
		names []string
	}
	outs := make([]cfgOut, len(cfgs))
	var mu sync.Mutex
	for i := range cfgs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ps, err := plainLoad(cfgs[i])
			mu.Lock()
			defer mu.Unlock()
			f05One(r, cfgs[i], ps, err)
			outs[i].vec = map[string]fnSig{}
			for _, p := range ps {
				outs[i].names = append(outs[i].names, p.PkgPath)
				if p.PkgPath != modPath+"/galois" || p.Types == nil {
					continue
				}
				for _, n := range p.Types.Scope().Names() {
					f, ok := p.Types.Scope().Lookup(n).(*types.Func)
					if !ok || !f.Exported() {
						continue
					}
					if takesBytes(f) {
						outs[i].vec[n] = fnSig{sigKey(f.Type().(*types.Signature)), cfgs[i].String(), p.Fset.Position(f.Pos()).String()}
					}
				}
			}
			rs[i] = res{nil, err}
		}(i)
	}
	wg.Wait()
	// parameter names do not matter: compare types only
	all := map[string]fnSig{}
	for i := range outs {
		// what the portable builds offer has to be there in every build
		if cfgs[i].tags == "" && (cfgs[i].arch == "amd64" || cfgs[i].arch == "arm64") {
			continue
		}
		for n, s := range outs[i].vec {
			if _, ok := all[n]; !ok {
				all[n] = s
			}
		}
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i := range outs {
			s, ok := outs[i].vec[n]
			r.oblige(ok && s.sig == all[n].sig, "vector operation in every configuration", n+" on "+cfgs[i].String(), all[n].pos,
				"galois.%s is declared in configuration %s as %s, but not (or differently) in %s", n, all[n].cfg, all[n].sig, cfgs[i])
		}
	}
	r.count("configurations", len(cfgs))
	r.count("vector operations", len(names))
	r.atLeast("package type-checks", 5*len(cfgs))
	r.atLeast("vector operation in every configuration", 2*len(cfgs))
	r.atLeast("declaration without body has its assembly", 11)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// sigKey is a signature without its parameter names.
func sigKey(s *types.Signature) string {
	var sb strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		sb.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			sb.WriteString(types.TypeString(t.At(i).Type(), nil) + ",")
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func takesBytes(f *types.Func) bool {
	sig := f.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if isBytes(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func f05One(r *Report, c Config, ps []*packages.Package, err error) {
	if err != nil {
		r.oblige(false, "configuration loads", c.String(), "", "%v", err)
		return
	}
	for _, p := range ps {
		short := strings.TrimPrefix(p.PkgPath, modPath+"/")
		msg, pos := "", ""
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				if msg == "" || strings.HasPrefix(q.PkgPath, modPath) && !strings.HasPrefix(pos, repoDir) {
					msg, pos = e.Msg, e.Pos
				}
			}
		})
		r.oblige(msg == "", "package type-checks", short+" on "+c.String(), pos, "package %s does not compile on %s: %s", short, c, msg)
		f05Asm(r, c, p, short)
		r.count("packages type-checked", 1)
		r.count("source files", len(p.CompiledGoFiles)+len(p.OtherFiles))
	}
}

// asmFiles are the assembly files of a package that its configuration selects.
func asmFiles(p *packages.Package) []string {
	var out []string
	for _, f := range p.OtherFiles {
		if strings.HasSuffix(f, ".s") {
			out = append(out, f)
		}
	}
	return out
}

func asmDefs(c Config) map[string]bool {
	return map[string]bool{"GOARCH_" + c.arch: true, "GOOS_" + c.goos: true, "GOAMD64_v1": c.arch == "amd64"}
}

var asmDone = map[string]string{}

func f05Asm(r *Report, c Config, p *packages.Package, short string) {
	text := map[string][]*AsmFn{}
	for _, f := range asmFiles(p) {
		af, err := parseAsm(f, asmDefs(c))
		if err != nil {
			r.oblige(false, "assembly file is read", filepath.Base(f)+" on "+c.String(), f, "%v", err)
			continue
		}
		for _, fn := range af.fns {
			text[fn.name] = append(text[fn.name], fn)
		}
		key := c.goos + "/" + c.arch + " " + f
		msg, ok := asmDone[key]
		if !ok {
			msg = assemble(c, p.PkgPath, f)
			asmDone[key] = msg
		}
		r.oblige(msg == "", "assembly file assembles", filepath.Base(f)+" on "+c.String(), f, "%s does not assemble on %s: %s", filepath.Base(f), c, msg)
	}
	for n, l := range text {
		r.oblige(len(l) == 1, "assembly routine is defined once", n+" on "+c.String(), fmt.Sprintf("%s:%d", l[0].file, l[0].line), "TEXT symbol %s is defined %d times", n, len(l))
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil || fd.Recv != nil {
				continue
			}
			pos := p.Fset.Position(fd.Pos())
			linked := false
			if fd.Doc != nil {
				for _, cm := range fd.Doc.List {
					if strings.HasPrefix(cm.Text, "//go:linkname ") {
						linked = true
					}
				}
			}
			n := len(text[fd.Name.Name])
			r.oblige(n == 1 || linked, "declaration without body has its assembly", short+"."+fd.Name.Name+" on "+c.String(), pos.String(),
				"%s.%s is declared without a body, but the assembly files selected on %s define it %d times", short, fd.Name.Name, c, n)
		}
	}
}

func assemble(c Config, pkg, file string) string {
	root, err := goTool("env", "GOROOT")
	if err != nil {
		return err.Error()
	}
	tmp, err := os.MkdirTemp("", "sa-asm")
	if err != nil {
		return err.Error()
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command("go", "tool", "asm", "-p", pkg, "-I", filepath.Join(strings.TrimSpace(root), "pkg", "include"),
		"-D", "GOOS_"+c.goos, "-D", "GOARCH_"+c.arch, "-o", filepath.Join(tmp, "o.o"), file)
	env := goEnv(cfgAMD64)
	cmd.Dir = repoDir
	cmd.Env = append(env, "GOOS="+c.goos, "GOARCH="+c.arch)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return strings.TrimSpace(string(out)) + " (" + err.Error() + ")"
	}
	return ""
}
