package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/fadhilkurnia/shamir"

// Config is one build configuration of the library.
type Config struct {
	goos, arch string
	tags       string
}

func (c Config) String() string {
	s := c.goos + "/" + c.arch
	if c.tags != "" {
		s += "+" + c.tags
	}
	return s
}

var cfgAMD64 = Config{"linux", "amd64", ""}
var cfgARM64 = Config{"linux", "arm64", ""}
var cfgNoasm = Config{"linux", "amd64", "noasm"}

type World struct {
	cfg     Config
	prog    *ssa.Program
	pkgs    map[string]*packages.Package // short name (path below the module) -> package
	spkg    map[string]*ssa.Package
	tabs    map[*ssa.Global]*Table
	errVars map[*ssa.Global]bool
	asm     map[string]map[string]*AsmFn
	asmGo   map[*ssa.Function]*ssa.Function
	asmData map[string]*AsmFile
	vecs    map[string]*vecSummary
}

var worlds = map[Config]*World{}

func goEnv(c Config) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOOS", "GOARCH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOOS="+c.goos, "GOARCH="+c.arch, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
	return env
}

// libPkgs are the packages of the library; the main package and the command
// line stub are not part of it.
func isLib(path string) bool {
	if path == modPath || !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	return path != modPath+"/cli"
}

func load(c Config) *World {
	if w := worlds[c]; w != nil {
		return w
	}
	conf := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: goEnv(c),
	}
	if c.tags != "" {
		conf.BuildFlags = []string{"-tags=" + c.tags}
	}
	ps, err := packages.Load(conf, "./...")
	if err != nil {
		fatal("cannot load %s: %v", c, err)
	}
	w := &World{cfg: c, pkgs: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}}
	var roots []*packages.Package
	for _, p := range ps {
		if !isLib(p.PkgPath) {
			continue
		}
		if len(p.Errors) > 0 {
			loadErrors = append(loadErrors, fmt.Sprintf("%s: %s: %v", c, p.PkgPath, p.Errors[0]))
		}
		roots = append(roots, p)
	}
	if len(loadErrors) > 0 {
		fatal("the library does not type-check: %s", strings.Join(loadErrors, "; "))
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].PkgPath < roots[j].PkgPath })
	prog, sp := ssautil.Packages(roots, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range roots {
		short := strings.TrimPrefix(p.PkgPath, modPath+"/")
		w.pkgs[short] = p
		w.spkg[short] = sp[i]
	}
	worlds[c] = w
	return w
}

var loadErrors []string

func fatal(f string, a ...interface{}) {
	panic(fatalErr{fmt.Sprintf(f, a...)})
}

type fatalErr struct{ msg string }
