package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// packages whose initialisers are executed; the globals of others may not be touched
var initAllow = map[string]bool{
	"errors": true, "io": true, "io/fs": true, "internal/oserror": true, "bufio": true, "bytes": true, "strings": true, "strconv": true,
	"unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "path/filepath": true, "path": true, "sync": true, "sync/atomic": true,
	"context": true, "fmt": true, "net/netip": true, "net/url": true, "encoding/binary": true, "golang.org/x/sync/errgroup": true,
	"internal/bytealg": true, "internal/itoa": true, "math": true, "math/bits": true, "internal/byteorder": true, "encoding/hex": true,
	"internal/filepathlite": true, "encoding": true, "encoding/base32": true, "container/list": true, "container/heap": true, "internal/stringslite": true, "internal/strconv": true,
	"maps": true, "cmp": true, "iter": true, "errors/internal": true, "net/textproto": false, "unique": false, "internal/reflectlite": false,
}

func loadProgram(pkgPath, dir, gowork string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "GOWORK="+gowork, "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, pkgPath, "verifharness/model")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(head(errs, 10), "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, gindex: map[*ssa.Global]int{}, initPkgs: map[string]bool{}, sizes: types.SizesFor("gc", "amd64")}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.repo = func(path string) bool {
		return strings.HasPrefix(path, "github.com/browles/drip")
	}
	p.harness = p.pkgs[pkgPath]
	if p.harness == nil {
		return nil, fmt.Errorf("package %s not loaded", pkgPath)
	}
	for path := range p.pkgs {
		if initAllow[path] || p.repo(path) || strings.HasPrefix(path, "verifharness/") {
			p.initPkgs[path] = true
		}
	}
	typ := func(pk, name string) types.Type {
		sp := p.pkgs[pk]
		if sp == nil {
			return nil
		}
		o := sp.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	p.rterr = typ("verifharness/sym", "RuntimeError")
	if p.rterr == nil {
		return nil, fmt.Errorf("sym.RuntimeError not found")
	}
	p.structFieldT = typ("reflect", "StructField")
	p.mapIterT = typ("reflect", "MapIter")
	p.poolT = typ("sync", "Pool")
	if t := typ("reflect", "rtype"); t != nil {
		p.rtypeT = types.NewPointer(t)
	} else if t := typ("internal/reflectlite", "rtype"); t != nil {
		p.rtypeT = types.NewPointer(t)
	}
	for _, c := range [][4]string{
		{"os", "ErrNotExist", "io/fs", "ErrNotExist"}, {"os", "ErrExist", "io/fs", "ErrExist"}, {"os", "ErrClosed", "io/fs", "ErrClosed"},
		{"os", "ErrInvalid", "io/fs", "ErrInvalid"}, {"os", "ErrPermission", "io/fs", "ErrPermission"},
		{"os", "Stdin", "verifharness/model", "OsStdin"}, {"os", "Stdout", "verifharness/model", "OsStdout"}, {"os", "Stderr", "verifharness/model", "OsStderr"},
		{"net", "ErrClosed", "verifharness/model", "NetErrClosed"},
		{"net", "v4InV6Prefix", "verifharness/model", "NetV4InV6Prefix"},
		{"net/http", "ErrAbortHandler", "verifharness/model", "HTTPErrAbortHandler"},
	} {
		a, b := p.pkgs[c[0]], p.pkgs[c[2]]
		if a == nil || b == nil || a.Var(c[1]) == nil || b.Var(c[3]) == nil {
			continue
		}
		p.globalCopies = append(p.globalCopies, [2]*ssa.Global{a.Var(c[1]), b.Var(c[3])})
		p.copied.Store(a.Var(c[1]), true)
	}
	return p, nil
}

var buildMu sync.Mutex

// built makes sure the body of fn exists.
func (p *Program) built(fn *ssa.Function) {
	if fn.Blocks != nil {
		return
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		f.Pkg.Build()
	}
}

var _ = fmt.Sprint
