package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code under verification, loaded from /repo's working tree.
type Program struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	funcs map[string]*ssa.Function
	all   map[*ssa.Function]bool
	dir   string
	// constant contents of package-level maps and variables never written outside init
	globals map[*ssa.Global]*globalInfo
}

func Load(dir string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages", len(ps))
	}
	if len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not compile: %v", ps[0].Errors[0])
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkg: pk[0], funcs: map[string]*ssa.Function{}, dir: dir, globals: map[*ssa.Global]*globalInfo{}}
	for _, m := range p.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			p.funcs[m.Name()] = m
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f == nil || f.Synthetic != "" {
						continue
					}
					p.funcs[m.Name()+"."+f.Name()] = f
				}
			}
		}
	}
	p.scanGlobals()
	return p, nil
}

// allFuncs are the functions of the package, closures included.
func (p *Program) allFuncs() map[*ssa.Function]bool {
	if p.all == nil {
		m := map[*ssa.Function]bool{}
		for f := range ssautil.AllFunctions(p.prog) {
			if f.Pkg == p.pkg {
				m[f] = true
			}
		}
		p.all = m
	}
	return p.all
}

type globalInfo struct {
	mutable bool
	mapKeys []ssa.Value // keys inserted by init for a map global
	isMap   bool
}

// scanGlobals finds package-level variables whose contents are fixed by the
// package initialiser: written only there, and maps filled only there.
func (p *Program) scanGlobals() {
	fns := ssautil.AllFunctions(p.prog)
	for _, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p.globals[g] = &globalInfo{}
		}
	}
	for f := range fns {
		if f.Pkg != p.pkg {
			continue
		}
		isInit := f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && p.globals[g] != nil {
						if !isInit {
							p.globals[g].mutable = true
						} else if mm, ok := in.Val.(*ssa.MakeMap); ok {
							gi := p.globals[g]
							gi.isMap = true
							for _, r := range *mm.Referrers() {
								switch r := r.(type) {
								case *ssa.MapUpdate:
									gi.mapKeys = append(gi.mapKeys, r.Key)
								case *ssa.Store, *ssa.DebugRef:
								default:
									gi.mutable = true
								}
							}
						}
					}
				case *ssa.UnOp:
					if g, ok := in.X.(*ssa.Global); ok && p.globals[g] != nil && in.Referrers() != nil {
						for _, r := range *in.Referrers() {
							switch r := r.(type) {
							case *ssa.MapUpdate:
								p.globals[g].mutable = true
							case *ssa.Call:
								if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
									p.globals[g].mutable = true
								}
							}
						}
					}
				}
			}
		}
	}
}

var nonIdent = regexp.MustCompile(`[^A-Za-z0-9_]+`)

func san(s string) string { return strings.Trim(nonIdent.ReplaceAllString(s, "_"), "_") }

var (
	structMu    sync.Mutex
	structSort  = map[*types.Struct]Sort{}
	structNames = map[string]*types.Struct{}
)

type unsupported struct{ what string }

func (u unsupported) Error() string { return u.what }

func fail(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func typeName(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		}
		fail("type %s", t)
	case *types.Slice:
		return SSlice
	case *types.Map, *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return SInt
	case *types.Struct:
		if u.NumFields() == 0 {
			return SUnit
		}
		return structSortOf(t, u)
	}
	fail("type %s", t)
	return ""
}

func structSortOf(t types.Type, u *types.Struct) Sort {
	structMu.Lock()
	if s, ok := structSort[u]; ok {
		structMu.Unlock()
		return s
	}
	structMu.Unlock()
	name := "S_" + san(typeName(t))
	if _, ok := t.(*types.Named); !ok {
		name = "S_anon_" + san(typeName(t))
	}
	var fs []dtField
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, dtField{"", sortOf(u.Field(i).Type())})
	}
	structMu.Lock()
	defer structMu.Unlock()
	if s, ok := structSort[u]; ok {
		return s
	}
	base := name
	for k := 2; ; k++ {
		if o, ok := structNames[name]; !ok || types.Identical(o, u) {
			break
		}
		name = fmt.Sprintf("%s_%d", base, k)
	}
	s := Sort(name)
	for i := range fs {
		fs[i].name = fmt.Sprintf("%s_%s", name, san(u.Field(i).Name()))
	}
	structNames[name] = u
	structSort[u] = s
	declDatatype(&dtInfo{s, "mk_" + name, fs})
	return s
}

const maxInt = int64(^uint64(0) >> 1)
const maxLen = int64(1) << 60

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		if s == SUnit {
			return app("unit", SUnit)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Mk(s, as...)
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SSlice:
		return Mk(SSlice, Zero, Zero, Zero)
	case SUnit:
		return app("unit", SUnit)
	}
	panic("zero of sort " + s)
}

var (
	litMu   sync.Mutex
	litText = map[string]*Term{}
	litList []string
)

// StrLit is the constant for a string literal.
func StrLit(s string) *Term {
	litMu.Lock()
	defer litMu.Unlock()
	if t, ok := litText[s]; ok {
		return t
	}
	var name string
	if s == "" {
		name = "strlit!empty"
	} else {
		name = fmt.Sprintf("strlit!%x", s)
	}
	t := Sym(name, SStr)
	litText[s] = t
	litList = append(litList, s)
	return t
}
