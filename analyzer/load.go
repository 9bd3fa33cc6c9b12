package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded and type-checked program.
type Prog struct {
	ranges *retRanges
	dir    string
	pkgs   []*packages.Package
	byRel  map[string]*packages.Package // path relative to the module
	prog   *ssa.Program
	ssa    map[string]*ssa.Package
	fns    map[string]*ssa.Function // by short name
	all    []*ssa.Function          // every source function of the module, sorted by name

	sentinels map[*ssa.Global]bool // error variables that are set once
	constGlob map[*ssa.Global]bool // variables that are never assigned after init

	mut  map[*ssa.Function]uint64
	pure map[*ssa.Function]int
	base *baseline
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly",
			"GO111MODULE=on", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs[:min(3, len(errs))], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{dir: dir, pkgs: pkgs, byRel: map[string]*packages.Package{}, prog: prog, ssa: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{},
		sentinels: map[*ssa.Global]bool{}, constGlob: map[*ssa.Global]bool{}, mut: map[*ssa.Function]uint64{}, pure: map[*ssa.Function]int{}}
	for _, q := range pkgs {
		if q.Types == nil {
			continue
		}
		sp := prog.Package(q.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		rel := shortPkg(q.PkgPath)
		p.byRel[rel] = q
		p.ssa[rel] = sp
	}
	for _, name := range []string{"slices", "sort", "maps", "cmp", "iter"} {
		for _, sp := range prog.AllPackages() {
			if sp.Pkg.Path() == name {
				sp.Build()
			}
		}
	}
	if len(p.ssa) < 10 {
		return nil, fmt.Errorf("only %d packages were loaded from %s", len(p.ssa), dir)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !p.inRepo(fn) || fn.Blocks == nil {
			continue
		}
		p.all = append(p.all, fn)
		if fn.Synthetic == "" || len(fn.TypeArgs()) > 0 {
			p.fns[fnName(fn)] = fn
			funcByName[fnName(fn)] = fn
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return fnName(p.all[i]) < fnName(p.all[j]) })
	p.findMutable()
	p.globals()
	p.readBaseline()
	p.findContracts()
	return p, nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	q := pkgOf(fn)
	return q != nil && (q.Path() == modPath || strings.HasPrefix(q.Path(), modPath+"/"))
}

func pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return pkgOf(fn.Origin())
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	return nil
}

// fnName is the package-qualified name, such as "tree/log.(*Tree).Append" or "tree/log.Root".
func fnName(fn *ssa.Function) string {
	s := fn.String()
	if !strings.Contains(s, modPath) {
		return s
	}
	s = strings.ReplaceAll(s, modPath+"/tree/log/math", "logmath")
	for {
		i := strings.Index(s, modPath+"/")
		if i < 0 {
			return s
		}
		j := i + len(modPath) + 1
		// drop everything up to the last slash of this path
		k := j
		for k < len(s) && (s[k] == '/' || s[k] == '-' || s[k] == '_' || s[k] >= 'a' && s[k] <= 'z' || s[k] >= 'A' && s[k] <= 'Z' || s[k] >= '0' && s[k] <= '9') {
			if s[k] == '/' {
				j = k + 1
			}
			k++
		}
		s = s[:i] + s[j:]
	}
}

// globals finds the package-level variables that only their initialiser assigns.
func (p *Prog) globals() {
	stored := map[*ssa.Global]bool{}
	for _, fn := range p.all {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := i.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if st, ok := i.(*ssa.Store); ok && st.Addr == g && isInit {
						continue
					}
					stored[g] = true
				}
			}
		}
	}
	for _, sp := range p.ssa {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || stored[g] {
				continue
			}
			p.constGlob[g] = true
			if types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
				p.sentinels[g] = true
			}
		}
	}
	// error variables of other packages are sentinels too
	for _, sp := range p.prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				if types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
					p.sentinels[g] = true
				}
			}
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Memory that a function may write: its i-th parameter's (bit i) or something else (bit 62).
const mutOther = uint64(1) << 62

func (p *Prog) mutates(fn *ssa.Function) uint64 {
	if v, ok := p.mut[fn]; ok {
		return v
	}
	p.mut[fn] = 0
	for {
		r := p.mutates1(fn)
		if r == p.mut[fn] {
			return r
		}
		p.mut[fn] |= r
	}
}

// rootsOf finds which memory a pointer-like value refers to.
func rootsOf(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) uint64 {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		// a local variable; what it holds is found where it is loaded
		return 0
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function:
		return 0
	case *ssa.Parameter:
		for i, q := range fn.Params {
			if q == x {
				return 1 << uint(min(i, 60))
			}
		}
		return mutOther
	case *ssa.FieldAddr:
		return rootsOf(x.X, fn, seen)
	case *ssa.Field:
		return rootsOf(x.X, fn, seen)
	case *ssa.IndexAddr:
		return rootsOf(x.X, fn, seen)
	case *ssa.Index:
		return rootsOf(x.X, fn, seen)
	case *ssa.Lookup:
		return rootsOf(x.X, fn, seen)
	case *ssa.Slice:
		return rootsOf(x.X, fn, seen)
	case *ssa.ChangeType:
		return rootsOf(x.X, fn, seen)
	case *ssa.MakeInterface:
		return rootsOf(x.X, fn, seen)
	case *ssa.TypeAssert:
		return rootsOf(x.X, fn, seen)
	case *ssa.Extract:
		return rootsOf(x.Tuple, fn, seen)
	case *ssa.Next:
		return rootsOf(x.Iter, fn, seen)
	case *ssa.Range:
		return rootsOf(x.X, fn, seen)
	case *ssa.Phi:
		r := uint64(0)
		for _, e := range x.Edges {
			r |= rootsOf(e, fn, seen)
		}
		return r
	case *ssa.UnOp:
		if x.Op.String() != "*" {
			return 0
		}
		a := x.X
		for {
			if f, ok := a.(*ssa.FieldAddr); ok {
				a = f.X
				continue
			}
			if f, ok := a.(*ssa.IndexAddr); ok {
				a = f.X
				continue
			}
			break
		}
		if al, ok := a.(*ssa.Alloc); ok {
			// everything that is stored into the variable
			r := uint64(0)
			var visit func(v ssa.Value)
			visit = func(v ssa.Value) {
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr == v {
							r |= rootsOf(u.Val, fn, seen)
						}
					case *ssa.FieldAddr:
						visit(u)
					case *ssa.IndexAddr:
						visit(u)
					}
				}
			}
			visit(al)
			return r
		}
		return rootsOf(x.X, fn, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return rootsOf(x.Call.Args[0], fn, seen)
			}
			return 0
		}
		r := uint64(0)
		if callee := x.Call.StaticCallee(); callee != nil && len(callee.Blocks) > 0 && callee.Pkg != nil && callee.Parent() == nil {
			m := resultRoots(callee)
			for i, a := range x.Call.Args {
				if m&(1<<uint(min(i, 60))) != 0 {
					r |= rootsOf(a, fn, seen)
				}
			}
			return r | m&mutOther
		}
		// a result may refer to the memory of any argument
		for _, a := range x.Call.Args {
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				r |= rootsOf(a, fn, seen)
			}
		}
		return r
	case *ssa.FreeVar, *ssa.Global:
		return mutOther
	}
	return 0
}

// storedRoots is the union of rootsOf for what is stored through v.
func storedRoots(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) uint64 {
	r := uint64(0)
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
	default:
		return 0
	}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == v {
					s := map[ssa.Value]bool{}
					r |= rootsOf(u.Val, fn, s)
					for w := range s {
						if !seen[w] {
							seen[w] = true
							r |= storedRoots(w, fn, seen)
						}
					}
				}
			case *ssa.MapUpdate:
				r |= rootsOf(u.Value, fn, map[ssa.Value]bool{}) | rootsOf(u.Key, fn, map[ssa.Value]bool{})
			case *ssa.FieldAddr:
				visit(u)
			case *ssa.IndexAddr:
				visit(u)
			case *ssa.Slice:
				visit(u)
			}
		}
	}
	visit(v)
	return r
}

var resultRootsMemo = map[*ssa.Function]uint64{}

// resultRoots tells the memory of which parameters the results of fn may refer to.
func resultRoots(fn *ssa.Function) uint64 {
	if r, ok := resultRootsMemo[fn]; ok {
		return r
	}
	resultRootsMemo[fn] = 1<<62 - 1 // for recursive calls
	r := uint64(0)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				for _, v := range ret.Results {
					switch v.Type().Underlying().(type) {
					case *types.Basic:
						continue
					}
					seen := map[ssa.Value]bool{}
					r |= rootsOf(v, fn, seen)
					// what was stored into what the function made
					for w := range seen {
						r |= storedRoots(w, fn, seen)
					}
				}
			}
		}
	}
	resultRootsMemo[fn] = r
	return r
}

func (p *Prog) mutates1(fn *ssa.Function) uint64 {
	if fn.Blocks == nil || !p.inRepo(fn) {
		s := fn.String()
		if purelib(s) {
			return 0
		}
		switch {
		case strings.HasPrefix(s, "(*bytes.Buffer)"), strings.HasPrefix(s, "slices.Sort"), strings.HasPrefix(s, "slices.Reverse"), strings.HasPrefix(s, "sort."),
			strings.HasPrefix(s, "encoding/binary.Write"):
			return 1
		case strings.HasPrefix(s, "encoding/binary.Read"):
			return 1 | 4
		case strings.HasPrefix(s, "io.ReadFull"), strings.HasPrefix(s, "(encoding/binary.bigEndian).Put"):
			return 1 | 2
		}
		return 1<<20 - 1
	}
	r := uint64(0)
	add := func(v ssa.Value) { r |= rootsOf(v, fn, map[ssa.Value]bool{}) }
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				add(i.Addr)
			case *ssa.MapUpdate:
				add(i.Map)
			case ssa.CallInstruction:
				c := i.Common()
				if c.IsInvoke() {
					for _, a := range c.Args {
						if a.Type().String() == "*bytes.Buffer" {
							add(a)
						}
					}
					continue
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n == "copy" || n == "delete" || n == "clear" {
						add(c.Args[0])
					}
					continue
				}
				callee := c.StaticCallee()
				if callee == nil {
					continue
				}
				m := p.mutates(callee)
				for k, a := range c.Args {
					if m&(1<<uint(min(k, 60))) != 0 {
						add(a)
					}
				}
				if mc, ok := c.Value.(*ssa.MakeClosure); ok && m&mutOther != 0 {
					for _, a := range mc.Bindings {
						add(a)
					}
				} else if m&mutOther != 0 {
					r |= mutOther
				}
			}
		}
	}
	return r
}

// isPure reports whether fn has no effects at all and its result depends on its arguments only.
func (p *Prog) isPure(fn *ssa.Function) bool {
	if v, ok := p.pure[fn]; ok {
		return v == 1
	}
	p.pure[fn] = 1
	r := 0
	if p.isPure1(fn) {
		r = 1
	}
	p.pure[fn] = r
	return r == 1
}

func (p *Prog) isPure1(fn *ssa.Function) bool {
	if fn.Blocks == nil || !p.inRepo(fn) {
		return purelib(fn.String())
	}
	if fnName(fn) == "structs.Marshal" {
		return true
	}
	if p.mutates(fn) != 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				return false
			case *ssa.UnOp:
				if i.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				if i.Call.IsInvoke() {
					if !pureInvoke(i.Call.Value.Type(), i.Call.Method.Name()) {
						return false
					}
					continue
				}
				if _, ok := i.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				callee := i.Call.StaticCallee()
				if callee == nil {
					return false
				}
				if !p.isPure(callee) && !localOnly(callee, i) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value, seen map[ssa.Value]bool) bool {
	return rootsOf(v, v.Parent(), seen) == 0
}

// localOnly: an effect on memory that the caller allocated itself (such as a local buffer).
func localOnly(callee *ssa.Function, c *ssa.Call) bool {
	s := callee.String()
	if strings.HasPrefix(s, "(*bytes.Buffer)") || strings.HasPrefix(s, "encoding/binary") || strings.HasPrefix(s, "(encoding/binary") {
		for _, a := range c.Call.Args {
			switch a.Type().Underlying().(type) {
			case *types.Pointer:
				if !localAddr(a, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
		return true
	}
	return false
}
