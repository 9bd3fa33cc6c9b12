package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

// The rules name functions and fields of the tree that they were written against. What is listed here
// is only used to notice that a name a rule refers to is not there any more, or that a function has
// other parameters, in which case the rule can not be applied, and that a function is new, in which
// case it is looked into instead of being treated as a call that rules know.

//go:embed baseline.txt
var baselineText string

type baseline struct {
	sigs   map[string]string
	fields map[string]bool
	forms  map[string]form
	lostF  []string // functions that are gone or have other parameters
	lostV  []string // names of fields that no struct has any more
}

func plainSig(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), func(p *types.Package) string { return p.Path() })
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func (p *Prog) fieldNames() map[string]bool {
	out := map[string]bool{}
	var visit func(t types.Type, depth int)
	visit = func(t types.Type, depth int) {
		if depth > 6 {
			return
		}
		switch u := t.(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out[u.Field(i).Name()] = true
				visit(u.Field(i).Type(), depth+1)
			}
		case *types.Slice:
			visit(u.Elem(), depth+1)
		case *types.Pointer:
			visit(u.Elem(), depth+1)
		}
	}
	for _, sp := range p.ssa {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				visit(tn.Type().Underlying(), 0)
			}
		}
	}
	for _, fn := range p.fns {
		for _, l := range fn.Locals {
			visit(l.Type().Underlying(), 0)
		}
	}
	return out
}

func (p *Prog) dumpBaseline() {
	var names []string
	for n, fn := range p.fns {
		if fn.Parent() == nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "f\t%s\t%s\n", n, plainSig(p.fns[n].Signature))
	}
	names = nil
	for n := range p.fieldNames() {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "v\t%s\n", n)
	}
	b.WriteString(p.dumpForms())
	os.Stdout.WriteString(b.String())
}

func (p *Prog) readBaseline() {
	b := &baseline{sigs: map[string]string{}, fields: map[string]bool{}}
	for _, l := range strings.Split(baselineText, "\n") {
		f := strings.Split(l, "\t")
		switch f[0] {
		case "f":
			b.sigs[f[1]] = f[2]
		case "v":
			b.fields[f[1]] = true
		case "l":
			b.addForm(f)
		}
	}
	for n, s := range b.sigs {
		if fn := p.fns[n]; fn == nil || plainSig(fn.Signature) != s {
			b.lostF = append(b.lostF, n)
		}
	}
	sort.Strings(b.lostF)
	if len(b.fields) > 0 {
		cur := p.fieldNames()
		for n := range b.fields {
			if !cur[n] && n != "_" {
				b.lostV = append(b.lostV, n)
			}
		}
		sort.Strings(b.lostV)
	}
	p.base = b
}

// isLost: the function was there when the rules were written and is not there in that form.
func (b *baseline) isLost(n string) bool {
	for _, l := range b.lostF {
		if l == n {
			return true
		}
	}
	return false
}

// isNew: no rule can know of the function.
func (b *baseline) isNew(n string) bool {
	_, ok := b.sigs[n]
	return !ok && len(b.sigs) > 0 || b.isLost(n)
}

// lostIn gives a name in a formula that means nothing any more.
func (b *baseline) lostIn(formula string) string {
	for _, l := range b.lostF {
		if i := strings.Index(formula, l+"("); i >= 0 && (i == 0 || !isWord(formula[i-1])) {
			return l
		}
	}
	for _, l := range b.lostV {
		if ok, _ := regexp.MatchString(`\.`+regexp.QuoteMeta(l)+`\b`, formula); ok {
			return "field " + l
		}
		if ok, _ := regexp.MatchString(`[{ ]`+regexp.QuoteMeta(l)+`:`, formula); ok {
			return "field " + l
		}
	}
	return ""
}

func isWord(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
