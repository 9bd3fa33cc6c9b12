package main

import (
	"fmt"
	"os"
	"strings"
)

// TRY, for writing rules: KTRY="function@@opaque,names@@ok|err|call:name@@formula@@..." tells which formulas hold.
func init() {
	if os.Getenv("KTRY") == "" {
		return
	}
	register("TRY", ``, func(k *Checker) {
		a := strings.Split(os.Getenv("KTRY"), "@@")
		var opts []opt
		for _, n := range strings.Split(a[1], ",") {
			switch n {
			case "":
			case "provider":
				opts = append(opts, provider())
			case "apart":
				opts = append(opts, apart())
			default:
				opts = append(opts, opaque(n))
			}
		}
		r := k.root(a[0], opts...)
		pts := r.oks()
		switch {
		case a[2] == "err":
			pts = r.errs()
		case a[2] == "all":
			pts = r.all()
		case strings.HasPrefix(a[2], "call:"):
			pts = r.at("call", a[2][5:])
		case strings.HasPrefix(a[2], "store:"):
			pts = r.at("store", a[2][6:])
		}
		if os.Getenv("KSHOW") != "" {
			for _, p := range pts {
				fmt.Println("@", k.pos(p.pos))
				for _, n := range sortedNames(p.env) {
					fmt.Printf("   %s = %s\n", n, p.env[n])
				}
				dumpFacts(p.facts, "     ")
			}
		}
		for _, f := range a[3:] {
			for _, p := range pts {
				m := &matcher{k: k, pt: p, f: p.facts}
				b := bind{}
				fmt.Println(m.holds(parsePat(f), b, func(c bind) bool { b = c; return true }), k.pos(p.pos), f)
				for n, t := range b {
					fmt.Printf("      %s = %.200s\n", n, t)
					if os.Getenv("KRAW") != "" {
						fmt.Printf("        raw %.300s\n", rawTerm(t, 5))
					}
				}
			}
		}
	})
}

// rawTerm prints the structure of a term, where its usual form leaves something out.
func rawTerm(t *Term, d int) string {
	if t == nil {
		return "-"
	}
	if d == 0 || len(t.args) == 0 {
		return t.op + "{" + t.aux + "}"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, rawTerm(a, d-1))
	}
	return t.op + "{" + t.aux + "}(" + strings.Join(s, ", ") + ")"
}
