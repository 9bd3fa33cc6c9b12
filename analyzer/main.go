package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A spec decides one property. The text describes the rule for the evidence.
type spec struct {
	id   string
	text string
	run  func(k *Checker)
}

var specs = map[string]*spec{}

func register(id, text string, run func(k *Checker)) {
	if s := specs[id]; s != nil {
		old := s.run
		s.run = func(k *Checker) { old(k); run(k) }
		s.text += " " + text
		return
	}
	specs[id] = &spec{id, text, run}
}

var overlay map[string][]byte

func main() {
	dir := flag.String("repo", "/repo", "repository")
	dump := flag.String("dump", "", "dump a function")
	capN := flag.Int("cap", 48, "")
	opq := flag.String("opaque", "", "")
	prop := flag.String("property", "", "property to decide, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	home := flag.String("verif", "/verif", "where the findings file and the evidence are")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	over := flag.String("overlay", "", "overlay.json as for go build, to look at variants of the source")
	flag.Parse()
	if *over != "" {
		var d struct{ Replace map[string]string }
		raw, err := os.ReadFile(*over)
		if err == nil {
			err = json.Unmarshal(raw, &d)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		overlay = map[string][]byte{}
		for k, v := range d.Replace {
			overlay[k], _ = os.ReadFile(v)
		}
	}
	if *prop != "" {
		var ids []string
		if *prop == "all" {
			for id := range specs {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		} else {
			ids = strings.Split(*prop, ",")
		}
		os.Exit(decide(*dir, *home, ids, *tier, !*noEv))
	}
	p, err := load(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *dump == "baseline" {
		p.dumpBaseline()
		return
	}
	if *dump == "all" {
		batch(p, *capN)
		return
	}
	if *dump != "" {
		dumpFn(p, *dump, *capN, *opq)
	}
}

func decide(dir, home string, ids []string, tier string, ev bool) int {
	start := time.Now()
	p, err := loadSafe(dir)
	loadT := time.Since(start)
	code := 0
	for _, id := range ids {
		s := specs[id]
		if s == nil {
			fmt.Printf("VIOLATION property=%s replay=none\n  there is no rule for this property\n", id)
			code = 1
			continue
		}
		t0 := time.Now()
		k := newChecker(p, id, tier)
		if err != nil {
			k.violate("load", dir, "the source can not be analysed: %v", err)
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						k.undecided("analysis", id, fmt.Sprintf("the analysis failed: %v", e))
						fmt.Fprintf(os.Stderr, "analysis failed: %v\n%s", e, rdebug.Stack())
					}
				}()
				s.run(k)
			}()
		}
		wall := time.Since(t0) + loadT
		if report(k, s, home, tier, wall, ev) {
			code = 1
		}
	}
	return code
}

func loadSafe(dir string) (p *Prog, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return load(dir)
}

type finding struct {
	prop, rule, where string
	text              string
}

// knownFindings reads "known: property=<id> rule=<rule> at=<function> <text>" lines.
func knownFindings(home string) []finding {
	raw, err := os.ReadFile(filepath.Join(home, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(raw), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f finding
		rest := l[len("known: "):]
		for _, key := range []string{"property=", "rule=", "at="} {
			if !strings.HasPrefix(rest, key) {
				break
			}
			w := rest[len(key):]
			i := strings.IndexByte(w, ' ')
			if i < 0 {
				i = len(w)
			}
			switch key {
			case "property=":
				f.prop = w[:i]
			case "rule=":
				f.rule = w[:i]
			case "at=":
				f.where = w[:i]
			}
			rest = strings.TrimSpace(w[i:])
		}
		f.text = rest
		if f.prop != "" && f.rule != "" && f.where != "" {
			out = append(out, f)
		}
	}
	return out
}

func report(k *Checker, s *spec, home, tier string, wall time.Duration, ev bool) bool {
	known := knownFindings(home)
	var bad []Violation
	hits := map[int]bool{}
	for _, v := range k.vios {
		m := false
		for i, f := range known {
			if f.prop == s.id && f.rule == v.Rule && (f.where == v.Construct || strings.Contains(v.What, " reached from "+f.where+":")) {
				hits[i], m = true, true
			}
		}
		if !m {
			bad = append(bad, v)
		}
	}
	for i, f := range known {
		if hits[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.id, f.text)
		}
	}
	evDir := filepath.Join(home, "evidence")
	if ev {
		os.MkdirAll(evDir, 0o755)
		writeEvidence(k, s, home, evDir, tier, wall, len(bad), len(hits))
	}
	for _, u := range k.undec {
		fmt.Printf("UNDECIDED property=%s %s\n", s.id, u)
	}
	replay := filepath.Join(evDir, s.id+".violations.txt")
	if len(bad) == 0 {
		if ev {
			os.Remove(replay)
		}
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d (%.1fs)\n", s.id, k.obls, len(k.funcs), k.paths, wall.Seconds())
		return false
	}
	var b strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&b, "%s: [%s] %s\n", v.Where, v.Rule, v.What)
	}
	if ev {
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", s.id, replay)
	fmt.Print(b.String())
	return true
}

// explain gives the statement the rules decide.
func explain(s *spec, home string) string {
	if s.text != "" {
		return s.text
	}
	raw, _ := os.ReadFile(filepath.Join(home, "properties.jsonl"))
	for _, l := range strings.Split(string(raw), "\n") {
		var d struct{ ID, Statement string }
		if json.Unmarshal([]byte(l), &d) == nil && d.ID == s.id {
			return d.Statement
		}
	}
	return ""
}

func writeEvidence(k *Checker, s *spec, home, dir, tier string, wall time.Duration, bad, known int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range k.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rules := map[string]int{}
	for _, r := range k.rules {
		rules[r]++
	}
	cov := map[string]any{
		"explanation":        explain(s, home),
		"undecided":          k.undec,
		"rules":              rules,
		"obligations":        k.obls,
		"established":        k.proved,
		"functions_analysed": fns,
		"paths_to_exits":     k.paths,
		"call_sites_visited": k.sites,
		"transfer_steps":     k.steps,
		"events_examined":    k.events,
		"known_findings":     known,
	}
	out := map[string]any{
		"property":    s.id,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{"the Go compiler, the standard library and the cryptographic primitives behave as documented", "functions analysed behind an interface behave as their contract in the rule says"}, k.assumes...),
		"wall_s":      wall.Seconds(),
		"violations":  bad,
	}
	raw, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(dir, s.id+".json"), append(raw, '\n'), 0o644)
}
