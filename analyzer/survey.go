package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
)

func init() {
	if os.Getenv("KSURVEY") == "" {
		return
	}
	register("SURVEY", ``, func(k *Checker) {
		rx := regexp.MustCompile(os.Getenv("KSURVEY"))
		var ns []string
		for n, fn := range k.p.fns {
			if rx.MatchString(n) && fn.Parent() == nil {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			o, v, u := k.obls, len(k.vios), len(k.undec)
			r := k.root(n, withMem(), capped(256))
			k.crashSafe("safe", r, surveyMine, nil)
			if os.Getenv("KTHEN") != "" {
				k.crashSafe("safe", r.then(1, "resp"), surveyMine, nil)
			}
			fmt.Printf("%-70s obl %d bad %d undec %d\n", n, k.obls-o, len(k.vios)-v, len(k.undec)-u)
		}
	})
}

func surveyMine(root string) bool { return root != "resp" }
