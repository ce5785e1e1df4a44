// vchk decides the properties of /verif/properties.jsonl by static analysis of the dheart sources.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rule set of one property.
type Check struct {
	Run     func(*Report)
	WithTss bool
}

var checks = map[string]Check{}

func register(id string, withTss bool, run func(*Report)) {
	checks[id] = Check{run, withTss}
}

func main() {
	prop := flag.String("prop", "", "property id, comma list or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "tier")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	tss := false
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
		tss = tss || c.WithTss
	}
	start := time.Now()
	p, err := Load(*repo, tss)
	if err != nil {
		fmt.Println("cannot analyse the repository:", err)
		os.Exit(2)
	}
	code := 0
	for _, id := range ids {
		st := time.Now()
		if len(ids) == 1 {
			st = start
		}
		c := runOne(p, id, *verif, *tier, seed, st, *verbose)
		if c > code {
			code = c
		}
	}
	os.Exit(code)
}

func runOne(p *Program, id, verif, tier string, seed int, start time.Time, verbose bool) (code int) {
	r := newReport(p, id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				// An analysis that does not finish has not shown that the property holds.
				r.Obls = append(r.Obls, Obl{"undecided", fmt.Sprint(e), "", false, "the analysis could not decide this property on the current source"})
				if os.Getenv("VCHK_TRACE") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		checks[id].Run(r)
	}()
	if verbose {
		for _, o := range r.Obls {
			fmt.Printf("  %v %s [%s] %s %s\n", o.OK, o.Pos, o.Rule, o.Construct, o.Detail)
		}
	}
	return r.emit(verif, tier, seed, start)
}
