package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obl is one instance of a rule: the rule applied to one construct of the current source.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Report collects what one property's rules found.
type Report struct {
	P       *Program
	Prop    string
	Obls    []Obl
	seen    map[string]bool
	Counts  map[string]int
	Floors  map[string]int
	Notes   []string
	Assume  []string
	RuleDoc map[string]string
}

func newReport(p *Program, prop string) *Report {
	return &Report{P: p, Prop: prop, seen: map[string]bool{}, Counts: map[string]int{}, Floors: map[string]int{}, RuleDoc: map[string]string{}}
}

func (r *Report) rule(name, doc string) { r.RuleDoc[name] = doc }

func (r *Report) assume(s string) { r.Assume = append(r.Assume, s) }

func (r *Report) ok(rule, construct string, pos token.Pos, detail string) {
	k := fmt.Sprint(rule, "|", construct, "|", r.P.pos(pos), "|ok")
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obls = append(r.Obls, Obl{rule, construct, r.P.pos(pos), true, detail})
}

func (r *Report) bad(rule, construct string, pos token.Pos, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	k := fmt.Sprint(rule, "|", construct, "|", r.P.pos(pos), "|", msg)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obls = append(r.Obls, Obl{rule, construct, r.P.pos(pos), false, msg})
}

// check records an obligation either way.
func (r *Report) check(cond bool, rule, construct string, pos token.Pos, format string, a ...any) bool {
	if cond {
		r.ok(rule, construct, pos, "")
	} else {
		r.bad(rule, construct, pos, format, a...)
	}
	return cond
}

// floor demands at least n instances of a rule: a rule that matches nothing decides nothing.
func (r *Report) floor(rule string, n int) { r.Floors[rule] = n }

func (r *Report) count(rule string) int {
	n := 0
	for _, o := range r.Obls {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

func (r *Report) finish() {
	for rule, n := range r.Floors {
		if got := r.count(rule); got < n {
			r.Obls = append(r.Obls, Obl{"instances", rule, "", false,
				fmt.Sprintf("rule %s matched %d constructs, fewer than the %d confirmed by reading: the code it is about is gone or no longer recognisable", rule, got, n)})
		}
	}
}

type known struct{ prop, key, text string }

func readKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var res []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C01 key=rule|construct :: text
		l = strings.TrimPrefix(l, "known: ")
		text := ""
		if i := strings.Index(l, " :: "); i >= 0 {
			l, text = l[:i], l[i+4:]
		}
		k := known{text: text}
		if i := strings.Index(l, " key="); i >= 0 {
			k.prop = strings.TrimPrefix(l[:i], "property=")
			k.key = l[i+5:]
			res = append(res, k)
		}
	}
	return res, sc.Err()
}

// emit writes the evidence and report files and prints the verdict. It returns the exit code.
func (r *Report) emit(verif, tier string, seed int, start time.Time) int {
	r.finish()
	ks, err := readKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		fmt.Println("cannot read known findings:", err)
		return 2
	}
	var viol []Obl
	knownHit := map[string]known{}
	discharged := 0
	rules := map[string]map[string]int{}
	for _, o := range r.Obls {
		if rules[o.Rule] == nil {
			rules[o.Rule] = map[string]int{}
		}
		rules[o.Rule]["instances"]++
		if o.OK {
			discharged++
			continue
		}
		key := o.Rule + "|" + o.Construct
		hit := false
		for _, k := range ks {
			if k.prop == r.Prop && k.key == key {
				knownHit[key] = k
				hit = true
			}
		}
		if !hit {
			rules[o.Rule]["violations"]++
			viol = append(viol, o)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Rule < viol[j].Rule })
	var samples []Obl
	per := map[string]int{}
	for _, o := range r.Obls {
		if per[o.Rule] < 6 {
			per[o.Rule]++
			samples = append(samples, o)
		}
	}
	docs := []string{}
	for k, v := range r.RuleDoc {
		docs = append(docs, k+": "+v)
	}
	sort.Strings(docs)
	own, nfiles := 0, 0
	for _, p := range r.P.Order {
		if p.Own {
			own++
			nfiles += len(p.Files)
		}
	}
	cov := map[string]any{
		"explanation":        "Static analysis of the current source of /repo (type-checked with the build's Go 1.18 settings, SSA form, resolved calls). Rules: " + strings.Join(docs, " || "),
		"packages_analysed":  own,
		"files_analysed":     nfiles,
		"functions_analysed": len(r.P.Funcs),
		"obligations":        len(r.Obls),
		"discharged":         discharged,
		"rules":              rules,
		"counts":             r.Counts,
		"samples":            samples,
		"exhaustive":         false,
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	bz, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(bz, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	var keys []string
	for k := range knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, knownHit[k].text, k)
	}
	fmt.Printf("property %s: %d rules, %d obligations on %d functions, %d discharged, %d violations\n", r.Prop, len(rules), len(r.Obls), len(r.P.Funcs), discharged, len(viol))
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".report.txt")
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n    rule: %s\n", o.Pos, o.Rule, o.Construct, o.Detail, r.RuleDoc[o.Rule])
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range viol {
		if i == 10 {
			fmt.Printf("... and %d more, see %s\n", len(viol)-i, rp)
			break
		}
		d := o.Detail
		if len(d) > 700 {
			d = d[:700] + "..."
		}
		fmt.Printf("%s: [%s] %s: %s\n    rule: %s\n", o.Pos, o.Rule, o.Construct, d, r.RuleDoc[o.Rule])
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
