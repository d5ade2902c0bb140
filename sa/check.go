package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Item is an obligation of a pass
type Item struct {
	Pos    string   `json:"pos"`
	Fn     string   `json:"function"`
	Kind   string   `json:"kind"`
	What   string   `json:"what,omitempty"`
	OK     int      `json:"ok"`
	Bad    int      `json:"bad,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Path   []string `json:"path,omitempty"`
}

// Result is what a pass found
type Result struct {
	Pass      string         `json:"pass"`
	Err       string         `json:"err,omitempty"`
	Items     []Item         `json:"items"`
	Functions []string       `json:"functions"`
	Notes     map[string]int `json:"notes,omitempty"`
	Steps     int            `json:"steps"`
	Wall      float64        `json:"wall_s"`
}

// Pass is an analysis that runs in its own process
type Pass struct {
	name string
	run  func(w *World, r *Result) error
}

// Prop is a property: passes and the obligations of theirs that decide it
type Prop struct {
	id     string
	level  string
	rule   string
	passes []string
	// kinds of the obligations that matter, nil for all
	want func(it *Item) bool
	// obligations that must have been met
	floor   int
	assume  []string
	trusted []string
}

var passes = map[string]*Pass{}
var debugMons = map[string]func() *Mon{}
var props = map[string]*Prop{}

func addPass(name string, run func(w *World, r *Result) error) {
	if passes[name] != nil {
		panic("two passes " + name)
	}
	passes[name] = &Pass{name, run}
}

func addProp(p *Prop) { props[p.id] = p }

// collect adds the obligations of an analysis to a result
func (r *Result) collect(x *X) {
	for _, k := range x.rec.sorted() {
		o := x.rec.m[k]
		it := Item{Pos: o.pos, Kind: k.kind, What: k.what, OK: o.ok, Bad: o.bad, Detail: o.detail, Path: o.path}
		if k.site != nil && k.site.Parent() != nil {
			it.Fn = k.site.Parent().String()
		}
		r.Items = append(r.Items, it)
	}
	seen := map[string]bool{}
	for _, f := range r.Functions {
		seen[f] = true
	}
	for f := range x.fns {
		if n := f.String(); !seen[n] && !strings.HasPrefix(n, "driver.") {
			r.Functions = append(r.Functions, n)
		}
	}
	sort.Strings(r.Functions)
	if r.Notes == nil {
		r.Notes = map[string]int{}
	}
	for n, c := range x.rec.notes {
		r.Notes[n] += c
	}
	r.Steps += x.steps
}

// driverPass interprets a driver under a monitor
func driverPass(driver string, mon func() *Mon) func(w *World, r *Result) error {
	return driverPassX(driver, mon, nil)
}

var debugThen = map[string]func(x *X){}

// driverPassX: then is run after the driver
func driverPassX(driver string, mon func() *Mon, then func(x *X)) func(w *World, r *Result) error {
	debugThen[driver] = then
	debugMons[driver] = mon
	return func(w *World, r *Result) error {
		var m *Mon
		if mon != nil {
			m = mon()
		}
		x, outs, err := w.runDebug(driver, m, false, then)
		if err != nil {
			return err
		}
		r.collect(x)
		done := 0
		for _, o := range outs {
			if !o.panicked {
				done++
			}
		}
		if done == 0 {
			r.Items = append(r.Items, Item{Pos: driver, Fn: driver, Kind: "vacuous", Bad: 1, Detail: "no way through the driver"})
		}
		r.checkReached(w, driver)
		return nil
	}
}

// checkReached fails for the assertions of a driver that the analysis never met
func (r *Result) checkReached(w *World, driver string) {
	met := map[string]bool{}
	for _, it := range r.Items {
		if it.Kind == "check" {
			met[it.Fn+"|"+it.What] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Package() != w.driver {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || g.Name() != "check" {
					continue
				}
				what := ""
				if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
					what = constant.StringVal(k.Value)
				}
				if !met[f.String()+"|"+what] {
					r.Items = append(r.Items, Item{Pos: w.instrPos(in), Fn: f.String(), Kind: "vacuous", What: what, Bad: 1, Detail: "the assertion is never reached"})
				}
			}
		}
	}
	visit(w.driver.Func(driver))
}

func runPass(name string) *Result {
	r := &Result{Pass: name}
	t0 := time.Now()
	p := passes[name]
	if p == nil {
		r.Err = "no such pass"
		return r
	}
	w, err := load(repoDir(), "linux", true)
	if err == nil {
		err = w.begin()
	}
	if err != nil {
		r.Err = err.Error()
		return r
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if g, ok := e.(giveUp); ok {
					r.Err = g.why
					return
				}
				if os.Getenv("SADEBUG") != "" {
					panic(e)
				}
				r.Err = fmt.Sprint("internal error: ", e)
			}
		}()
		if err := p.run(w, r); err != nil {
			r.Err = err.Error()
		}
	}()
	for _, b := range w.initBad {
		r.Items = append(r.Items, Item{Pos: b, Kind: "init", Bad: 1, Detail: b})
	}
	r.Wall = time.Since(t0).Seconds()
	return r
}

func repoDir() string {
	if d := os.Getenv("SAREPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("SAVERIF"); d != "" {
		return d
	}
	return "/verif"
}

// runPasses runs passes in parallel processes
func runPasses(names []string) []*Result {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	res := make([]*Result, len(names))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command("timeout", "-k", "5", "600", self, "pass", n)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			r := &Result{}
			if err != nil {
				r.Err = "the analysis did not end: " + err.Error()
			} else if e := json.Unmarshal(out, r); e != nil {
				r.Err = "no result: " + e.Error()
			}
			r.Pass = n
			res[i] = r
		}(i, n)
	}
	wg.Wait()
	return res
}

// knownFindings reads the keys of the findings of a property that are recorded, not repaired
func knownFindings(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID key=<key> | text
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		if i := strings.Index(l, " | "); i > 0 {
			r[l[:i]] = l[i+3:]
		}
	}
	return r
}

// key identifies a violation, whatever the lines of the source
func (it *Item) key() string {
	k := it.Fn + ":" + it.Kind
	if it.What != "" {
		k += ":" + it.What
	}
	return k
}

func checkProp(id string) int {
	p := props[id]
	if p == nil {
		fmt.Println("no check for", id)
		return 2
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	results := runPasses(p.passes)
	obligations, discharged, steps := 0, 0, 0
	fns := map[string]bool{}
	notes := map[string]int{}
	kinds := map[string]int{}
	var bad []Item
	seen := map[string]bool{}
	var passInfo []map[string]interface{}
	all := map[string]bool{}
	met := map[string]bool{}
	for _, r := range results {
		for _, it := range r.Items {
			if it.Kind == "check" {
				met[it.Fn+"|"+it.What] = true
			}
		}
	}
	for _, r := range results {
		n := 0
		if r.Err != "" {
			bad = append(bad, Item{Pos: r.Pass, Fn: r.Pass, Kind: "undecided", Bad: 1, Detail: "pass " + r.Pass + ": " + r.Err})
		}
		for _, it := range r.Items {
			it := it
			if it.Kind == "vacuous" && it.What != "" {
				// an assertion of a helper may be the one of other passes
				c := it
				c.Kind = "check"
				if met[it.Fn+"|"+it.What] || p.want != nil && !p.want(&c) {
					continue
				}
			}
			if it.Kind != "init" && it.Kind != "vacuous" && p.want != nil && !p.want(&it) {
				continue
			}
			// the same site met by several passes is one obligation
			k := it.Pos + "|" + it.Kind + "|" + it.What
			if !all[k] {
				all[k] = true
				obligations++
				kinds[it.Kind]++
				if it.Bad == 0 {
					discharged++
				}
			}
			n++
			if it.Bad > 0 && !seen[k] {
				seen[k] = true
				bad = append(bad, it)
			}
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		for k, v := range r.Notes {
			notes[k] += v
		}
		steps += r.Steps
		passInfo = append(passInfo, map[string]interface{}{"pass": r.Pass, "obligations": n, "steps": r.Steps, "wall_s": r.Wall, "err": r.Err})
	}
	if discharged < p.floor && len(bad) == 0 {
		bad = append(bad, Item{Pos: p.id, Fn: p.id, Kind: "vacuous", Bad: 1, Detail: fmt.Sprintf("%d obligations, at least %d expected: the analysis does not see what it should", discharged, p.floor)})
	}
	known := knownFindings(id)
	var fresh, old []Item
	for _, it := range bad {
		if _, ok := known[it.key()]; ok {
			old = append(old, it)
			continue
		}
		fresh = append(fresh, it)
	}
	var names []string
	for f := range fns {
		names = append(names, f)
	}
	sort.Strings(names)
	var samples []string
	for _, r := range results {
		for i, it := range r.Items {
			if (p.want == nil || p.want(&it)) && len(samples) < 12 && i%7 == 0 {
				samples = append(samples, strings.TrimSpace(fmt.Sprintf("%s %s %s [%s]", it.Pos, it.Kind, it.What, r.Pass)))
			}
		}
	}
	cov := map[string]interface{}{
		"obligations":        obligations,
		"discharged":         discharged,
		"obligation_kinds":   kinds,
		"functions_analysed": len(names),
		"functions":          names,
		"passes":             passInfo,
		"transfer_steps":     steps,
		"checker_cmd":        "/verif/check.sh " + id,
		"trusted_base":       append([]string{"go/types, golang.org/x/tools/go/ssa v0.52.0", "the abstract interpreter in /verif/sa and its models of the standard library"}, p.trusted...),
		"explanation":        p.rule,
		"rule":               p.rule,
		"samples":            samples,
		"unmodelled_calls":   notes,
		"known_findings":     len(old),
	}
	level := p.level
	if level == "" {
		level = "proof"
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append([]string{"no data race on the values a caller passes", "amd64, GOOS=linux build of /repo"}, p.assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(fresh),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	for _, it := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, known[it.key()], it.Pos)
	}
	replay := filepath.Join(verifDir(), "evidence", id+".violation.txt")
	if len(fresh) == 0 {
		os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d passes=%d %.1fs\n", id, obligations, discharged, len(names), len(results), time.Since(t0).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, it := range fresh {
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  function: %s\n  kind: %s %s\n  detail: %s\n  call path: %s\n  key: %s\n", it.Pos, p.rule, it.Fn, it.Kind, it.What, it.Detail, strings.Join(it.Path, " -> "), it.key())
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, it := range fresh {
		if i == 20 {
			fmt.Println("...", len(fresh)-i, "more")
			break
		}
		fmt.Printf("%s: %s %s: %s\n", it.Pos, it.Kind, it.What, it.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
