package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"
var verifDir = "/verif"

// K is one run of one check: it collects obligations (rule x construct) and their verdicts.
type K struct {
	ID    string
	pr    *Program
	R     *Resolver
	obls  map[string]*Obl
	order []string
	paths int
	funcs map[*ssa.Function]bool
	notes []string

	cmdSites map[ssa.Value]bool // where the commands of the tool are made
}

// Obl is one proof obligation. Key is rule + construct and never contains a line number.
type Obl struct {
	Rule, Construct string
	Pos             string
	Fails           []string
}

func (o *Obl) Key() string { return o.Rule + " @ " + o.Construct }

func (k *K) obl(rule, construct, pos string) *Obl {
	key := rule + " @ " + construct
	o := k.obls[key]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct, Pos: pos}
		k.obls[key] = o
		k.order = append(k.order, key)
	}
	return o
}

// ok records a discharged obligation (a later fail of the same key overrides it).
func (k *K) ok(rule, construct, pos string) { k.obl(rule, construct, pos) }

func (k *K) fail(rule, construct, pos, format string, a ...any) {
	o := k.obl(rule, construct, pos)
	if pos != "" {
		o.Pos = pos
	}
	msg := fmt.Sprintf(format, a...)
	for _, f := range o.Fails {
		if f == msg {
			return
		}
	}
	if len(o.Fails) < 4 {
		o.Fails = append(o.Fails, msg)
	}
}

func (k *K) check(cond bool, rule, construct, pos, format string, a ...any) bool {
	if cond {
		k.ok(rule, construct, pos)
	} else {
		k.fail(rule, construct, pos, format, a...)
	}
	return cond
}

// atLeast fails when a rule matched fewer constructs than were confirmed by hand.
func (k *K) atLeast(rule string, n int) {
	c := 0
	for _, o := range k.obls {
		if o.Rule == rule {
			c++
		}
	}
	if c < n {
		k.fail("instances", rule, "", "rule %q matched %d constructs, at least %d were confirmed by hand: the rule lost its anchor and decides nothing", rule, c, n)
	}
}

// fn finds a function or method of the module by its stable name; a missing anchor fails the check.
func (k *K) fn(name string) *ssa.Function {
	f := k.find(name)
	if f == nil {
		k.fail("anchor", name, "", "function %s not found in the module: the property's anchor is gone, nothing can be decided", name)
		return nil
	}
	k.funcs[f] = true
	return f
}

func (k *K) find(name string) *ssa.Function {
	for _, f := range k.pr.Funcs {
		if f.Parent() == nil && fnName(f) == name {
			return f
		}
	}
	return nil
}

// fnsIn lists every function with a body declared in a package (by short name), closures included.
func (k *K) fnsIn(pkgs ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range k.pr.Funcs {
		p := fnPkg(f)
		if p == nil || f.Synthetic != "" {
			continue
		}
		for _, n := range pkgs {
			if p.Path() == modPath+"/"+n {
				r = append(r, f)
				k.funcs[f] = true
			}
		}
	}
	return r
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// named finds a named type of the module by its short name (pkg.Type).
func (k *K) named(name string) *types.Named {
	for _, p := range k.pr.Order {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && typeShort(nt) == name {
					return nt
				}
			}
		}
	}
	k.fail("anchor", name, "", "type %s not found in the module", name)
	return nil
}

func (k *K) explore(rule *Rule) *Explorer { return newExplorer(k.pr, k.R, rule) }

// done accounts for an exploration and reports an exceeded budget as undecided.
func (k *K) done(x *Explorer, rule, construct string) {
	k.paths += x.states
	for f := range x.Funcs {
		k.funcs[f] = true
	}
	if x.Over {
		k.fail(rule, construct, "", "undecided: more than %d abstract states", x.rule.MaxStates)
	}
}

func (k *K) note(format string, a ...any) { k.notes = append(k.notes, fmt.Sprintf(format, a...)) }

type checkDef struct {
	id      string
	explain string
	run     func(k *K)
}

var checks = map[string]*checkDef{}

func register(id, explain string, run func(k *K)) {
	checks[id] = &checkDef{id, explain, run}
}

type knownFinding struct{ prop, key, text string }

// loadKnown reads known-findings.txt: lines "finding: property=<id> key=<rule @ construct> :: text"
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " key=")
		key, text, _ := strings.Cut(rest, " :: ")
		r = append(r, knownFinding{strings.TrimSpace(id), strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return r
}

func runCheck(id string, tier string) int {
	start := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Printf("no such check: %s\n", id)
		return 2
	}
	k := &K{ID: id, obls: map[string]*Obl{}, funcs: map[*ssa.Function]bool{}}
	pr, err := load(repoDir, filepath.Join(verifDir, ".build/deps"))
	if err != nil {
		k.fail("load", "repository", "", "the repository could not be loaded and type-checked: %v", err)
	} else {
		k.pr = pr
		for _, p := range pr.Order {
			modPkgNames[p.Name] = true
		}
		k.R = newResolver(pr)
		func() {
			defer func() {
				if e := recover(); e != nil {
					k.fail("internal", id, "", "the analysis failed: %v\n%s", e, debug.Stack())
				}
			}()
			def.run(k)
		}()
	}
	if len(k.obls) == 0 {
		k.fail("instances", id, "", "no obligations were generated")
	}
	known := loadKnown()
	sort.Strings(k.order)
	var viol []*Obl
	var knownN int
	for _, key := range k.order {
		o := k.obls[key]
		if len(o.Fails) == 0 {
			continue
		}
		isKnown := false
		for _, kf := range known {
			if kf.prop == id && kf.key == key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", id, key, o.Pos, kf.text)
				isKnown = true
				knownN++
				break
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	writeEvidence(k, def, tier, viol, knownN, time.Since(start))
	for _, o := range viol {
		loc := o.Pos
		if loc == "" {
			loc = o.Construct
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, strings.ReplaceAll(loc, " ", "_"))
		fmt.Printf("  rule: %s\n  construct: %s\n", o.Rule, o.Construct)
		for _, f := range o.Fails {
			fmt.Printf("  %s\n", f)
		}
	}
	if len(viol) > 0 {
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d abstract_states=%d\n", id, len(k.order), len(k.funcs), k.paths)
	return 0
}

func writeEvidence(k *K, def *checkDef, tier string, viol []*Obl, knownN int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]int{}
	var samples []string
	for _, key := range k.order {
		o := k.obls[key]
		rules[o.Rule]++
		st := "discharged"
		if len(o.Fails) > 0 {
			st = "FAILED: " + o.Fails[0]
		}
		samples = append(samples, fmt.Sprintf("%s [%s] %s", key, o.Pos, st))
	}
	if len(samples) > 400 {
		samples = samples[:400]
	}
	var fns []string
	for f := range k.funcs {
		if f.Parent() == nil {
			fns = append(fns, fnName(f))
		}
	}
	sort.Strings(fns)
	npk := 0
	if k.pr != nil {
		npk = len(k.pr.Order)
	}
	cov := map[string]any{
		"explanation":         def.explain,
		"packages_loaded":     npk,
		"obligations":         len(k.order),
		"discharged":          len(k.order) - len(viol) - knownN,
		"known_findings":      knownN,
		"abstract_states":     k.paths,
		"functions_analysed":  len(k.funcs),
		"obligations_by_rule": rules,
		"samples":             samples,
		"functions":           fns,
	}
	if len(k.notes) > 0 {
		cov["notes"] = k.notes
	}
	ev := map[string]any{
		"property": k.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": len(viol),
		"assumptions": []string{
			"only non-test Go sources compiled by the default build of /repo are analysed",
			"functions outside the module behave as documented; their bodies are not analysed",
			"no unsafe pointer or reflection-based writes to the analysed state",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, k.ID+".json"), append(b, '\n'), 0o644)
}
