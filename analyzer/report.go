package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one violated rule instance.
type Viol struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path"`
}

// Key identifies the instance independently of line numbers.
func (v *Viol) Key() string { return v.Rule + "|" + v.Construct }

// Check is one run of the rules of one property.
type Check struct {
	id    string
	p     *Program
	n     *interner
	tier  string
	seed  int
	start time.Time

	viols      []*Viol
	known      []*Viol
	funcs      map[string]bool
	roots      map[string]bool
	execNodes  int
	execEvents int
	execs      map[*Exec]bool
	prodStates int
	prodEdges  int
	events     int
	inst       map[string]map[string]bool // rule -> instances examined
	notes      []string
	samples    []string
	expl       string
	assume     []string
}

func (c *Check) violate(rule, construct string, pos token.Pos, msg string, trace []string) {
	v := &Viol{Rule: rule, Construct: construct, Pos: c.p.pos(pos), Msg: msg, Trace: trace}
	for _, o := range c.viols {
		if o.Key() == v.Key() {
			return
		}
	}
	c.viols = append(c.viols, v)
}

// undecided: the analysis could not establish the rule; that counts as a violation.
func (c *Check) undecided(construct, format string, a ...interface{}) {
	c.violate("undecided", construct, token.NoPos, fmt.Sprintf(format, a...), nil)
}

// instance records that a rule was applied to a construct.
func (c *Check) instance(rule, construct string) {
	if c.inst[rule] == nil {
		c.inst[rule] = map[string]bool{}
	}
	c.inst[rule][construct] = true
}

// floor fails the check when a rule matched fewer constructs than the code must contain.
func (c *Check) floor(rule string, min int, what string) {
	if len(c.inst[rule]) < min {
		c.undecided("floor "+rule, "rule %q matched %d constructs (%s), at least %d were expected", rule, len(c.inst[rule]), what, min)
	}
}

func (c *Check) noteExec(e *Exec) {
	if c.execs[e] {
		return
	}
	c.execs[e] = true
	c.execNodes += len(e.Nodes)
	c.execEvents += e.events
	if e.Root != nil {
		c.roots[e.Root.String()] = true
	}
	for f := range e.inl {
		c.funcs[f.String()] = true
	}
	for _, m := range e.Errs {
		c.undecided("exploration "+m, "%s", m)
	}
}

func (c *Check) fnPos(fn *ssa.Function) token.Pos {
	if fn == nil {
		return token.NoPos
	}
	return fn.Pos()
}

// loadKnown reads the known findings of the property: lines "known: property=<id> key=<rule|construct> <text>".
func (c *Check) loadKnown(file string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		pre := "known: property=" + c.id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = strings.TrimPrefix(l, pre)
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		res[l[:i]] = l[i+4:]
	}
	return res
}

// finish writes evidence and replay files, prints the verdict and returns the exit code.
func (c *Check) finish(verif string) int {
	known := c.loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var viols []*Viol
	for _, v := range c.viols {
		if txt, ok := known[v.Key()]; ok {
			c.known = append(c.known, v)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, txt, v.Pos)
			continue
		}
		viols = append(viols, v)
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Trace) < len(viols[j].Trace) })

	ninst := 0
	rules := map[string]int{}
	for r, m := range c.inst {
		rules[r] = len(m)
		ninst += len(m)
		if len(c.samples) < 12 {
			ks := sortStrings(m)
			for i := 0; i < len(ks) && i < 3; i++ {
				c.samples = append(c.samples, r+": "+ks[i])
			}
		}
	}
	sort.Strings(c.samples)

	cov := map[string]interface{}{
		"explanation":           c.expl,
		"source_files":          c.files(),
		"functions_in_program":  c.nfuncs(),
		"functions_analysed":    len(c.funcs),
		"functions":             sortStrings(c.funcs),
		"entry_points":          sortStrings(c.roots),
		"abstract_states":       c.execNodes,
		"path_events":           c.execEvents,
		"automaton_states":      c.prodStates,
		"automaton_transitions": c.prodEdges,
		"rule_instances":        rules,
		"obligations":           ninst,
		"discharged":            ninst - len(c.viols),
		"known_findings":        len(c.known),
		"samples":               c.samples,
		"notes":                 c.notes,
	}
	if ninst-len(c.viols) < 0 {
		cov["discharged"] = 0
	}
	if c.notes == nil {
		delete(cov, "notes")
	}
	evd := map[string]interface{}{
		"property":    c.id,
		"tier":        c.tier,
		"seed":        c.seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      float64(time.Since(c.start).Milliseconds()) / 1000,
		"violations":  len(viols),
	}
	if c.assume == nil {
		evd["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(dir, c.id+".violation.json")
	os.Remove(replay)
	if len(viols) == 0 {
		fmt.Printf("%s: held; %d rule instances, %d functions, %d abstract states, %d automaton states\n",
			c.id, ninst, len(c.funcs), c.execNodes, c.prodStates)
		return 0
	}
	rb, _ := json.MarshalIndent(map[string]interface{}{"property": c.id, "repo": c.dir(), "violations": viols}, "", " ")
	os.WriteFile(replay, append(rb, '\n'), 0o644)
	for _, v := range viols {
		fmt.Printf("%s: rule %q: %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		t := v.Trace
		if len(t) > 14 {
			t = t[len(t)-14:]
		}
		for _, l := range t {
			fmt.Println("    " + l)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}

func (c *Check) files() int {
	if c.p == nil {
		return 0
	}
	return c.p.Files
}

func (c *Check) nfuncs() int {
	if c.p == nil {
		return 0
	}
	return len(c.p.Funcs)
}

func (c *Check) dir() string {
	if c.p == nil {
		return ""
	}
	return c.p.Dir
}

func newCheck(id string) *Check {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Check{id: id, tier: tier, seed: seed, start: time.Now(), n: newInterner(),
		funcs: map[string]bool{}, roots: map[string]bool{}, execs: map[*Exec]bool{}, inst: map[string]map[string]bool{}}
}
