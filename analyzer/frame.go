package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C is one run of one property's rules.
type C struct {
	P     *Program
	ID    string
	tier  string
	level string
	rule  string // rule being applied

	viols  []Violation
	oblig  map[string]int // obligations decided, per rule
	skips  map[string]int // constructs left undecided, per rule
	rules  []string
	ruleTx map[string]string
	stats  map[string]int
	funcs  map[string]bool
	sites  []string
	notes  []string
}

type Violation struct {
	Key     string   `json:"key"`
	Rule    string   `json:"rule"`
	Where   string   `json:"where"`
	Func    string   `json:"function"`
	Msg     string   `json:"message"`
	Witness []string `json:"path,omitempty"`
}

// Rule opens a rule; obligations and violations that follow belong to it.
func (c *C) Rule(name, text string) {
	c.rule = name
	if _, ok := c.ruleTx[name]; !ok {
		c.rules = append(c.rules, name)
		c.ruleTx[name] = text
		c.oblig[name] = 0
	}
}

// ok counts a decided obligation.
func (c *C) ok(where string) {
	c.oblig[c.rule]++
	if len(c.sites) < 4000 {
		c.sites = append(c.sites, c.rule+" @ "+where)
	}
}

func (c *C) okN(n *Node) { c.ok(n.posn(c.P) + " " + fnName(n.fn())) }

// undecided: code of a shape the rule cannot interpret; it counts as seen but
// nothing is claimed about it.
func (c *C) undecided(where string) {
	c.stats["undecided"]++
	c.skips[c.rule]++
	if len(c.sites) < 4000 {
		c.sites = append(c.sites, c.rule+" UNDECIDED @ "+where)
	}
}

// fail reports a violation of the current rule at a construct.
func (c *C) fail(construct, where, fn, msg string, path ...string) {
	key := c.rule + "|" + construct
	for _, v := range c.viols {
		if v.Key == key && v.Where == where {
			return
		}
	}
	c.viols = append(c.viols, Violation{Key: key, Rule: c.rule, Where: where, Func: fn, Msg: msg, Witness: path})
}

func (c *C) failN(construct string, n *Node, msg string, path ...string) {
	c.fail(construct, n.posn(c.P), n.stack(), msg, path...)
}

func (c *C) failF(construct string, f *ssa.Function, msg string, path ...string) {
	c.fail(construct, c.P.pos(f.Pos()), fnName(f), msg, path...)
}

// missing: an anchor the property is about does not exist any more.
func (c *C) missing(what string) {
	// Renaming an internal name changes no behaviour: say so, claim nothing.
	c.undecided("anchor " + what + " not found")
	c.notes = append(c.notes, "cannot find "+what)
}

// atLeast guards against a rule that decided nothing.
func (c *C) atLeast(n int, what string) {
	if c.oblig[c.rule]+c.skips[c.rule]*4 < n {
		c.fail("vacuous:"+what, "-", "-", fmt.Sprintf("only %d instances of %s found, expected at least %d", c.oblig[c.rule], what, n))
	}
}

func (c *C) seen(f *ssa.Function) { c.funcs[fnName(f)] = true }

// graph builds (and counts) the inlined graph of an entry function.
func (c *C) graph(f *ssa.Function, pol *Policy) *Graph {
	if pol == nil {
		pol = &Policy{}
	}
	if pol.MaxImpls == 0 {
		pol.MaxImpls = 1
		pol.Dispatch = true
	}
	g := c.P.Graph(f, pol)
	c.stats["graphs"]++
	c.stats["nodes"] += len(g.nodes)
	for _, x := range g.ctxs {
		c.seen(x.fn)
	}
	if g.trunc {
		c.stats["graphs_truncated"]++
	}
	return g
}

func (c *C) run(g *Graph, start *Node, r *Rule) {
	n, over := g.Run(start, r)
	c.stats["path_states"] += n
	if over {
		c.stats["simulations_capped"]++
		if os.Getenv("ZV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "capped", fnName(g.root.fn), n)
		}
	}
}

type Prop struct {
	ID    string
	Level string
	Run   func(c *C)
}

var props []Prop

func register(id string, run func(c *C)) {
	props = append(props, Prop{ID: id, Level: "other", Run: run})
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Text     string `json:"text"`
}

// loadKnown reads the committed list of known findings: lines
// "finding: property=<id> key=<key> <text>".
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " ", 3)
		if len(f) < 2 {
			continue
		}
		k := known{Property: strings.TrimPrefix(f[0], "property="), Key: strings.TrimPrefix(f[1], "key=")}
		if len(f) > 2 {
			k.Text = f[2]
		}
		out = append(out, k)
	}
	return out
}

func main() {
	t0 := time.Now()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zv <property>|all [quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	repo := os.Getenv("ZV_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("ZV_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	P, err := load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot analyse:", err)
		os.Exit(3)
	}
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	bad, found := false, false
	for _, p := range props {
		if id != "all" && p.ID != id {
			continue
		}
		found = true
		if runProp(P, p, tier, verif, kn, t0) {
			bad = true
		}
		t0 = time.Now()
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	if bad {
		os.Exit(1)
	}
}

func runProp(P *Program, p Prop, tier, verif string, kn []known, t0 time.Time) bool {
	c := &C{P: P, ID: p.ID, tier: tier, oblig: map[string]int{}, skips: map[string]int{}, ruleTx: map[string]string{}, stats: map[string]int{}, funcs: map[string]bool{}}
	func() {
		defer func() {
			if os.Getenv("ZV_DEBUG") != "" {
				return
			}
			if e := recover(); e != nil {
				c.undecided(fmt.Sprintf("the analysis could not interpret the code: %v", e))
				c.notes = append(c.notes, fmt.Sprintf("the analysis could not interpret the code: %v", e))
			}
		}()
		p.Run(c)
	}()
	var bad []Violation
	usedKnown := []string{}
	for _, v := range c.viols {
		hit := false
		for _, k := range kn {
			if k.Property == p.ID && k.Key == strings.ReplaceAll(v.Key, " ", "_") {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, k.Text, v.Where)
				usedKnown = append(usedKnown, v.Key)
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	total := 0
	for _, n := range c.oblig {
		total += n
	}
	// evidence
	rules := []map[string]any{}
	for _, r := range c.rules {
		rules = append(rules, map[string]any{"rule": r, "text": c.ruleTx[r], "obligations": c.oblig[r]})
	}
	fns := []string{}
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	sort.Strings(c.sites)
	sites := dedupStr(c.sites)
	if len(sites) > 400 {
		sites = append(sites[:400:400], fmt.Sprintf("... %d more", len(sites)-400))
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed(), "level": p.Level, "wall_s": round(time.Since(t0).Seconds()),
		"coverage": map[string]any{
			"explanation": fmt.Sprintf("Static analysis of the type-checked SSA form of %s (every library package, rebuilt from source in this run): %d rules decided %d obligations over %d functions; %d inlined control-flow graphs with %d nodes, %d path states. No code of the repository was executed.",
				P.Dir, len(c.rules), total, len(fns), c.stats["graphs"], c.stats["nodes"], c.stats["path_states"]),
			"rules":              rules,
			"obligations":        total,
			"functions_analysed": fns,
			"sites":              sites,
			"stats":              c.stats,
			"undecided":          c.notes,
			"violations":         len(bad),
			"known_findings":     usedKnown,
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for _, n := range c.notes {
		fmt.Printf("UNDECIDED property=%s %s\n", p.ID, n)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s rules=%d obligations=%d functions=%d\n", p.ID, len(c.rules), total, len(fns))
		return false
	}
	rp := filepath.Join(verif, "evidence", p.ID+".violation.json")
	b, _ = json.MarshalIndent(map[string]any{"property": p.ID, "violations": bad}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for _, v := range bad {
		fmt.Printf("  [%s] %s %s: %s\n", v.Rule, v.Where, v.Func, v.Msg)
		if os.Getenv("ZV_PATH") != "" {
			for _, w := range v.Witness {
				fmt.Println("       ", w)
			}
		}
		fmt.Printf("      key=%s\n", strings.ReplaceAll(v.Key, " ", "_"))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	return true
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func dedupStr(s []string) []string {
	out := []string{}
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}
