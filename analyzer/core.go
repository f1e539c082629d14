package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// Check driver: obligations, findings, evidence.
// ---------------------------------------------------------------------------

type Viol struct{ Key, Where, Msg string }

type Ctx struct {
	P       *Program
	ID      string
	Tier    string
	Seed    int
	Rule    string
	viols   []Viol
	nOb     int
	nOk     int
	pruned  int
	t0      time.Time
	kn      []known
	cur     Shape // lengths under analysis, if not the usual ones
	Counts  map[string]int
	Samples []string
}

// ob records one obligation. key identifies the failing construct.
func (c *Ctx) ob(ok bool, key, where, format string, a ...interface{}) bool {
	c.nOb++
	if ok {
		c.nOk++
		return true
	}
	c.viols = append(c.viols, Viol{key, where, fmt.Sprintf(format, a...)})
	return false
}

// newViolation: some violation is not a known finding.
func (c *Ctx) newViolation() bool {
next:
	for _, v := range c.viols {
		for _, k := range c.kn {
			if k.prop == c.ID && k.key == v.Key {
				continue next
			}
		}
		return true
	}
	return c.pruned > 0
}

// late: the run has taken long and its verdict is known already.
func (c *Ctx) late(in *Interp) bool {
	return time.Since(c.t0) > softLimit && (in.pruned > 0 || c.newViolation())
}

const softLimit = 150 * time.Second

type tooLate struct{}

func (c *Ctx) count(what string, n int) { c.Counts[what] += n }
func (c *Ctx) sample(format string, a ...interface{}) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}
func (c *Ctx) evalSeed() string { return fmt.Sprintf("seed%d", c.Seed) }
func (c *Ctx) thorough() bool   { return c.Tier == "thorough" }

// interp is a fresh abstract machine with initialised package state.
func (c *Ctx) interp() (*Interp, *State, bool) {
	in := NewInterp(c.P)
	in.late = c.late
	var init *State
	var err error
	why := in.protect(func() { init, err = in.RunInit() })
	if why == "" && err != nil {
		why = err.Error()
	}
	if why != "" {
		c.ob(false, "init", "package initialisation", "package initialisation not analysable: %s", why)
		return nil, nil, false
	}
	return in, init, true
}

// stats accounts for what an interpreter run covered.
func (c *Ctx) stats(in *Interp) {
	c.count("entry points interpreted", 1)
	c.count("abstract steps", int(in.steps))
	c.count("case splits", in.nforks)
	c.pruned += in.pruned
	for f := range in.CalledFn {
		if in.inRepo(f) {
			c.Counts["fn:"+fnShort(f)] = 1
		}
	}
}

// decide runs the rule; a construct that breaks the analysis itself leaves the
// property undecided, which is reported like any other undecided construct.
func (c *Ctx) decide(ck checkFn) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooLate); ok {
				c.sample("stopped after %.0f s with violations found", time.Since(c.t0).Seconds())
				if !c.newViolation() {
					c.ob(false, "too many cases", "analyzer", "the number of cases that depend on input values exceeds the bound of the analysis: the property is undecided")
				}
				return
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			c.ob(false, "analysis aborted", "analyzer", "the analysis met a construct it cannot handle: %v", r)
		}
	}()
	ck.f(c)
}

type known struct{ prop, key, text string }

func loadKnown(file string) []known {
	var r []known
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 key="..." text
		var k known
		rest := strings.TrimPrefix(l, "finding: ")
		if i := strings.IndexByte(rest, ' '); i > 0 {
			k.prop = strings.TrimPrefix(rest[:i], "property=")
			rest = rest[i+1:]
		}
		if strings.HasPrefix(rest, "key=\"") {
			rest = rest[5:]
			if i := strings.IndexByte(rest, '"'); i > 0 {
				k.key = rest[:i]
				k.text = strings.TrimSpace(rest[i+1:])
			}
		}
		if k.prop != "" && k.key != "" {
			r = append(r, k)
		}
	}
	return r
}

type checkFn struct {
	rule string
	f    func(c *Ctx)
}

var checks = map[string]checkFn{}

func runCheck(id, repo, verif string) int {
	t0 := time.Now()
	ck, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Rule: ck.rule, t0: t0, Counts: map[string]int{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	P, err := Load(repo)
	if err != nil {
		fmt.Println("cannot load", repo+":", err)
		return 2
	}
	c.P = P
	c.kn = loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	stop := watchdog(id, c, verif, t0)
	defer stop()
	c.count("source functions of the repository", len(P.Funcs))
	c.decide(ck)

	if c.nOb == 0 {
		c.ob(false, "nothing decided", "analyzer", "no obligation of this property was found in the code: the property is undecided")
	}
	if c.pruned > 0 {
		c.ob(false, "too many cases", "analyzer", "the number of cases that depend on input values exceeds the bound of the analysis (%d case splits not followed): the property is undecided", c.pruned)
	}
	kn := c.kn
	var news []Viol
	hit := map[string]bool{}
	for _, v := range c.viols {
		listed := false
		for _, k := range kn {
			if k.prop == id && k.key == v.Key {
				listed = true
				if !hit[v.Key] {
					hit[v.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, k.text, v.Key)
				}
			}
		}
		if !listed {
			news = append(news, v)
		}
	}
	var fns []string
	counts := map[string]int{}
	for k, v := range c.Counts {
		if strings.HasPrefix(k, "fn:") {
			fns = append(fns, k[3:])
		} else {
			counts[k] = v
		}
	}
	sort.Strings(fns)
	rep := func(vs []Viol) []map[string]string {
		r := []map[string]string{}
		for _, v := range vs {
			r = append(r, map[string]string{"key": v.Key, "where": v.Where, "message": v.Msg})
		}
		return r
	}
	ev := map[string]interface{}{
		"property": id, "tier": c.Tier, "seed": c.Seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        "Static analysis (abstract interpretation of the SSA form of /repo's working tree, nothing executed). Rule: " + c.Rule,
			"obligations":        c.nOb,
			"discharged":         c.nOk,
			"known_findings_hit": len(hit),
			"analysed_functions": fns,
			"counts":             counts,
			"samples":            c.Samples,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": rep(news),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations, %d repository functions analysed (%.1fs)\n",
		id, c.nOb, c.nOk, len(hit), len(news), len(fns), time.Since(t0).Seconds())
	if len(news) == 0 {
		return 0
	}
	rp := filepath.Join(dir, id+".violations.txt")
	var sb strings.Builder
	for _, v := range news {
		fmt.Fprintf(&sb, "%s\n  at %s\n  key %q\n", v.Msg, v.Where, v.Key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range news {
		if i == 20 {
			fmt.Printf("  ... %d more in %s\n", len(news)-20, rp)
			break
		}
		fmt.Printf("  %s: %s\n", v.Where, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// watchdog ends a run that exceeds the time or memory of a check: the
// property is then undecided, which is reported as a violation.
func watchdog(id string, c *Ctx, verif string, t0 time.Time) func() {
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(2 * time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			why := ""
			if time.Since(t0) > 720*time.Second {
				why = "time"
			} else if m.HeapAlloc > 14<<30 {
				why = "memory"
			}
			if why == "" {
				continue
			}
			dir := filepath.Join(verif, "evidence")
			os.MkdirAll(dir, 0o755)
			msg := "the analysis exceeds its " + why + " bound: the property is undecided"
			ev := map[string]interface{}{
				"property": id, "tier": c.Tier, "seed": c.Seed, "level": "other",
				"coverage":   map[string]interface{}{"explanation": "Static analysis (abstract interpretation of the SSA form of /repo's working tree, nothing executed). Rule: " + c.Rule, "obligations": 1, "discharged": 0},
				"wall_s":     time.Since(t0).Seconds(),
				"violations": []map[string]string{{"key": "undecided", "where": "analyzer", "message": msg}},
			}
			b, _ := json.MarshalIndent(ev, "", " ")
			os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
			rp := filepath.Join(dir, id+".violations.txt")
			os.WriteFile(rp, []byte(msg+"\n"), 0o644)
			fmt.Printf("  analyzer: %s\nVIOLATION property=%s replay=%s\n", msg, id, rp)
			os.Exit(1)
		}
	}()
	return func() { close(done) }
}
