package main

// The check driver: loads the harnesses of one property, explores them symbolically over the
// current source of the repository, replays counterexamples natively and writes the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	flagV     = flag.Bool("v", false, "verbose")
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagVerif = flag.String("verif", "/verif", "verification directory")
	flagTier  = flag.String("tier", "", "quick or thorough")
	flagOnly  = flag.String("only", "", "run only harnesses containing this text")
	flagJ     = flag.Int("j", 0, "workers")
	flagProf  = flag.String("cpuprofile", "", "write a CPU profile")
	flagBud   = flag.Int("budget", 0, "override the budget of every harness (seconds)")
)

// harness is one //verif:harness declaration.
type harness struct {
	fn    string
	opts  map[string]string
	file  *hfile
	tries int
}

type hfile struct {
	path    string
	name    string // base name in the overlay
	pkg     string
	src     []byte
	hs      []*harness
	stubs   map[string]string
	bounds  []string
	assumes []string
	dropped string
}

var reHarness = regexp.MustCompile(`^//verif:(harness|stub|bound|assume|include)\s+(.*)$`)

func parseHarnessFile(path, id string) (*hfile, []string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.PackageClauseOnly)
	if err != nil {
		return nil, nil, err
	}
	h := &hfile{path: path, pkg: f.Name.Name, src: src, stubs: map[string]string{}}
	h.name = "zz_verif_" + strings.ToLower(id) + "_" + filepath.Base(path)
	var inc []string
	for _, l := range strings.Split(string(src), "\n") {
		m := reHarness.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		switch m[1] {
		case "harness":
			fs := strings.Fields(m[2])
			hn := &harness{fn: fs[0], opts: map[string]string{}, file: h}
			for _, kv := range fs[1:] {
				k, v, ok := strings.Cut(kv, "=")
				if !ok {
					v = "1"
				}
				hn.opts[k] = v
			}
			h.hs = append(h.hs, hn)
		case "stub":
			a, b, _ := strings.Cut(m[2], "=")
			h.stubs[strings.TrimSpace(a)] = strings.TrimSpace(b)
		case "bound":
			h.bounds = append(h.bounds, m[2])
		case "assume":
			h.assumes = append(h.assumes, m[2])
		case "include":
			inc = append(inc, strings.TrimSpace(m[2]))
		}
	}
	return h, inc, nil
}

// opt returns the value of an option for the tier ("q/t" or a single value).
func (h *harness) opt(k, def, tier string) string {
	v, ok := h.opts[k]
	if !ok {
		return def
	}
	if a, b, ok := strings.Cut(v, "/"); ok {
		if tier == "thorough" {
			return b
		}
		return a
	}
	return v
}

func (h *harness) optInt(k string, def int, tier string) int {
	n, err := strconv.Atoi(h.opt(k, strconv.Itoa(def), tier))
	if err != nil {
		return def
	}
	return n
}

func (h *harness) cfg(tier string) *HCfg {
	c := &HCfg{Name: h.fn, params: map[string]int64{}}
	switch h.opt("mode", "exact", tier) {
	case "int":
		c.intMode = true
	case "arith":
		c.intMode, c.realMode = true, true
	case "arith-eps":
		c.intMode, c.realMode, c.eps = true, true, true
	}
	on := func(k string) bool { return h.optInt(k, 0, tier) != 0 }
	c.merge = h.optInt("merge", 1, tier)
	c.mapFork = h.optInt("mapFork", 3, tier)
	c.iteMax = h.optInt("iteMax", 64, tier)
	c.conc = on("conc")
	c.preempt = h.optInt("preempt", 2, tier)
	c.timers = h.optInt("timers", 2, tier)
	c.incMS = h.optInt("incms", 2000, tier)
	c.oneMS = h.optInt("onems", 20000, tier)
	c.maxSteps = int64(h.optInt("steps", 4000000, tier))
	def := 40
	if tier == "thorough" {
		def = 900
	}
	c.budget = time.Duration(h.optInt("budget", def, tier)) * time.Second
	if *flagBud > 0 {
		c.budget = time.Duration(*flagBud) * time.Second
	}
	c.noRace = on("norace")
	c.term = on("term")
	c.maxViol = h.optInt("maxviol", 4, tier)
	c.nativeTries = h.optInt("tries", 1, tier)
	if c.conc {
		c.nativeTries = h.optInt("tries", 5, tier)
	}
	c.nativeMS = h.optInt("nativems", 20000, tier)
	c.clock = h.opt("clock", "", tier)
	c.noNative = h.opt("native", "1", tier) == "0"
	c.chooseSched = on("choosesched")
	for k := range h.opts {
		if n, ok := strings.CutPrefix(k, "p."); ok {
			c.params[n] = int64(h.optInt(k, 0, tier))
		}
	}
	return c
}

// A known finding is a line
//	known: property=<id> harness=<name> msg="<assertion>" where="<part of the call stack>" <what fails>
// A line "fixed: property=<id> <commit> <what>" is a record only and suppresses nothing.
type knownFinding struct {
	Harness, Msg, Where, What string
}

var reKnown = regexp.MustCompile(`^known: property=(\S+) harness=(\S+) msg="([^"]*)" where="([^"]*)" (.*)$`)

func readKnown(path, id string) (r []knownFinding) {
	for _, l := range readLines(path) {
		if m := reKnown.FindStringSubmatch(l); m != nil && m[1] == id {
			r = append(r, knownFinding{m[2], m[3], m[4], m[5]})
		}
	}
	return r
}

type harnessReport struct {
	Harness     string           `json:"harness"`
	Package     string           `json:"package"`
	Options     map[string]string `json:"options,omitempty"`
	Paths       int64            `json:"paths"`
	Infeasible  int64            `json:"infeasible_paths"`
	Incomplete  int64            `json:"incomplete_paths"`
	Unexplored  int64            `json:"unexplored_branches"`
	Decisions   int64            `json:"decisions"`
	Obligations int64            `json:"obligations"`
	Discharged  int64            `json:"discharged"`
	Inconcl     int64            `json:"inconclusive"`
	Queries     int64            `json:"solver_queries"`
	SolverS     float64          `json:"solver_s"`
	Unknown     int64            `json:"solver_unknown"`
	WallS       float64          `json:"wall_s"`
	TimedOut    bool             `json:"budget_exhausted"`
	Exhaustive  bool             `json:"exhaustive_within_bounds"`
	Reach       map[string]int64 `json:"reached,omitempty"`
	Missing     []string         `json:"not_reached,omitempty"`
	Notes       map[string]int64 `json:"notes,omitempty"`
	Racy        []string         `json:"racy_access_sites,omitempty"`
	Native      int              `json:"paths_replayed_natively"`
	NativeBad   []string         `json:"native_disagreements,omitempty"`
	Steps       int64            `json:"ssa_instructions"`
	MaxDepth    int              `json:"max_decisions_on_a_path"`
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 2 || args[0] != "check" {
		fmt.Fprintln(os.Stderr, "usage: symgo [flags] check <property>")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	rc := runCheck(args[1], tier)
	if *flagProf != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

type checkState struct {
	id, tier string
	start    time.Time
	env      []string
	files    []*hfile
	reports  []*harnessReport
	samples  []any
	viols    []string
	known    []knownFinding
	knownHit map[int]bool
	funcs    map[string]bool
	notes    []string
	scratch  string
	nrep     int
	fileList map[string]string
	totQ     int64
	loadS    float64
}

func (cs *checkState) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	cs.notes = append(cs.notes, s)
	fmt.Println("NOTE: " + s)
}

func runCheck(id, tier string) int {
	cs := &checkState{id: id, tier: tier, start: time.Now(), knownHit: map[int]bool{}, funcs: map[string]bool{}}
	cs.env = goEnv()
	var err error
	cs.scratch, err = os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(cs.scratch)
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	cs.known = readKnown(filepath.Join(*flagVerif, "KNOWN_FINDINGS.txt"), id)
	paths, _ := filepath.Glob(filepath.Join(*flagVerif, "checks", id, "*.go"))
	if len(paths) == 0 {
		fmt.Println("ERROR: no harness for", id)
		return 2
	}
	sort.Strings(paths)
	groups := map[string][]*hfile{}
	incs := map[string]map[string]bool{}
	var order []string
	for _, p := range paths {
		h, inc, err := parseHarnessFile(p, id)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		if groups[h.pkg] == nil {
			order = append(order, h.pkg)
			incs[h.pkg] = map[string]bool{}
		}
		groups[h.pkg] = append(groups[h.pkg], h)
		for _, i := range inc {
			incs[h.pkg][i] = true
		}
		cs.files = append(cs.files, h)
	}
	for _, pkg := range order {
		var inc []*hfile
		var names []string
		for i := range incs[pkg] {
			names = append(names, i)
		}
		sort.Strings(names)
		for _, i := range names {
			h, _, err := parseHarnessFile(filepath.Join(*flagVerif, "checks", "common", i), "common")
			if err != nil {
				fmt.Println("ERROR:", err)
				return 2
			}
			inc = append(inc, h)
		}
		cs.runPkg(pkg, groups[pkg], inc)
	}
	return cs.finish()
}

func (cs *checkState) overlay(pkg string, files []*hfile) map[string]string {
	m := map[string]string{}
	dir := filepath.Join(*flagRepo, pkg)
	m[filepath.Join(dir, "zz_verif_api.go")] = strings.ReplaceAll(apiTemplate, "%PKG%", pkg)
	for _, f := range files {
		if f.dropped == "" {
			m[filepath.Join(dir, f.name)] = string(f.src)
		}
	}
	return m
}

func (cs *checkState) runPkg(pkg string, files, inc []*hfile) {
	var eng *Engine
	all := append(append([]*hfile(nil), inc...), files...)
	t0 := time.Now()
	for {
		alive := 0
		for _, f := range files {
			if f.dropped == "" {
				alive++
			}
		}
		if alive == 0 {
			cs.note("no harness of package %s type-checks against the current source: nothing explored there", pkg)
			return
		}
		ov := map[string][]byte{}
		for k, v := range cs.overlay(pkg, all) {
			ov[k] = []byte(v)
		}
		var err error
		eng, err = loadEngine(*flagRepo, pkg, ov, cs.env)
		if err == nil {
			break
		}
		le, ok := err.(*loadErr)
		dropped := false
		if ok {
			for _, f := range all {
				if f.dropped != "" {
					continue
				}
				for _, m := range le.msgs {
					if strings.Contains(m, f.name) {
						f.dropped = m
						dropped = true
						cs.note("reduced bound: %s does not type-check against the current source (%s)", filepath.Base(f.path), m)
						break
					}
				}
			}
		}
		if !dropped {
			cs.note("package %s could not be loaded: %v", pkg, err)
			return
		}
	}
	cs.loadS += time.Since(t0).Seconds()
	debugf("loaded %s in %v\n", pkg, time.Since(t0))
	nat := &native{cs: cs, pkg: pkg, files: all}
	for _, f := range files {
		if f.dropped != "" {
			continue
		}
		for name, repl := range f.stubs {
			fn := eng.hpkg.Func(repl)
			if fn == nil {
				cs.note("stub %s missing", repl)
				continue
			}
			eng.stubs[name] = fn
		}
	}
	for _, f := range files {
		if f.dropped != "" {
			continue
		}
		for _, h := range f.hs {
			if *flagOnly != "" && !strings.Contains(h.fn, *flagOnly) {
				continue
			}
			if h.opt("tier", "", cs.tier) == "thorough" && cs.tier != "thorough" {
				continue
			}
			cs.runHarness(eng, nat, h)
		}
	}
	for n := range eng.touched() {
		cs.funcs[n] = true
	}
}

var reReach = regexp.MustCompile(`vReach\("([^"]*)"\)`)

func (cs *checkState) runHarness(eng *Engine, nat *native, h *harness) {
	fn := eng.hpkg.Func(h.fn)
	if fn == nil {
		cs.note("harness %s missing", h.fn)
		return
	}
	cfg := h.cfg(cs.tier)
	nw := runtime.NumCPU()
	if *flagJ > 0 {
		nw = *flagJ
	}
	t0 := time.Now()
	ex := NewExplorer(eng, cfg, fn, nw)
	resetSolverStats()
	res := ex.Run()
	q, sd, unk := readSolverStats()
	rep := &harnessReport{Harness: h.fn, Package: h.file.pkg, Options: h.opts, Paths: res.Paths, Infeasible: res.Infeasible,
		Incomplete: res.Incomplete, Unexplored: res.Unexplored, Decisions: res.Decisions, Obligations: res.Obligations,
		Discharged: res.Discharged, Inconcl: res.Inconclusive, Queries: q, SolverS: sd.Seconds(), Unknown: unk, TimedOut: res.TimedOut,
		Reach: res.Reach, Notes: res.Notes, Racy: res.Racy, Steps: res.Steps, MaxDepth: res.MaxDepth}
	cs.reports = append(cs.reports, rep)
	rep.Exhaustive = !res.TimedOut && res.Incomplete == 0 && res.Unexplored == 0 && res.Inconclusive == 0
	for _, l := range h.reachLabels() {
		if res.Reach[l] == 0 {
			rep.Missing = append(rep.Missing, l)
		}
	}
	if !rep.Exhaustive {
		var ns []string
		for n := range res.Notes {
			if len(n) > 600 && !*flagV {
				n = n[:600]
			}
			ns = append(ns, n)
		}
		sort.Strings(ns)
		if len(ns) > 6 {
			ns = ns[:6]
		}
		cs.note("%s: reduced bound: %d paths complete, %d incomplete, %d unexplored branches, %d inconclusive obligations %s", h.fn, res.Paths, res.Incomplete, res.Unexplored, res.Inconclusive, strings.Join(ns, " | "))
	}
	if len(rep.Missing) > 0 && len(res.Violations) == 0 {
		cs.note("%s: not reached: %s", h.fn, strings.Join(rep.Missing, ", "))
	}
	// counterexamples
	for _, v := range res.Violations {
		cs.handleViolation(nat, h, cfg, v)
	}
	// validate sampled paths against the compiled code
	if !cfg.noNative && len(res.Samples) > 0 {
		nat.validate(h, cfg, res.Samples, rep)
	}
	for i, s := range res.Samples {
		if i >= 3 {
			break
		}
		cs.samples = append(cs.samples, map[string]any{"harness": h.fn, "inputs": inputsText(s.Inputs), "observed": s.Observe})
	}
	rep.WallS = time.Since(t0).Seconds()
	fmt.Printf("%s %s: %d paths, %d decisions, %d/%d obligations discharged, %d queries %.1fs solver, %.1fs wall, native %d, exhaustive=%v\n",
		cs.id, h.fn, rep.Paths, rep.Decisions, rep.Discharged, rep.Obligations, rep.Queries, rep.SolverS, rep.WallS, rep.Native, rep.Exhaustive)
}

func inputsText(in []InputVal) string {
	var s []string
	for _, x := range in {
		s = append(s, x.Name+"="+x.V)
	}
	t := strings.Join(s, " ")
	if len(t) > 1500 {
		t = t[:1500] + "…"
	}
	return t
}

// reachLabels finds the vReach labels inside the harness function (textually).
func (h *harness) reachLabels() []string {
	src := string(h.file.src)
	i := strings.Index(src, "func "+h.fn+"(")
	if i < 0 {
		return nil
	}
	body := src[i:]
	if j := strings.Index(body, "\n}\n"); j >= 0 {
		body = body[:j]
	}
	var r []string
	for _, m := range reReach.FindAllStringSubmatch(body, -1) {
		r = append(r, m[1])
	}
	return r
}

func (cs *checkState) handleViolation(nat *native, h *harness, cfg *HCfg, v *Violation) {
	confirmed, how := false, "not replayed natively"
	if !cfg.noNative {
		confirmed, how = nat.confirm(h, cfg, v)
	}
	v.Repro = how
	if !confirmed && !cfg.conc && !cfg.noNative {
		cs.note("%s: unconfirmed counterexample (%s: %s): %s; inputs %s", h.fn, v.Kind, v.Msg, how, inputsText(v.Inputs))
		if *flagV {
			fmt.Println(v.Where)
		}
		return
	}
	for i, k := range cs.known {
		if k.Harness == h.fn && k.Msg == v.Msg && (k.Where == "" || strings.Contains(v.Where, k.Where)) {
			if !cs.knownHit[i] {
				cs.knownHit[i] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", cs.id, k.What)
			}
			return
		}
	}
	cs.nrep++
	dir := filepath.Join(*flagVerif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", cs.id, cs.nrep))
	b, _ := json.MarshalIndent(map[string]any{"property": cs.id, "harness": h.fn, "file": h.file.path, "package": h.file.pkg,
		"violation": v, "native": how, "case": []any{map[string]any{"Harness": h.fn, "Inputs": v.Inputs, "Params": cfg.params}}}, "", " ")
	os.WriteFile(p, b, 0o644)
	cs.viols = append(cs.viols, p)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cs.id, p)
	fmt.Printf("  %s %s: %s\n  inputs: %s\n  native: %s\n", h.fn, v.Kind, v.Msg, inputsText(v.Inputs), how)
	if *flagV || true {
		w := v.Where
		if len(w) > 1500 {
			w = w[:1500]
		}
		fmt.Printf("  at: %s\n", w)
		tr := v.Trace
		if len(tr) > 60 {
			tr = tr[len(tr)-60:]
		}
		for _, t := range tr {
			fmt.Println("    " + t)
		}
	}
}

func (cs *checkState) finish() int {
	var paths, dec, obl, dis, inc, queries, unk, steps int64
	var solv float64
	nativeN := 0
	exhaustive := len(cs.reports) > 0
	var bounds, assumes []string
	for _, f := range cs.files {
		bounds = append(bounds, f.bounds...)
		assumes = append(assumes, f.assumes...)
		if f.dropped != "" {
			exhaustive = false
		}
	}
	for _, r := range cs.reports {
		paths += r.Paths
		dec += r.Decisions
		obl += r.Obligations
		dis += r.Discharged
		inc += r.Inconcl
		queries += r.Queries
		unk += r.Unknown
		solv += r.SolverS
		steps += r.Steps
		nativeN += r.Native
		exhaustive = exhaustive && r.Exhaustive
	}
	var fl []string
	for f := range cs.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if cs.samples == nil {
		cs.samples = []any{}
	}
	ev := map[string]any{
		"property": cs.id, "tier": cs.tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": dec, "traces_validated_against_impl": nativeN, "samples": cs.samples,
			"states_meaning":      "complete symbolic execution paths through the real code (each stands for every input satisfying its path condition)",
			"transitions_meaning": "branch, choice and scheduling decisions taken on those paths",
			"obligations":         obl, "discharged": dis, "inconclusive": inc,
			"solver_queries": queries, "solver_unknown": unk, "solver_s": solv,
			"ssa_instructions_executed": steps,
			"functions_encoded":         fl, "bounds": bounds, "exhaustive": exhaustive,
			"harnesses": cs.reports, "notes": cs.notes, "load_s": cs.loadS,
		},
		"assumptions": append(assumes, engineAssumptions...),
		"wall_s":      time.Since(cs.start).Seconds(),
		"violations":  len(cs.viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(*flagVerif, "evidence", cs.id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("ERROR: evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d harnesses, %d paths, %d/%d obligations, %d queries, %.1fs\n", cs.id, len(cs.reports), paths, dis, obl, queries, time.Since(cs.start).Seconds())
	if len(cs.viols) > 0 {
		return 1
	}
	printForks()
	if os.Getenv("SYMGO_STRICT") != "" {
		for _, r := range cs.reports {
			if len(r.Missing) > 0 || len(r.NativeBad) > 0 || r.Incomplete > 0 {
				return 2
			}
		}
	}
	return 0
}

var engineAssumptions = []string{
	"the SSA form built by golang.org/x/tools/go/ssa from the current source has the meaning of the compiled program (sampled paths are replayed against the compiled code)",
	"z3 and cvc5 verdicts are trusted; a timeout or unknown is reported as a reduced bound, never as success",
	"standard-library functions listed in DESIGN.md are replaced by models of their documented behaviour",
}

// ---- native side

type native struct {
	cs    *checkState
	pkg   string
	files []*hfile
	bin   string
	err   error
	tried bool
}

func (n *native) build() error {
	if n.tried {
		return n.err
	}
	n.tried = true
	n.bin, n.err = n.buildBin(nil, "plain")
	if n.err != nil {
		n.cs.note("native replay of package %s is unavailable: %v", n.pkg, n.err)
	}
	return n.err
}

func (n *native) buildBin(extra map[string]string, tag string) (string, error) {
	dir := filepath.Join(n.cs.scratch, n.pkg+"-"+tag)
	os.MkdirAll(dir, 0o755)
	ov := map[string]string{}
	i := 0
	put := func(target, content string) error {
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		ov[target] = p
		return os.WriteFile(p, []byte(content), 0o644)
	}
	for k, v := range n.cs.overlay(n.pkg, n.files) {
		if err := put(k, v); err != nil {
			return "", err
		}
	}
	for k, v := range extra {
		if err := put(k, v); err != nil {
			return "", err
		}
	}
	var fs strings.Builder
	for _, f := range n.files {
		if f.dropped != "" {
			continue
		}
		for _, h := range f.hs {
			fmt.Fprintf(&fs, "\t\t%q: %s,\n", h.fn, h.fn)
		}
	}
	t := strings.ReplaceAll(strings.ReplaceAll(testTemplate, "%PKG%", n.pkg), "%FUNCS%", fs.String())
	if err := put(filepath.Join(*flagRepo, n.pkg, "zz_verif_test.go"), t); err != nil {
		return "", err
	}
	tests, _ := filepath.Glob(filepath.Join(*flagRepo, n.pkg, "*_test.go"))
	for _, tf := range tests {
		if filepath.Base(tf) != "zz_verif_test.go" {
			ov[tf] = ""
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+n.pkg)
	cmd.Dir = *flagRepo
	cmd.Env = n.nativeEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, tail(string(out), 800))
	}
	return bin, nil
}

func (n *native) nativeEnv() []string {
	var env []string
	for _, kv := range n.cs.env {
		if strings.HasPrefix(kv, "CGO_ENABLED=") {
			continue
		}
		env = append(env, kv)
	}
	return env
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// run executes cases and returns the combined output.
func (n *native) run(bin string, cases []map[string]any, ms int, env ...string) string {
	f := filepath.Join(n.cs.scratch, "cases.json")
	b, _ := json.Marshal(cases)
	os.WriteFile(f, b, 0o644)
	home := filepath.Join(n.cs.scratch, "home")
	os.MkdirAll(home, 0o755)
	cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.timeout", fmt.Sprintf("%dms", ms), "-test.v")
	cmd.Dir = home
	cmd.Env = append(append([]string{}, n.nativeEnv()...), "VERIF_REPLAY="+f, "HOME="+home)
	cmd.Env = append(cmd.Env, env...)
	done := make(chan struct{})
	var out []byte
	go func() {
		out, _ = cmd.CombinedOutput()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(ms+15000) * time.Millisecond):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
		return string(out) + "\ntest timed out (killed)"
	}
	return string(out)
}

func (n *native) caseOf(h *harness, cfg *HCfg, in []InputVal) map[string]any {
	var ins []map[string]string
	for _, x := range in {
		ins = append(ins, map[string]string{"Name": x.Name, "V": x.V})
	}
	return map[string]any{"Harness": h.fn, "Inputs": ins, "Params": cfg.params}
}

// confirm replays a counterexample against the compiled code.
func (n *native) confirm(h *harness, cfg *HCfg, v *Violation) (bool, string) {
	if n.build() != nil {
		return cfg.conc, "native build unavailable"
	}
	last := ""
	ms := cfg.nativeMS
	if v.Kind == "deadlock" && ms > 5000 {
		ms = 5000
	}
	for i := 0; i < cfg.nativeTries; i++ {
		out := n.run(n.bin, []map[string]any{n.caseOf(h, cfg, v.Inputs)}, ms)
		last = out
		if ok, how := violated(out, v); ok {
			return true, how
		}
	}
	if strings.Contains(last, "VERIF-ASSUME-FAILED") {
		return false, "not reproduced (a harness assumption failed natively)"
	}
	return false, "not reproduced by " + strconv.Itoa(cfg.nativeTries) + " native runs: " + tail(strings.TrimSpace(last), 300)
}

func violated(out string, v *Violation) (bool, string) {
	if i := strings.Index(out, "VERIF-VIOLATION: "); i >= 0 {
		l, _, _ := strings.Cut(out[i:], "\n")
		return true, "reproduced: " + l
	}
	if i := strings.Index(out, "test timed out"); i >= 0 {
		if v.Kind == "deadlock" || v.Kind == "nontermination" {
			return true, "reproduced: the call does not return"
		}
		return false, "timed out"
	}
	if i := strings.Index(out, "VERIF-PANIC: "); i >= 0 {
		l, _, _ := strings.Cut(out[i:], "\n")
		return true, "reproduced: " + l
	}
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(out, m); i >= 0 {
			l, _, _ := strings.Cut(out[i:], "\n")
			return true, "reproduced: " + l
		}
	}
	if strings.Contains(out, "VERIF-CASE: 0") && !strings.Contains(out, "VERIF-DONE") && !strings.Contains(out, "VERIF-ASSUME-FAILED") {
		return true, "reproduced: the process exits"
	}
	return false, ""
}

// validate runs sampled complete paths natively and compares what they observe.
func (n *native) validate(h *harness, cfg *HCfg, samples []*PathSample, rep *harnessReport) {
	if n.build() != nil {
		return
	}
	if cfg.conc && len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	var cases []map[string]any
	for _, s := range samples {
		cases = append(cases, n.caseOf(h, cfg, s.Inputs))
	}
	out := n.run(n.bin, cases, 60000)
	parts := regexp.MustCompile(`VERIF-CASE: \d+\n`).Split(out, -1)
	if len(parts) > 0 {
		parts = parts[1:]
	}
	for i, s := range samples {
		if i >= len(parts) {
			rep.NativeBad = append(rep.NativeBad, fmt.Sprintf("sample %d did not run: %s", i, tail(out, 300)))
			break
		}
		p := parts[i]
		var obs []string
		for _, l := range strings.Split(p, "\n") {
			if j := strings.Index(l, "VERIF-OBSERVE: "); j >= 0 {
				obs = append(obs, l[j+len("VERIF-OBSERVE: "):])
			}
		}
		bad := ""
		switch {
		case strings.Contains(p, "VERIF-VIOLATION"), strings.Contains(p, "VERIF-PANIC"):
			bad = "native run violates: " + tail(strings.TrimSpace(p), 400)
		case strings.Contains(p, "VERIF-ASSUME-FAILED"):
			if !cfg.realMode {
				bad = "assumption failed natively"
			} else {
				debugf("sample leaves the assumptions natively: %s\n", inputsText(s.Inputs))
				continue
			}
		case !strings.Contains(p, "VERIF-DONE"):
			bad = "native run did not finish: " + tail(strings.TrimSpace(p), 300)
		case !cfg.conc && s.Exact && !cfg.realMode && strings.Join(obs, "\n") != strings.Join(s.Observe, "\n"):
			bad = fmt.Sprintf("observed %v, engine predicts %v", obs, s.Observe)
		}
		if bad != "" {
			if cfg.realMode { // real arithmetic: borderline rounding may differ
				rep.Notes["native run differs from the real-arithmetic model"]++
				debugf("real-mode difference: %s %s\n", bad, inputsText(s.Inputs))
				continue
			}
			rep.NativeBad = append(rep.NativeBad, bad+" inputs "+inputsText(s.Inputs))
			n.cs.note("%s: ENGINE/NATIVE DISAGREEMENT: %s inputs %s", h.fn, bad, inputsText(s.Inputs))
			continue
		}
		rep.Native++
	}
}

func resetSolverStats() { stats = solverStats{} }

func readSolverStats() (int64, time.Duration, int64) {
	return stats.queries, time.Duration(stats.nanos), stats.unknown
}

// touched lists the repository functions that were executed symbolically.
func (e *Engine) touched() map[string]bool {
	r := map[string]bool{}
	for _, c := range e.codes {
		if c.repo && c.touched != 0 && !strings.Contains(e.prog.Fset.Position(c.fn.Pos()).Filename, "zz_verif_") {
			r[c.name] = true
		}
	}
	return r
}
