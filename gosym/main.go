package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type config struct {
	dirs   map[string]bool
	substs []cfgSubst
	raw    cfgFile
}

type cfgSubst struct {
	dir  string
	re   *regexp.Regexp
	with string
}

type cfgFile struct {
	Rewrite  []string                     `json:"rewrite"`
	Only     map[string][]string          `json:"only"`
	Shim     map[string]map[string]string `json:"shim"`
	Protogen []string                     `json:"protogen"`
	Drop     []string                     `json:"drop"`
	Subst    []struct {
		Dir, Re, With, Why string
	} `json:"subst"`
	Stubs []string `json:"stubs"`
}

func (c *config) rewriteDir(d string) bool { return c.dirs[d] }

func loadConfig(verif string) (*config, error) {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "config.json"))
	if err != nil {
		return nil, err
	}
	c := &config{dirs: map[string]bool{}}
	if err := json.Unmarshal(b, &c.raw); err != nil {
		return nil, err
	}
	for _, d := range c.raw.Rewrite {
		c.dirs[d] = true
	}
	for _, s := range c.raw.Subst {
		c.substs = append(c.substs, cfgSubst{s.Dir, regexp.MustCompile(s.Re), s.With})
	}
	return c, nil
}

// harness is one solver-checked entry point.
type harness struct {
	Name   string // function
	Pkg    string // directory relative to the repository
	File   string
	Props  []string
	Bounds []string
	Reach  []string
	Tier   string
	Steps  int64
	Weight float64
	Hang   int
	Mux    int
	Notes  []string

	grp *group
}

// group is a set of harnesses that run over one encoding.
type group struct {
	key   string
	hs    []*harness
	pkgs  map[string]bool
	ov    *overlay
	work  string
	prog  *Prog
	repCh chan *replayer
	rp    *replayer
}

func (h *harness) id() string { return h.Pkg + "." + h.Name }

func importPath(dir string) string {
	if dir == "." {
		return modPath
	}
	return modPath + "/" + dir
}

// discover reads the harness directives.
func discover(verif string) ([]*harness, map[string]string, error) {
	var hs []*harness
	files := map[string]string{} // harness file -> package dir
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		dir := rel
		if dir == "root" {
			dir = "."
		}
		files[p] = dir
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Doc == nil || !strings.HasPrefix(fd.Name.Name, "Verif") {
				continue
			}
			h := &harness{Name: fd.Name.Name, Pkg: dir, File: p, Weight: 1, Mux: -1}
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "@") {
					continue
				}
				k, v, _ := strings.Cut(t[1:], " ")
				v = strings.TrimSpace(v)
				switch k {
				case "prop":
					h.Props = append(h.Props, strings.Fields(strings.ReplaceAll(v, ",", " "))...)
				case "bound":
					h.Bounds = append(h.Bounds, v)
				case "note":
					h.Notes = append(h.Notes, v)
				case "reach":
					h.Reach = append(h.Reach, strings.Fields(strings.ReplaceAll(v, ",", " "))...)
				case "tier":
					h.Tier = v
				case "steps":
					h.Steps, _ = strconv.ParseInt(v, 10, 64)
				case "hang":
					h.Hang, _ = strconv.Atoi(v)
				case "mux":
					h.Mux, _ = strconv.Atoi(v)
				case "weight":
					h.Weight, _ = strconv.ParseFloat(v, 64)
				}
			}
			if len(h.Props) > 0 {
				hs = append(hs, h)
			}
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].id() < hs[j].id() })
	return hs, files, err
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type finding struct{ prop, id, what string }

func loadFindings(verif string) []finding {
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := finding{}
		rest := strings.Fields(strings.TrimPrefix(l, "finding:"))
		var what []string
		for _, w := range rest {
			switch {
			case strings.HasPrefix(w, "property=") && f.prop == "":
				f.prop = w[9:]
			case strings.HasPrefix(w, "id=") && f.id == "":
				f.id = w[3:]
			default:
				what = append(what, w)
			}
		}
		f.what = strings.Join(what, " ")
		out = append(out, f)
	}
	return out
}

type replayFile struct {
	Harness  string        `json:"harness"`
	Property string        `json:"property"`
	ID       string        `json:"id"`
	Where    string        `json:"where"`
	Msg      string        `json:"msg,omitempty"`
	Thorough bool          `json:"thorough"`
	Inputs   []ReplayInput `json:"inputs"`
}

var thoroughTier bool

type replayer struct {
	bin  string
	dir  string
	repo string
	oj   string
	err  error
}

// run replays natively; want is the expected outcome ("" for a counterexample). Background
// goroutines get more time on each retry.
func (r *replayer) run(rf *replayFile, want string) (kind, id, out string) {
	for _, ms := range []string{"25", "150", "600"} {
		kind, id, out = r.once(rf, ms)
		if want == "" && kind != "ok" || want != "" && kind == "ok" && id == want {
			return
		}
	}
	return
}

// raceBin builds the replay with the race detector.
func (r *replayer) raceBin() string {
	bin := r.bin + "-race"
	if _, err := os.Stat(bin); err != nil {
		cmd := exec.Command("go", "build", "-race", "-overlay", r.oj, "-o", bin, "./server/zz_replay")
		cmd.Dir = r.repo
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=mod")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("race detector build: %v %s\n", err, out)
		}
	}
	return bin
}

// onceRace tells whether the race detector sees the concurrent use of a map.
func (r *replayer) onceRace(rf *replayFile, settle string) (kind, id, out string) {
	b, _ := json.Marshal(rf)
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", time.Now().UnixNano()))
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.raceBin(), f)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "VRT_SETTLE="+settle, "VRT_RACE=1", "GORACE=halt_on_error=0")
	ob, _ := cmd.CombinedOutput()
	out = string(ob)
	if strings.Contains(out, "fatal error: concurrent map") {
		return "panic", "map-race", out
	}
	for _, rep := range strings.Split(out, "==================") {
		if strings.Contains(rep, "WARNING: DATA RACE") && (strings.Contains(rep, "runtime.map") || strings.Contains(rep, "runtime/maps")) {
			return "panic", "map-race", out
		}
	}
	return "other", "no race detected", out
}

func (r *replayer) once(rf *replayFile, settle string) (kind, id, out string) {
	if rf.ID == "map-race" {
		return r.onceRace(rf, settle)
	}
	b, _ := json.Marshal(rf)
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", time.Now().UnixNano()))
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, f)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "VRT_SETTLE="+settle)
	ob, err := cmd.CombinedOutput()
	out = string(ob)
	if ctx.Err() != nil {
		return "hang", "hang", out
	}
	for _, l := range strings.Split(out, "\n") {
		if s, ok := strings.CutPrefix(l, "VRT-FAIL "); ok {
			return "assert", strings.TrimSpace(s), out
		}
		if s, ok := strings.CutPrefix(l, "VRT-ASSUME"); ok {
			return "assume", s, out
		}
		if s, ok := strings.CutPrefix(l, "VRT-MISMATCH"); ok {
			return "mismatch", s, out
		}
		if s, ok := strings.CutPrefix(l, "VRT-OK "); ok && err == nil {
			return "ok", s, out
		}
	}
	if strings.Contains(out, "all goroutines are asleep") {
		return "deadlock", "deadlock", out
	}
	if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") {
		return "panic", "panic", out
	}
	return "other", fmt.Sprint(err), out
}

func buildReplayer(repo string, ov *overlay, hs []*harness, work string) *replayer {
	r := &replayer{dir: work}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + vrtPath + "\"\n")
	pk := map[string]string{}
	for _, h := range hs {
		if _, ok := pk[h.Pkg]; !ok {
			pk[h.Pkg] = fmt.Sprintf("h%d", len(pk))
			fmt.Fprintf(&sb, "\t%s %q\n", pk[h.Pkg], importPath(h.Pkg))
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\tvrt.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.id(), pk[h.Pkg], h.Name)
	}
	sb.WriteString("\t})\n}\n")
	o2 := &overlay{files: map[string][]byte{}}
	for k, v := range ov.files {
		o2.files[k] = v
	}
	o2.files[filepath.Join(repo, "server", "zz_replay", "main.go")] = []byte(sb.String())
	od := filepath.Join(work, "ov")
	os.MkdirAll(od, 0o755)
	oj, err := o2.writeJSON(od)
	if err != nil {
		r.err = err
		return r
	}
	r.bin = filepath.Join(work, "replay")
	r.repo, r.oj = repo, oj
	cmd := exec.Command("go", "build", "-overlay", oj, "-o", r.bin, "./server/zz_replay")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return r
}

type result struct {
	h  *harness
	ex *Explorer
	t  float64
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("harness", "", "run only this harness function")
	budget := flag.Float64("budget", 0, "seconds")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick|thorough")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	list := flag.Bool("list", false, "")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("v", false, "")
	dbg := flag.Bool("debug", false, "")
	noval := flag.Bool("noval", false, "skip native validation")
	prof := flag.String("prof", "", "")
	flag.Parse()
	debugEngine = *dbg
	if *tier == "" {
		*tier = "quick"
	}
	thoroughTier = *tier == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(run(*repo, *verif, *prop, *only, *budget, *tier, *workers, *list, *replay, *verbose, *noval, seed))
}

func die(f string, a ...any) int {
	fmt.Printf("ERROR: "+f+"\n", a...)
	return 2
}

func run(repo, verif, prop, only string, budget float64, tier string, workers int, list bool, replay string, verbose, noval bool, seed int64) int {
	t0 := time.Now()
	cfg, err := loadConfig(verif)
	if err != nil {
		return die("config: %v", err)
	}
	for _, s := range cfg.raw.Stubs {
		stubPkgs[s] = true
	}
	all, files, err := discover(verif)
	if err != nil {
		return die("harness: %v", err)
	}
	if list {
		for _, h := range all {
			fmt.Println(h.id(), h.Props)
		}
		return 0
	}
	var rf *replayFile
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			return die("%v", err)
		}
		rf = &replayFile{}
		if err := json.Unmarshal(b, rf); err != nil {
			return die("%v", err)
		}
		prop = rf.Property
	}
	var hs []*harness
	for _, h := range all {
		if (prop == "" || has(h.Props, prop)) && (only == "" || h.Name == only) && (h.Tier == "" || h.Tier == tier) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return die("no harness for property %q", prop)
	}
	work, err := os.MkdirTemp("", "gosym-"+prop+"-")
	if err != nil {
		return die("%v", err)
	}
	defer os.RemoveAll(work)

	// harness files that scale the same constants share one encoding
	var groups []*group
	for _, h := range hs {
		k := constKey(h.File)
		var g *group
		for _, x := range groups {
			if x.key == k {
				g = x
			}
		}
		if g == nil {
			g = &group{key: k, pkgs: map[string]bool{}}
			groups = append(groups, g)
		}
		g.hs = append(g.hs, h)
		g.pkgs[h.Pkg] = true
		h.grp = g
	}
	for gi, g := range groups {
		ov, err := buildOverlay(repo, verif, cfg)
		if err != nil {
			return die("overlay: %v", err)
		}
		if err := ov.consts(repo, g.key); err != nil {
			return die("overlay: %v", err)
		}
		want := map[string]bool{}
		for _, h := range g.hs {
			want[h.File] = true
		}
		for f, dir := range files {
			if want[f] || g.pkgs[dir] && strings.HasPrefix(filepath.Base(f), "shared_") {
				b, err := os.ReadFile(f)
				if err != nil {
					return die("%v", err)
				}
				if err := ov.rename(repo, dir, b); err != nil {
					return die("%v", err)
				}
				ov.files[filepath.Join(repo, dir, "zz_verif_"+filepath.Base(f))] = b
			}
		}
		g.ov = ov
		g.work = filepath.Join(work, fmt.Sprint("g", gi))
		os.MkdirAll(g.work, 0o755)
	}
	if rf != nil {
		for _, h := range hs {
			if h.id() != rf.Harness {
				continue
			}
			r := buildReplayer(repo, h.grp.ov, h.grp.hs, h.grp.work)
			if r.err != nil {
				return die("%v", r.err)
			}
			kind, id, out := r.run(rf, "")
			fmt.Printf("replay: %s %s\n%s\n", kind, id, out)
		}
		return 0
	}
	for _, g := range groups {
		// the native build runs while the symbolic side works
		g.repCh = make(chan *replayer, 1)
		go func() { g.repCh <- buildReplayer(repo, g.ov, g.hs, g.work) }()
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 2400
		}
	}
	finds := loadFindings(verif)
	known := func(id string) *finding {
		for i := range finds {
			if finds[i].prop == prop && finds[i].id == id {
				return &finds[i]
			}
		}
		return nil
	}
	var results []*result
	deadline := t0.Add(time.Duration(budget * float64(time.Second)))
	var wsum float64
	for _, h := range hs {
		wsum += h.Weight
	}
	stopAll := false
	for _, h := range hs {
		if h.grp.prog == nil {
			var patterns []string
			for d := range h.grp.pkgs {
				patterns = append(patterns, importPath(d))
			}
			patterns = append(patterns, vrtPath)
			sort.Strings(patterns)
			if h.grp.prog, err = loadProg(repo, h.grp.ov, patterns); err != nil {
				return die("%v", err)
			}
		}
		p := h.grp.prog
		sp := p.pkgs[importPath(h.Pkg)]
		fn := sp.Func(h.Name)
		if fn == nil {
			return die("harness function %s missing", h.id())
		}
		ex := newExplorer(p, p.fnOf(fn), seed+1)
		ex.keepGoing = func(id string) bool { return known(id) != nil }
		rem := time.Until(deadline).Seconds()
		ex.deadline = time.Now().Add(time.Duration(rem * h.Weight / wsum * float64(time.Second)))
		wsum -= h.Weight
		if h.Mux >= 0 {
			ex.mux = h.Mux
		}
		if h.Hang > 0 {
			ex.hang, ex.maxDecisions = true, h.Hang
		}
		if h.Steps > 0 {
			ex.stepLimit = h.Steps
		}
		ht := time.Now()
		ex.run(workers)
		r := &result{h, ex, time.Since(ht).Seconds()}
		results = append(results, r)
		fmt.Printf("%s: %s %.1fs\n", h.id(), ex.summary(), r.t)
		if verbose || len(ex.limits) > 0 || len(ex.unknown) > 0 {
			for k, v := range ex.limits {
				fmt.Printf("   limit x%d %s\n", v, k)
			}
			for k, v := range ex.unknown {
				fmt.Printf("   unknown x%d %s\n", v, k)
			}
		}
		if verbose {
			for k, v := range ex.asserts {
				fmt.Printf("   assert %s total=%d symbolic=%d\n", k, v[0], v[1])
			}
			for k, v := range ex.reach {
				fmt.Printf("   reach %s %d\n", k, v)
			}
		}
		for _, v := range ex.viol {
			if verbose {
				fmt.Printf("   candidate %s at %s %s\n", v.ID, v.Where, v.Msg)
			}
			if known(v.ID) == nil && v.ID != "hang" && v.ID != "map-race" {
				stopAll = true
			}
		}
		if stopAll {
			break
		}
	}
	for _, g := range groups {
		g.rp = <-g.repCh
		if g.rp.err != nil {
			return die("%v", g.rp.err)
		}
	}
	// replay counterexamples against the real build
	exit := 0
	var violLines []string
	nviol, unrepro := 0, 0
	knownSeen := map[string]bool{}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	for _, r := range results {
		for _, v := range r.ex.viol {
			rf := &replayFile{Harness: r.h.id(), Property: prop, ID: v.ID, Where: v.Where, Msg: v.Msg, Thorough: thoroughTier, Inputs: v.Inputs}
			kind, id, out := r.h.grp.rp.run(rf, "")
			if kind == "assert" || kind == "panic" || kind == "deadlock" || kind == "hang" {
				if f := known(id); f != nil {
					if !knownSeen[id] {
						knownSeen[id] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
					}
					continue
				}
				nviol++
				path := filepath.Join(evdir, fmt.Sprintf("%s.replay%d.json", prop, nviol))
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(path, b, 0o644)
				fmt.Printf("violation %s in %s at %s %s\n", id, r.h.id(), v.Where, v.Msg)
				if verbose {
					fmt.Println(out)
				}
				violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
			} else if v.ID == "hang" {
				r.ex.limits["step bound reached, native run ends"]++
				r.ex.ends["limit"]++
			} else if v.ID == "map-race" {
				// there is an order between the two uses after all.
				fmt.Printf("concurrent use of a map in %s at %s is not confirmed by the race detector\n", r.h.id(), v.Where)
			} else {
				unrepro++
				fmt.Printf("counterexample for %s in %s did not reproduce natively (%s %s): encoding error\n", v.ID, r.h.id(), kind, id)
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(filepath.Join(evdir, prop+".unreproduced.json"), b, 0o644)
				if verbose {
					fmt.Println("  ", v.Where, v.Msg)
					fmt.Println(out)
				}
			}
		}
	}
	validated, disagreed := 0, 0
	if !noval && nviol == 0 {
		for _, r := range results {
			for _, s := range r.ex.samples {
				rf := &replayFile{Harness: r.h.id(), Property: prop, Thorough: thoroughTier, Inputs: s.Inputs}
				want := fmt.Sprintf("asserts=%d reach=%s", s.N, strings.Join(s.Reach, ","))
				kind, id, out := r.h.grp.rp.run(rf, want)
				if kind == "ok" && id == want {
					validated++
					continue
				}
				disagreed++
				fmt.Printf("native run disagrees with the encoding for %s: native %s %q, encoding %q\n", r.h.id(), kind, id, want)
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(filepath.Join(evdir, prop+".disagree.json"), b, 0o644)
				if verbose {
					fmt.Println(out)
				}
			}
		}
	}
	if nviol > 0 {
		exit = 1
	} else if unrepro > 0 {
		exit = 2
	} else {
		for _, r := range results {
			for _, w := range r.h.Reach {
				if r.ex.reach[w] == 0 {
					fmt.Printf("ERROR: vacuous: %s never reached %q\n", r.h.id(), w)
					exit = 2
				}
			}
		}
		if disagreed > 0 {
			fmt.Printf("ERROR: %d native runs disagree with the encoding\n", disagreed)
			exit = 2
		}
	}
	writeEvidence(verif, prop, tier, seed, results, cfg, validated, nviol, len(knownSeen), time.Since(t0).Seconds())
	for _, l := range violLines {
		fmt.Println(l)
	}
	fmt.Printf("%s: exit %d after %.1fs, %d solver queries (%.1fs solver time)\n", prop, exit, time.Since(t0).Seconds(), sstats.queries, float64(sstats.nanos)/1e9)
	return exit
}

func writeEvidence(verif, prop, tier string, seed int64, results []*result, cfg *config, validated, nviol, nknown int, wall float64) {
	var states, trans, steps int64
	fnset := map[string]bool{}
	exhaustive := true
	hs := []map[string]any{}
	var samples []any
	var assume []string
	for _, r := range results {
		states += r.ex.paths
		trans += r.ex.branches
		steps += r.ex.steps
		if !r.ex.exhaustive() {
			exhaustive = false
		}
		for f := range r.ex.entered {
			if f.fn != nil && f.intr == nil {
				pk := fnPkgPath(f.fn)
				if repoPkg(pk) && !strings.HasPrefix(pk, shimRoot) {
					pos := r.h.grp.prog.fset.Position(f.fn.Pos())
					if strings.Contains(pos.Filename, "zz_verif_") {
						continue
					}
					fnset[f.name] = true
				}
			}
		}
		as := map[string]any{}
		for k, v := range r.ex.asserts {
			as[k] = map[string]int64{"checked": v[0], "symbolic": v[1]}
		}
		h := map[string]any{"harness": r.h.id(), "bounds": r.h.Bounds, "paths": r.ex.paths, "branches": r.ex.branches, "path_ends": r.ex.ends, "assertions": as, "reached": r.ex.reach, "exhaustive_within_bounds": r.ex.exhaustive(), "seconds": r.t, "max_decisions_on_a_path": r.ex.maxDepth}
		if r.ex.trunc != "" {
			h["truncated"] = r.ex.trunc
			h["unexplored_branches"] = len(r.ex.queue)
		}
		if len(r.ex.unknown) > 0 {
			h["solver_unknown"] = r.ex.unknown
		}
		if len(r.ex.limits) > 0 {
			h["cut_paths"] = r.ex.limits
		}
		hs = append(hs, h)
		assume = append(assume, r.h.Notes...)
		for i, s := range r.ex.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.h.id(), "inputs": shortInputs(s.Inputs), "reached": s.Reach})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no complete path in this run")
	}
	var fns []string
	for f := range fnset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, s := range cfg.raw.Subst {
		assume = append(assume, fmt.Sprintf("constant shrunk in %s: %s (%s)", s.Dir, s.With, s.Why))
	}
	assume = append(assume, "the file system, clock, randomness, logging and compression packages are replaced by Go models under /verif/shims, identically for the symbolic and the native runs",
		"goroutines are scheduled cooperatively; background tickers do not fire by themselves")
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":               "states: feasible symbolic paths executed; transitions: solver-decided branches forked; traces_validated_against_impl: explored paths re-run natively with the solver's model, same assertions and same witnesses",
			"exhaustive":                exhaustive,
			"harnesses":                 hs,
			"functions_encoded":         fns,
			"interpreted_instructions":  steps,
			"solver":                    map[string]any{"queries": sstats.queries, "sat": sstats.sat, "unsat": sstats.unsat, "unknown": sstats.unknown, "fallbacks": sstats.fallbacks, "errors": sstats.errors, "seconds": float64(sstats.nanos) / 1e9, "engine": "z3 5.3.2 incremental, z3/cvc5 portfolio fallback"},
			"known_findings_reproduced": nknown,
		},
		"assumptions": assume,
		"wall_s":      wall,
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

func shortInputs(in []ReplayInput) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 60 {
			fmt.Fprintf(&sb, " …(%d more)", len(in)-i)
			break
		}
		fmt.Fprintf(&sb, "%s=%d ", x.Name, x.Val)
	}
	return strings.TrimSpace(sb.String())
}
