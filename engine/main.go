package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/32bitkid/mpeg"
const zz = "zzverif"

type harnessDecl struct {
	name  string // function name
	prop  string
	pkg   string // directory below harness/
	opts  map[string]string
	doc   string
	bound string
}

type App struct {
	repo, verif string
	tmp         string
	thorough    bool
	seed        int
	verbose     int
	overlay     map[string]string // repo path -> verif path
	decls       []harnessDecl
	env         []string

	binMu   sync.Mutex
	bins    map[string]string // "" / "race"
	binErrs map[string]error
	pkgsFor []string
	all     bool
}

func shortFile(s string) string {
	if i := strings.Index(s, "/pkg/mod/"); i >= 0 {
		return s[i+9:]
	}
	if i := strings.Index(s, "/go/src/"); i >= 0 {
		return s[i+8:]
	}
	return strings.TrimPrefix(strings.TrimPrefix(s, "/repo/"), "/verif/")
}

var declRE = regexp.MustCompile(`^func H_([A-Z][0-9]+)_(\w+)\(\)`)

// scanHarnesses reads the harness sources for declarations and directives
// ("// sym:steps 1000000").
func (a *App) scanHarnesses() error {
	root := filepath.Join(a.verif, "harness")
	a.overlay = map[string]string{}
	return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		a.overlay[filepath.Join(a.repo, zz, rel)] = p
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		opts := map[string]string{}
		doc := []string{}
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "// sym:"):
				f := strings.SplitN(strings.TrimPrefix(l, "// sym:"), " ", 2)
				v := ""
				if len(f) > 1 {
					v = strings.TrimSpace(f[1])
				}
				opts[f[0]] = v
			case strings.HasPrefix(l, "//"):
				doc = append(doc, strings.TrimSpace(strings.TrimPrefix(l, "//")))
			default:
				if m := declRE.FindStringSubmatch(l); m != nil {
					a.decls = append(a.decls, harnessDecl{name: "H_" + m[1] + "_" + m[2], prop: m[1], pkg: filepath.Dir(rel), opts: opts, doc: strings.Join(doc, " ")})
				}
				opts, doc = map[string]string{}, nil
			}
		}
		return nil
	})
}

func (a *App) goEnv() []string {
	var out []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "CGO_ENABLED", "GOWORK", "GO111MODULE":
			continue
		}
		out = append(out, kv)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

func (a *App) load(pkgDirs []string) (*Program, map[string]*ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range a.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     a.repo,
		Env:     append(a.goEnv(), "CGO_ENABLED=0"),
		Overlay: ov,
		Fset:    token.NewFileSet(),
	}
	pats := []string{modPath + "/" + zz + "/sym", "errors"}
	for _, d := range pkgDirs {
		pats = append(pats, modPath+"/"+zz+"/"+d)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, symT: map[string]types.Type{}, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	sp := P.pkgs[symPath]
	if sp == nil {
		return nil, nil, fmt.Errorf("sym package missing")
	}
	for _, n := range []string{"RuntimeError", "WrapError"} {
		P.symT[n] = sp.Type(n).Type()
	}
	out := map[string]*ssa.Package{}
	for _, d := range pkgDirs {
		out[d] = P.pkgs[modPath+"/"+zz+"/"+d]
	}
	return P, out, nil
}

// ---- native replay ----

type replayCase struct {
	Harness  string            `json:"harness"`
	Assign   map[string]uint64 `json:"assign"`
	Choices  map[string]uint64 `json:"choices"`
	Thorough bool              `json:"thorough"`
}

func (a *App) genReplay() (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"runtime\"\n\n\t\"" + symPath + "\"\n")
	for _, d := range a.pkgsFor {
		fmt.Fprintf(&sb, "\th_%s \"%s/%s/%s\"\n", strings.ReplaceAll(d, "/", "_"), modPath, zz, d)
	}
	sb.WriteString(")\n\nvar table = map[string]func(){\n")
	for _, h := range a.decls {
		for _, d := range a.pkgsFor {
			if h.pkg == d {
				fmt.Fprintf(&sb, "\t%q: h_%s.%s,\n", h.name, strings.ReplaceAll(d, "/", "_"), h.name)
			}
		}
	}
	sb.WriteString(`}

type kase struct {
	Harness  string
	Assign   map[string]uint64
	Choices  map[string]uint64
	Thorough bool
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []kase
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	for i, c := range cs {
		fmt.Printf("CASE %d\n", i)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		sym.Reset(c.Assign, c.Choices, c.Thorough)
		end := sym.Run(table[c.Harness])
		runtime.ReadMemStats(&m1)
		fmt.Println(end)
		if l := sym.Alloc(); l > 0 && m1.TotalAlloc-m0.TotalAlloc > uint64(l) {
			fmt.Printf("ALLOC-EXCEEDED %d\n", m1.TotalAlloc-m0.TotalAlloc)
		}
		fmt.Printf("END %d\n", i)
	}
}
`)
	p := filepath.Join(a.tmp, "replay_main.go")
	return p, os.WriteFile(p, []byte(sb.String()), 0o644)
}

func (a *App) bin(race bool) (string, error) {
	a.binMu.Lock()
	defer a.binMu.Unlock()
	key := ""
	if race {
		key = "race"
	}
	if b, ok := a.bins[key]; ok {
		return b, a.binErrs[key]
	}
	main, err := a.genReplay()
	if err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(a.repo, zz, "replay", "main.go"): main}
	for k, v := range a.overlay {
		rep[k] = v
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(a.tmp, "overlay.json")
	os.WriteFile(ov, ovb, 0o644)
	out := filepath.Join(a.tmp, "replay"+key)
	args := []string{"build", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, modPath+"/"+zz+"/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = a.repo
	cmd.Env = a.goEnv()
	if b, e := cmd.CombinedOutput(); e != nil {
		err = fmt.Errorf("replay build: %v\n%s", e, b)
	}
	a.bins[key], a.binErrs[key] = out, err
	return out, err
}

// native runs cases in one process. The output is split per case; timeouts
// and crashes leave the last case unfinished.
type nativeOut struct {
	lines    []string
	finished bool
}

func (a *App) native(cases []replayCase, race bool, to time.Duration, procs int) ([]nativeOut, string, error) {
	bin, err := a.bin(race)
	if err != nil {
		return nil, "", err
	}
	f, err := os.CreateTemp(a.tmp, "case*.json")
	if err != nil {
		return nil, "", err
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(cases)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name())
	cmd.WaitDelay = time.Second
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB")
	if procs > 0 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(procs))
	}
	var so, se limBuf
	cmd.Stdout, cmd.Stderr = &so, &se
	rerr := cmd.Run()
	out := make([]nativeOut, len(cases))
	cur := -1
	sc := bufio.NewScanner(bytes.NewReader(so.Bytes()))
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "CASE ") {
			cur, _ = strconv.Atoi(l[5:])
			continue
		}
		if strings.HasPrefix(l, "END ") {
			out[cur].finished = true
			cur = -1
			continue
		}
		if cur >= 0 {
			out[cur].lines = append(out[cur].lines, l)
		}
	}
	st := se.String()
	if ctx.Err() != nil {
		st += "\nTIMEOUT"
	} else if rerr != nil {
		st += "\nEXIT " + rerr.Error()
	}
	return out, st, nil
}

type limBuf struct{ bytes.Buffer }

func (l *limBuf) Write(p []byte) (int, error) {
	if l.Len() < 64<<20 {
		l.Buffer.Write(p)
	}
	return len(p), nil
}

// confirm replays a violation against the compiled repository.
func (a *App) confirm(v *Violation) bool {
	c := []replayCase{{v.Harness, v.Assign, v.Choices, a.thorough}}
	tries := 1
	to := 20 * time.Second
	switch v.Kind {
	case "race":
		tries = 6
	case "nontermination":
		to = 10 * time.Second
	}
	if v.multi {
		if tries < 40 {
			tries = 40
		}
		if v.Kind != "race" {
			to = 5 * time.Second
		}
	}
	start := time.Now()
	for i := 0; i < tries; i++ {
		if time.Since(start) > 60*time.Second {
			break
		}
		procs := 0
		switch i % 4 {
		case 1:
			procs = 1
		case 2:
			procs = 2
		}
		out, se, err := a.native(c, v.Kind == "race", to, procs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return false
		}
		txt := strings.Join(out[0].lines, "\n")
		hit := false
		switch v.Kind {
		case "assert":
			for _, l := range out[0].lines {
				if l == "ASSERT-FAIL "+v.Label {
					hit = true
				}
			}
		case "panic":
			hit = strings.Contains(txt, "PANIC") || strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:")
		case "nontermination":
			hit = strings.Contains(se, "TIMEOUT") || strings.Contains(se, "out of memory") || strings.Contains(se, "signal: killed")
		case "deadlock":
			hit = strings.Contains(se, "TIMEOUT") || strings.Contains(se, "deadlock")
		case "race":
			hit = strings.Contains(se, "DATA RACE")
		case "excessive allocation":
			hit = strings.Contains(txt, "ALLOC-EXCEEDED") || strings.Contains(txt, "PANIC") || strings.Contains(se, "out of memory") || strings.Contains(se, "fatal error")
		}
		if hit {
			v.nativeOut = tail(txt, 600)
			return true
		}
		if i == 0 {
			v.nativeOut = tail(txt+"\n"+se, 1500)
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- known findings ----

type finding struct {
	prop, harness, kind, label, what string
}

var findRE = regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) kind=(\S+) label="([^"]*)" (.*)$`)

func (a *App) findings() []finding {
	var out []finding
	b, _ := os.ReadFile(filepath.Join(a.verif, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if m := findRE.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4], m[5]})
		}
	}
	return out
}

// ---- running ----

func optInt(o map[string]string, k string, thorough bool, def int) int {
	if thorough {
		if v, ok := o[k+"-thorough"]; ok {
			n, _ := strconv.Atoi(v)
			return n
		}
	}
	if v, ok := o[k]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return def
}

type harnessResult struct {
	d    harnessDecl
	ex   *Explorer
	wall time.Duration
	validated, mismatches int
	mismatchNotes         []string
	unfinished            int
}

func (a *App) runHarness(P *Program, pkg *ssa.Package, d harnessDecl, budget time.Duration, fs []finding, workers int) (*harnessResult, error) {
	fn := pkg.Func(d.name)
	if fn == nil {
		return nil, fmt.Errorf("no function %s", d.name)
	}
	to := time.Duration(optInt(d.opts, "timeout", a.thorough, int(budget/time.Second))) * time.Second
	if to > budget {
		to = budget
	}
	cfg := Config{
		Workers:    workers,
		StepLimit:  optInt(d.opts, "steps", a.thorough, 2000000),
		Timeout:    to,
		QueryTO:    time.Duration(optInt(d.opts, "query", a.thorough, 20)) * time.Second,
		AllocLimit: optInt(d.opts, "alloc", a.thorough, 1<<24),
		MaxPaths:   optInt(d.opts, "paths", a.thorough, 0),
		Thorough:   a.thorough,
		Verbose:    a.verbose,
		KeepModels: optInt(d.opts, "models", a.thorough, 200),
		Known: func(v *Violation) string {
			for _, f := range fs {
				if f.prop == d.prop && f.harness == d.name && f.kind == strings.ReplaceAll(v.Kind, " ", "-") && f.label == v.Label {
					return f.what
				}
			}
			return ""
		},
		Confirm: a.confirm, ContinueAfter: a.all,
	}
	ex := NewExplorer(P, P.Func(fn), d.name, cfg)
	start := time.Now()
	ex.Run()
	r := &harnessResult{d: d, ex: ex, wall: time.Since(start)}
	a.validate(r)
	return r, nil
}

// validate replays path models natively and compares the observations.
func (a *App) validate(r *harnessResult) {
	pms := r.ex.pathModels
	if len(pms) == 0 {
		return
	}
	cases := make([]replayCase, len(pms))
	for i, pm := range pms {
		cases[i] = replayCase{r.d.name, pm.Assign, pm.Choices, a.thorough}
	}
	for off := 0; off < len(cases); {
		out, se, err := a.native(cases[off:], false, 60*time.Second, 0)
		if err != nil {
			r.mismatches++
			r.mismatchNotes = append(r.mismatchNotes, err.Error())
			return
		}
		n := 0
		for i := range out {
			if !out[i].finished {
				break
			}
			n++
			a.compare(r, pms[off+i], out[i].lines)
		}
		if n == len(out) {
			return
		}
		// the next case did not finish
		r.unfinished++
		if !pms[off+n].Multi {
			r.mismatches++
		}
		r.mismatchNotes = append(r.mismatchNotes, "unfinished native run: "+tail(se, 500)+fmt.Sprint(pms[off+n].Assign))
		if r.unfinished >= 2 {
			return
		}
		off += n + 1
	}
}

func (a *App) compare(r *harnessResult, pm PathModel, lines []string) {
	var obs []string
	bad := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		} else if strings.HasPrefix(l, "ASSERT-FAIL") || strings.HasPrefix(l, "PANIC") || strings.HasPrefix(l, "ASSUME-FALSE") {
			if lab := strings.TrimPrefix(l, "ASSERT-FAIL "); lab != l {
				known := false
				for _, v := range r.ex.violations {
					if v.Label == lab && v.known != "" {
						known = true
					}
				}
				if known {
					continue
				}
			}
			bad = l
		}
	}
	if bad == "" && !pm.Multi && strings.Join(obs, "\n") != strings.Join(pm.Obs, "\n") {
		bad = fmt.Sprintf("observations differ: engine %v native %v", clip(pm.Obs, obs), clip(obs, pm.Obs))
	}
	if bad == "" {
		if len(pm.Obs) > 0 && strings.Join(obs, "\n") == strings.Join(pm.Obs, "\n") || len(pm.Obs) == 0 && !pm.Multi {
			r.validated++
		}
		return
	}
	if pm.Multi {
		return // the native run took a schedule of its own
	}
	r.mismatches++
	if len(r.mismatchNotes) < 3 {
		r.mismatchNotes = append(r.mismatchNotes, bad+" with "+fmt.Sprint(pm.Assign)+fmt.Sprint(pm.Choices))
	}
}

func clip(x, y []string) []string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	j := i + 4
	if j > len(x) {
		j = len(x)
	}
	return x[i:j]
}

func main() {
	os.Exit(run())
}

func run() int {
	a := &App{bins: map[string]string{}, binErrs: map[string]error{}}
	fl := flag.NewFlagSet("engine", flag.ExitOnError)
	fl.StringVar(&a.repo, "repo", "/repo", "")
	fl.StringVar(&a.verif, "verif", "/verif", "")
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fl.String("h", "", "only harnesses with this suffix")
	replay := fl.String("replay", "", "replay a violation file natively")
	budget := fl.Int("budget", 0, "seconds for the whole check")
	workers := fl.Int("workers", runtime.NumCPU(), "")
	fl.BoolVar(&a.all, "all", false, "do not stop at the first violation")
	cpuprof := fl.String("cpuprofile", "", "")
	fl.IntVar(&a.verbose, "v", 0, "")
	fl.Parse(os.Args[1:])
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	a.thorough = *tier == "thorough"
	a.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	var err error
	a.tmp, err = os.MkdirTemp("", "verifengine")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(a.tmp)
	if err := a.scanHarnesses(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if *replay != "" {
		return a.replayFile(*replay)
	}
	rc := 0
	for _, p := range fl.Args() {
		if c := a.check(p, *only, *budget, *workers); c > rc {
			rc = c
		}
	}
	return rc
}

func (a *App) replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	a.thorough = v.Thorough
	for _, d := range a.decls {
		if d.name == v.Harness {
			a.pkgsFor = []string{d.pkg}
		}
	}
	if a.confirm(&v) {
		fmt.Printf("reproduced: %s %s\n%s\n", v.Kind, v.Label, v.nativeOut)
		return 1
	}
	fmt.Printf("not reproduced: %s %s\n%s\n", v.Kind, v.Label, v.nativeOut)
	return 0
}

func (a *App) check(prop, only string, budgetS, workers int) int {
	start := time.Now()
	var ds []harnessDecl
	dirs := map[string]bool{}
	for _, d := range a.decls {
		if d.prop != prop {
			continue
		}
		if _, t := d.opts["thorough"]; t && !a.thorough && only == "" {
			continue
		}
		if only != "" && !strings.HasSuffix(d.name, "_"+only) {
			continue
		}
		ds = append(ds, d)
		dirs[d.pkg] = true
	}
	if len(ds) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	a.pkgsFor = nil
	for d := range dirs {
		a.pkgsFor = append(a.pkgsFor, d)
	}
	sort.Strings(a.pkgsFor)
	a.bins, a.binErrs = map[string]string{}, map[string]error{}
	go a.bin(false)
	P, pk, err := a.load(a.pkgsFor)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(start)
	if budgetS == 0 {
		budgetS = 240
		if a.thorough {
			budgetS = 780
		}
	}
	end := start.Add(time.Duration(budgetS) * time.Second)
	fs := a.findings()
	var rs []*harnessResult
	viols := 0
	rc := 0
	for i, d := range ds {
		left := time.Until(end)
		share := left / time.Duration(len(ds)-i)
		if share*2 < left {
			share *= 2 // most harnesses finish early
		}
		if left < 5*time.Second {
			left, share = 5*time.Second, 5*time.Second
		}
		r, err := a.runHarness(P, pk[d.pkg], d, share, fs, workers)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		rs = append(rs, r)
		ex := r.ex
		fmt.Printf("%s: paths=%d pruned=%d steps=%d queries=%d (unsat %d, unknown %d) solver=%.1fs asserts=%d merges=%d/%d validated=%d wall=%.1fs", d.name, ex.paths, ex.pruned, ex.steps, ex.queries, ex.unsats, ex.unknowns, ex.solverTime.Seconds(), ex.asserts, ex.mergeOK, ex.mergeOK+ex.mergeFail, r.validated, r.wall.Seconds())
		if ex.timedOut {
			fmt.Printf(" TIMED-OUT(left %d)", len(ex.queue))
		}
		fmt.Println()
		if a.verbose > 0 {
			printCounts("reached", ex.reached)
			printCounts("merge abort", ex.abortWhy)
			printCounts("fork", ex.nfork)
		}
		printCounts("  unsupported", ex.unsupp)
		printCounts("  incomplete", ex.incomplete)
		for _, s := range ex.solverErrs {
			fmt.Println("  solver error:", tail(s, 300))
		}
		for _, n := range r.mismatchNotes {
			fmt.Println("  mismatch:", tail(n, 1500))
		}
		if a.verbose > 1 {
			for i, pm := range ex.pathModels {
				if i < 20 {
					fmt.Println("   model", pm.Assign, pm.Choices, pm.Obs)
				}
			}
		}
		for _, v := range ex.violations {
			switch {
			case v.known != "":
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, v.known)
			case !v.confirmed:
				fmt.Printf("  unconfirmed %s %q at %s (not reported)\n", v.Kind, v.Label, v.Where)
				if a.verbose > 0 {
					fmt.Println(v.Assign, v.Choices, v.nativeOut)
				}
			default:
				viols++
				p := a.saveReplay(prop, v)
				fmt.Printf("  %s %q at %s (harness %s)\n", v.Kind, v.Label, v.Where, v.Harness)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
				rc = 1
			}
		}
		if viols > 0 && !a.all {
			break
		}
		if r.mismatches > 0 {
			fmt.Println("  ENCODING-MISMATCH: engine and native execution disagree")
			rc = 2
		}
		// vacuity: a harness that never completes an assertion decides nothing
		if len(ex.reached) == 0 && len(ex.violations) == 0 && !ex.timedOut {
			fmt.Println("  VACUOUS: no witness reached")
			rc = 2
		}
	}
	if only == "" {
		if err := a.evidence(prop, rs, viols, loadT, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if viols > 0 {
		return 1
	}
	return rc
}

func printCounts(what string, m map[string]int) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	for i, k := range ks {
		if i >= 25 {
			break
		}
		fmt.Printf("%s: %s x%d\n", what, k, m[k])
	}
}

func (a *App) saveReplay(prop string, v *Violation) string {
	dir := filepath.Join(a.verif, "replays")
	os.MkdirAll(dir, 0o755)
	v.Thorough = a.thorough
	b, _ := json.MarshalIndent(v, "", " ")
	p := filepath.Join(dir, prop+"_"+v.Harness+".json")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func (a *App) evidence(prop string, rs []*harnessResult, viols int, loadT, wall time.Duration) error {
	states, trans, valid, queries, unsat, sat, unk, asserts := 0, int64(0), 0, 0, 0, 0, 0, 0
	var solver, slow time.Duration
	enc := map[string]bool{}
	var samples []interface{}
	var hs []interface{}
	var reduced []string
	var known []string
	complete := true
	for _, r := range rs {
		ex := r.ex
		states += ex.paths
		trans += ex.steps
		valid += r.validated
		queries += ex.queries
		unsat += ex.unsats
		sat += ex.sats
		unk += ex.unknowns
		asserts += ex.asserts
		solver += ex.solverTime
		if ex.slowest > slow {
			slow = ex.slowest
		}
		for f := range ex.encoded {
			enc[f] = true
		}
		for k, n := range ex.unsupp {
			complete = false
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) stopped: %s", r.d.name, n, k))
		}
		for k, n := range ex.incomplete {
			complete = false
			reduced = append(reduced, fmt.Sprintf("%s: %s (x%d)", r.d.name, k, n))
		}
		if ex.timedOut {
			complete = false
			reduced = append(reduced, fmt.Sprintf("%s: time limit of %s reached after %d paths", r.d.name, ex.cfg.Timeout, ex.paths))
		}
		for _, v := range ex.violations {
			if v.known != "" {
				known = append(known, v.known)
			} else if !v.confirmed {
				complete = false
				reduced = append(reduced, fmt.Sprintf("%s: solver model for %s %q did not reproduce natively and is not reported", r.d.name, v.Kind, v.Label))
			}
		}
		var reach []string
		for k, n := range ex.reached {
			reach = append(reach, fmt.Sprintf("%s x%d", k, n))
		}
		sort.Strings(reach)
		hs = append(hs, map[string]interface{}{
			"harness": r.d.name, "bounds": r.d.opts["bounds"], "what": r.d.doc, "paths": ex.paths, "infeasible_or_cut_paths": ex.pruned,
			"ssa_instructions": ex.steps, "assertions_evaluated": ex.asserts, "queries": ex.queries, "unsat": ex.unsats, "sat": ex.sats, "unknown": ex.unknowns,
			"solver_s": ex.solverTime.Seconds(), "slowest_query_s": ex.slowest.Seconds(), "step_bound_per_path": ex.cfg.StepLimit,
			"path_models_replayed_identically": r.validated, "reach_witnesses": reach, "merged_branches": ex.mergeOK, "wall_s": r.wall.Seconds(), "all_paths_explored": !ex.timedOut && len(ex.unsupp) == 0,
		})
		for i, pm := range ex.pathModels {
			if i < 2 && len(samples) < 12 {
				o := pm.Obs
				if len(o) > 12 {
					o = o[:12]
				}
				samples = append(samples, map[string]interface{}{"harness": r.d.name, "solver_assignment": trim(pm.Assign), "choices": pm.Choices, "observed": o})
			}
		}
	}
	var fns []string
	for f := range enc {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	sort.Strings(reduced)
	tier := "quick"
	if a.thorough {
		tier = "thorough"
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": a.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"states_are": "symbolic paths (each stands for every input satisfying its path condition)", "transitions_are": "SSA instructions executed symbolically",
			"functions_encoded": fns, "harnesses": hs, "queries": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk,
			"solver_s": solver.Seconds(), "slowest_query_s": slow.Seconds(), "solver": "z3-new (SMT-LIB2, QF_BV, one incremental process per worker)",
			"assertions_evaluated": asserts, "exhaustive": complete, "reduced_bounds": reduced, "known_findings_reproduced": known, "load_and_ssa_s": loadT.Seconds(),
		},
		"assumptions": []string{
			"bounds: exactly those of the harnesses listed under coverage.harnesses; nothing is claimed outside them",
			"integer semantics of go/ssa on a 64-bit target; fmt, log, clog, regexp and sync primitives are modelled, bytes/errors helpers written in assembly are replaced by equivalent Go (engine/intrin.go)",
			"goroutine schedules are sequentially consistent, switching at channel operations, locks and goroutine start/end; unsynchronised accesses are reported as races rather than explored",
		},
		"wall_s": wall.Seconds(), "violations": viols,
	}
	dir := filepath.Join(a.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

func trim(m map[string]uint64) map[string]uint64 {
	if len(m) <= 24 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := map[string]uint64{}
	for _, k := range ks[:24] {
		out[k] = m[k]
	}
	return out
}
