package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// HarnessSpec is one harness of a check as written in checks.json.
type HarnessSpec struct {
	Entry    string         `json:"entry"`
	What     string         `json:"what"`
	Bounds   string         `json:"bounds"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	QuickS   int            `json:"quick_s"`
	ThorS    int            `json:"thorough_s"`
	SkipQ    bool           `json:"thorough_only"`
	Steps    int64          `json:"steps"`
	NoTrace  bool           `json:"no_native_traces"`
	Kinds    []string       `json:"kinds"` // violation kinds this harness reports (default: all)
}

type CheckSpec struct {
	Level     string        `json:"level"`
	Harnesses []HarnessSpec `json:"harnesses"`
}

type knownFinding struct{ prop, entry, key string }

var knownRe = regexp.MustCompile(`^known: property=(\S+) entry=(\S+) violation="([^"]*)"`)

func readKnown(path string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return
}

type harnessReport struct {
	Entry          string         `json:"entry"`
	What           string         `json:"what"`
	Bounds         string         `json:"bounds"`
	Params         map[string]int `json:"params"`
	Exhausted      bool           `json:"all_paths_within_bounds_explored"`
	Paths          int64          `json:"paths"`
	Ended          map[string]int `json:"paths_by_end"`
	Decisions      int64          `json:"decisions"`
	Instructions   int64          `json:"instructions"`
	Queries        int            `json:"solver_queries"`
	Sat            int            `json:"sat"`
	Unsat          int            `json:"unsat"`
	Unknown        int            `json:"unknown"`
	SolverS        float64        `json:"solver_s"`
	AssertSolver   int64          `json:"assertions_decided_by_solver"`
	AssertTrivial  int64          `json:"assertions_decided_by_simplification"`
	Assertions     map[string]int `json:"assertions"`
	Covers         map[string]int `json:"covers"`
	Notes          map[string]int `json:"notes,omitempty"`
	TargetFuncs    []string       `json:"functions_encoded"`
	LibFuncs       int            `json:"library_functions_encoded"`
	TracesReplayed int            `json:"paths_replayed_natively"`
	TracesAgreed   int            `json:"paths_agreeing_with_native_run"`
	Mismatch       []string       `json:"native_mismatches,omitempty"`
	WallS          float64        `json:"wall_s"`
	Violations     []string       `json:"violations,omitempty"`
	Unconfirmed    []string       `json:"unconfirmed,omitempty"`
	Error          string         `json:"error,omitempty"`
}

func cmdCheck(repo, verif string, argv []string) {
	t0 := time.Now()
	if len(argv) < 1 {
		fatalf("usage: symgo check ID [quick|thorough]")
	}
	id := argv[0]
	tier := os.Getenv("VERIF_TIER")
	if len(argv) > 1 {
		tier = argv[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	only := ""
	if len(argv) > 2 {
		only = argv[2]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var specs map[string]CheckSpec
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fatalf("checks.json: %v", err)
	}
	spec, ok := specs[id]
	if !ok {
		fatalf("no check for %s", id)
	}
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	scratch, err := os.MkdirTemp("", "symgo-"+id+"-")
	if err != nil {
		fatalf("%v", err)
	}
	code := 2
	defer func() {
		os.RemoveAll(scratch)
		os.Exit(code)
	}()
	p, harness, dropped, err := loadRobust(repo, verif, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	if len(dropped) > 0 {
		fmt.Println("note: does not compile against this tree and is left out of the harness:", strings.Join(dropped, ", "))
	}
	loadS := time.Since(t0).Seconds()
	rp := newReplayer(repo, verif, scratch)
	rp.harness = harness
	replayDir := filepath.Join(verif, "evidence", "replay", id)
	os.RemoveAll(replayDir)
	var reports []harnessReport
	nviol := 0
	var samples []interface{}
	var states, trans int64
	validated := 0
	for _, h := range spec.Harnesses {
		if h.SkipQ && tier == "quick" {
			continue
		}
		if only != "" && only != h.Entry {
			continue
		}
		args := map[string]int{}
		for k, v := range h.Quick {
			args[k] = v
		}
		budget := h.QuickS
		if budget == 0 {
			budget = 60
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				args[k] = v
			}
			budget = h.ThorS
			if budget == 0 {
				budget = 600
			}
		}
		rep := harnessReport{Entry: h.Entry, What: h.What, Bounds: h.Bounds, Params: args}
		if left := quickTotal - int(time.Since(t0).Seconds()); tier == "quick" && left < budget {
			if left < 5 {
				rep.Error = "no time left"
				fmt.Printf("note: %s: no time left: undecided\n", h.Entry)
				reports = append(reports, rep)
				continue
			}
			budget = left
		}
		fn := p.entry(h.Entry)
		if fn == nil {
			rep.Error = "harness not available on this tree"
			fmt.Printf("note: %s: harness not available on this tree: undecided\n", h.Entry)
			reports = append(reports, rep)
			continue
		}
		steps := h.Steps
		if steps == 0 {
			steps = 30000000
		}
		ht := time.Now()
		maxTraces := 6
		if tier == "thorough" {
			maxTraces = 24
		}
		if h.NoTrace {
			maxTraces = 0
		}
		ex := &Explorer{prog: p, entry: fn, cfg: Config{Workers: runtime.NumCPU(), Budget: time.Duration(budget) * time.Second,
			MaxSteps: steps, SolverBin: solverBin(), SolverMs: 20000, MaxDepth: 400, Args: args, MaxTraces: maxTraces}}
		ex.run()
		rep.WallS = time.Since(ht).Seconds()
		rep.Paths, rep.Ended, rep.Decisions, rep.Instructions = ex.paths, ex.ended, ex.decs, ex.steps
		rep.Queries, rep.Sat, rep.Unsat, rep.Unknown = ex.stats.Queries, ex.stats.Sat, ex.stats.Unsat, ex.stats.Unknown
		rep.SolverS = ex.stats.Time.Seconds()
		rep.AssertSolver, rep.AssertTrivial = ex.nChecks, ex.nTriv
		rep.Assertions, rep.Covers, rep.Notes = ex.asserts, ex.labels, ex.notes
		for f := range ex.funcs {
			if strings.Contains(f, "github.com/zyxar/socketio") && !strings.Contains(f, "ZZ") && !strings.Contains(f, "zz") {
				rep.TargetFuncs = append(rep.TargetFuncs, f)
			} else {
				rep.LibFuncs++
			}
		}
		sort.Strings(rep.TargetFuncs)
		bad := rep.Ended["unsupported"] + rep.Ended["internal"] + rep.Ended["unknown"] + rep.Ended["steps"] + rep.Ended["depth"] + rep.Ended["late"]
		rep.Exhausted = !ex.timeout && bad == 0 && ex.dropped == 0 && len(ex.alts) == 0
		states += ex.decs + ex.paths
		trans += ex.steps
		// violations
		for i, v := range sortedViol(ex) {
			key := v.Kind + ":" + v.Label
			if len(h.Kinds) > 0 && !contains(h.Kinds, v.Kind) {
				continue
			}
			file := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", h.Entry, i))
			saveReplay(file, id, h.Entry, args, v)
			native := rp.replay(h.Entry, v, args)
			v.Native = native
			confirmed := strings.HasPrefix(native, "reproduced")
			if !confirmed && len(v.Choices) == 0 && v.Kind != "race" {
				// a single-threaded counterexample that the real build does not show
				rep.Unconfirmed = append(rep.Unconfirmed, key+" ("+native+")")
				fmt.Printf("note: %s: counterexample %q does not reproduce on the native build (%s): not reported\n", h.Entry, key, native)
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.prop == id && k.entry == h.Entry && k.key == key {
					isKnown = true
				}
			}
			if isKnown {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, h.Entry, key)
				continue
			}
			nviol++
			rep.Violations = append(rep.Violations, key)
			fmt.Printf("%s: %s\n  %s\n  inputs:%s\n", h.Entry, key, v.Detail, inputsString(v.Inputs))
			if len(v.Choices) > 0 {
				fmt.Printf("  schedule: %s\n", strings.Join(v.Choices, "; "))
			}
			fmt.Printf("  native replay: %s\n", native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		}
		// completed paths replayed on a native build, observations compared
		if len(ex.traces) > 0 {
			for _, tr := range ex.traces {
				out, obs := rp.runTrace(h.Entry, tr.Inputs, args)
				rep.TracesReplayed++
				if out == "ok" && strings.Join(obs, "\n") == strings.Join(tr.Obs, "\n") {
					rep.TracesAgreed++
				} else {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("%s: executor %v native %v inputs%s", out, tr.Obs, obs, inputsString(tr.Inputs)))
				}
				if len(samples) < 8 {
					samples = append(samples, map[string]interface{}{"entry": h.Entry, "inputs": inputsString(tr.Inputs), "observed": tr.Obs})
				}
			}
			validated += rep.TracesAgreed
			for _, m := range rep.Mismatch {
				fmt.Println("note: executor and native run differ:", h.Entry, trunc(m, 600))
			}
		}
		st := "all paths within the bounds explored"
		if !rep.Exhausted {
			st = fmt.Sprintf("NOT exhausted (timeout=%v, undecided paths=%d, left=%d)", ex.timeout, bad, len(ex.alts))
		}
		fmt.Printf("%s: %d paths, %d instructions, %d queries (%.1fs), %d+%d assertions, %d native replays agree, %.1fs: %s\n", h.Entry, rep.Paths, rep.Instructions, rep.Queries, rep.SolverS, rep.AssertSolver, rep.AssertTrivial, rep.TracesAgreed, rep.WallS, st)
		for n, c := range rep.Notes {
			fmt.Printf("  note %dx %s\n", c, trunc(n, 300))
		}
		if len(samples) < 8 {
			samples = append(samples, map[string]interface{}{"entry": h.Entry, "assertions": rep.Assertions, "covers": rep.Covers})
		}
		reports = append(reports, rep)
	}
	level := spec.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"samples": samples, "harnesses": reports, "load_s": loadS,
			"explanation": "states: nodes of the symbolic execution tree (decision points and path ends); transitions: SSA instructions executed symbolically; traces_validated_against_impl: completed symbolic paths whose model was run on a native build with identical observations",
		},
		"assumptions": []string{"go/ssa translation of the current source (go/packages, golang.org/x/tools v0.52.0)", "the executor's models of sync, time, reflect, runtime and math intrinsics (symgo/*.go)", "gorilla/websocket replaced by the in-memory stand-in wsstub", "sequentially consistent memory; scheduling points at synchronisation operations", "bounds as listed per harness"},
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	if err := writeJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	code = 0
	if nviol > 0 {
		code = 1
	}
}

// quickTotal bounds, in seconds, what a quick check takes on a tree that makes it slow.
const quickTotal = 600

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func solverBin() string {
	if b := os.Getenv("SYMGO_SOLVER"); b != "" {
		return b
	}
	return defaultSolver
}

func saveReplay(file, id, entry string, args map[string]int, v *Violation) {
	var trail []dec
	for n := v.trail; n != nil; n = n.parent {
		trail = append(trail, n.d)
	}
	type tj struct {
		V uint64 `json:"v"`
		F bool   `json:"f,omitempty"`
		K uint8  `json:"k,omitempty"`
	}
	var tl []tj
	for i := len(trail) - 1; i >= 0; i-- {
		tl = append(tl, tj{trail[i].val, trail[i].forced, trail[i].kind})
	}
	writeJSON(file, map[string]interface{}{"property": id, "entry": entry, "params": args, "kind": v.Kind, "label": v.Label, "detail": v.Detail,
		"inputs": v.Inputs, "schedule": v.Choices, "trace": v.Trace, "decisions": tl,
		"how_to_replay": "bin/symgo native " + file + " runs the entry on a native build with these inputs"})
}

// ---- native replay ----

type replayer struct {
	repo, verif, scratch string
	bins                 map[string]string
	errs                 map[string]string
	harness              map[string][]byte // the harness files, where some of their declarations are left out
	n                    int
}

func newReplayer(repo, verif, scratch string) *replayer {
	return &replayer{repo: repo, verif: verif, scratch: scratch, bins: map[string]string{}, errs: map[string]string{}}
}

var entryRe = regexp.MustCompile(`(?m)^func (ZZ\w+)\(\) \{`)

func (r *replayer) build(pkg string) (string, string) {
	if b := r.bins[pkg]; b != "" {
		return b, ""
	}
	if e := r.errs[pkg]; e != "" {
		return "", e
	}
	if r.harness == nil {
		h, err := readOverlay(r.repo, r.verif)
		if err != nil {
			return "", err.Error()
		}
		r.harness = h
	}
	ov := map[string]string{}
	hd := filepath.Join(r.scratch, "harness_"+pkg)
	for dst, b := range r.harness {
		f := filepath.Join(hd, strings.TrimPrefix(dst, r.repo))
		os.MkdirAll(filepath.Dir(f), 0o755)
		os.WriteFile(f, b, 0o644)
		ov[dst] = f
	}
	dir, pname := r.repo, "socketio"
	if pkg == "engine" {
		dir, pname = filepath.Join(r.repo, "engine"), "engine"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n\t\"testing/synctest\"\n\n\t\"github.com/zyxar/socketio/zzsym\"\n)\n\nvar zzEntries = map[string]func(){\n", pname)
	for dst, src := range ov {
		if filepath.Dir(dst) != dir {
			continue
		}
		b, _ := os.ReadFile(src)
		for _, m := range entryRe.FindAllStringSubmatch(string(b), -1) {
			fmt.Fprintf(&sb, "\t%q: %s,\n", m[1], m[1])
		}
	}
	sb.WriteString(`}

func TestZZReplay(t *testing.T) {
	zzsym.Load(os.Getenv("ZZ_INPUT"))
	fn := zzEntries[os.Getenv("ZZ_ENTRY")]
	run := func() {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case zzsym.Skip:
					fmt.Println("ZZ-SKIP")
					os.Exit(3)
				case zzsym.Violation:
					fmt.Println(x)
					os.Exit(4)
				}
				fmt.Printf("ZZ-PANIC %v\n", x)
				os.Exit(5)
			}
		}()
		fn()
		if zzsym.AllocExceeded() {
			fmt.Println("ZZ-ALLOC")
			os.Exit(6)
		}
		fmt.Printf("ZZ-OBS\n%s\nZZ-OK\n", zzsym.Observations())
		os.Exit(0)
	}
	if os.Getenv("ZZ_REAL") != "" {
		zzsym.QuiesceFn = zzsym.Settle
		run()
	}
	synctest.Test(t, func(t *testing.T) {
		zzsym.QuiesceFn = synctest.Wait
		run()
	})
}
`)
	tf := filepath.Join(r.scratch, "zz_replay_"+pname+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	ov[filepath.Join(dir, "zz_replay_test.go")] = tf
	// the repository's own tests are not needed here
	empty := filepath.Join(r.scratch, "empty_"+pname+".go")
	os.WriteFile(empty, []byte("package "+pname+"\n"), 0o644)
	ts, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, f := range ts {
		ov[f] = empty
	}
	oj := filepath.Join(r.scratch, "overlay_"+pname+".json")
	writeJSON(oj, map[string]interface{}{"Replace": ov})
	mod, err := writeModfile(r.repo, r.verif, r.scratch)
	if err != nil {
		r.errs[pkg] = err.Error()
		return "", err.Error()
	}
	bin := filepath.Join(r.scratch, "replay_"+pname)
	args := []string{"test", "-c", "-vet=off", "-tags=verif", "-overlay=" + oj, "-modfile=" + mod, "-o", bin, "."}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	for _, e := range buildEnv() {
		if !strings.HasPrefix(e, "GOEXPERIMENT=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.errs[pkg] = "native build failed: " + trunc(string(out), 1000)
		return "", r.errs[pkg]
	}
	r.bins[pkg] = bin
	return bin, ""
}

// run runs entry natively: in a bubble of virtual time, or (real) against the clock, where waiting
// for a mutex counts as being blocked.
func (r *replayer) run(entry string, inputs []InputVal, args map[string]int, real bool) (string, int, string) {
	pkg := "socketio"
	name := entry
	if i := strings.IndexByte(entry, '.'); i >= 0 {
		pkg, name = entry[:i], entry[i+1:]
	}
	bin, e := r.build(pkg)
	if e != "" {
		return "", -1, e
	}
	r.n++
	in := filepath.Join(r.scratch, fmt.Sprintf("in%d.json", r.n))
	writeJSON(in, map[string]interface{}{"inputs": inputs, "params": args})
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	// memory is limited so that a runaway allocation cannot hurt the sandbox
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 8000000; exec \"$@\"", "bash", bin, "-test.run=^TestZZReplay$", "-test.timeout=15s")
	cmd.Dir = r.scratch
	cmd.Env = append(os.Environ(), "ZZ_INPUT="+in, "ZZ_ENTRY="+name)
	if real {
		cmd.Env = append(cmd.Env, "ZZ_REAL=1")
	}
	out, err := cmd.CombinedOutput()
	code := 0
	if err != nil {
		code = -2
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	if ctx.Err() != nil {
		code = -3
	}
	return string(out), code, ""
}

// replay runs a counterexample on a native build and says what happened.
func (r *replayer) replay(entry string, v *Violation, args map[string]int) string {
	out, code, e := r.run(entry, v.Inputs, args, false)
	if e != "" {
		return "no native run: " + e
	}
	unfinished := func() bool {
		return !strings.Contains(out, "ZZ-VIOLATION") && (strings.Contains(out, "deadlock") || strings.Contains(out, "test timed out") || code == -3)
	}
	if unfinished() {
		// a bubble does not settle while a goroutine waits for a mutex
		out, code, _ = r.run(entry, v.Inputs, args, true)
		if unfinished() && v.Kind != "deadlock" && v.Kind != "livelock" {
			return "reproduced: the native run does not finish (" + trunc(v.Label, 60) + " not observed)"
		}
	}
	first := func(p string) string {
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, p) {
				return trunc(strings.TrimSpace(l), 200)
			}
		}
		return ""
	}
	switch {
	case strings.Contains(out, "ZZ-VIOLATION"):
		return "reproduced: " + first("ZZ-VIOLATION")
	case code == 5:
		return "reproduced: " + first("ZZ-PANIC")
	case code == 6:
		return "reproduced: allocation limit exceeded"
	case code == 3:
		return "assumption failed natively"
	case strings.Contains(out, "deadlock") || strings.Contains(out, "test timed out") || code == -3:
		return "reproduced: does not finish (" + first("deadlock") + ")"
	case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
		l := first("panic:")
		if l == "" {
			l = first("fatal error:")
		}
		return "reproduced: " + l
	case code == 0:
		return "no failure natively"
	}
	return fmt.Sprintf("exit %d: %s", code, trunc(out, 300))
}

// runTrace runs a completed path natively and returns its observations.
func (r *replayer) runTrace(entry string, in []InputVal, args map[string]int) (string, []string) {
	out, code, e := r.run(entry, in, args, false)
	if e != "" {
		return e, nil
	}
	if code != 0 {
		return fmt.Sprintf("exit %d: %s", code, trunc(out, 400)), nil
	}
	i := strings.Index(out, "ZZ-OBS\n")
	j := strings.LastIndex(out, "\nZZ-OK")
	if i < 0 || j < i {
		return "no observations: " + trunc(out, 200), nil
	}
	return "ok", strings.Split(out[i+7:j], "\n")
}

func cmdNative(repo, verif string, argv []string) {
	var f struct {
		Entry  string         `json:"entry"`
		Params map[string]int `json:"params"`
		Inputs []InputVal     `json:"inputs"`
	}
	b, err := os.ReadFile(argv[0])
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("%v", err)
	}
	scratch, _ := os.MkdirTemp("", "symgo-native")
	defer os.RemoveAll(scratch)
	rp := newReplayer(repo, verif, scratch)
	out, code, e := rp.run(f.Entry, f.Inputs, f.Params, os.Getenv("ZZ_REAL") != "")
	fmt.Println(out, code, e)
}
