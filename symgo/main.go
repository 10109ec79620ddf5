package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type argMap map[string]int

func (a argMap) String() string { return "" }
func (a argMap) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("want k=v")
	}
	n, err := strconv.Atoi(v)
	if err != nil {
		return err
	}
	a[k] = n
	return nil
}

func (p *Program) entry(name string) *ssa.Function {
	pkg := targetPrefix
	fn := name
	if i := strings.IndexByte(name, '.'); i >= 0 {
		if name[:i] == "engine" {
			pkg += "/engine"
		}
		fn = name[i+1:]
	}
	return p.lookup(pkg, fn)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|check|list ...")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("REPO_DIR")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "run":
		cmdRun(repo, verif, os.Args[2:])
	case "check":
		cmdCheck(repo, verif, os.Args[2:])
	case "native":
		cmdNative(repo, verif, os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdRun(repo, verif string, argv []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	entries := fs.String("entry", "", "comma-separated entries")
	budget := fs.Duration("budget", 60*time.Second, "time budget")
	workers := fs.Int("workers", runtime.NumCPU(), "workers")
	trace := fs.Bool("trace", false, "trace")
	solver := fs.String("solver", defaultSolver, "solver")
	maxp := fs.Int64("paths", 0, "max paths")
	prof := fs.String("prof", "", "cpu profile")
	steps := fs.Int64("steps", 20000000, "max steps per path")
	ntr := fs.Int("traces", 3, "completed paths compared with a native run")
	replay := fs.Bool("replay", false, "replay violations natively")
	args := argMap{}
	fs.Var(args, "a", "parameter k=v")
	fs.Parse(argv)
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(scratch)
	t0 := time.Now()
	p, err := loadProgram(repo, verif, scratch)
	if err != nil {
		os.RemoveAll(scratch)
		fatalf("%v", err)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, e := range strings.Split(*entries, ",") {
		fn := p.entry(e)
		if fn == nil {
			fmt.Println("no entry", e)
			continue
		}
		ex := &Explorer{prog: p, entry: fn, cfg: Config{Workers: *workers, Budget: *budget, MaxSteps: *steps, MaxPaths: *maxp,
			SolverBin: *solver, SolverMs: 20000, MaxDepth: 400, Trace: *trace, Args: args, MaxTraces: *ntr}}
		t0 := time.Now()
		ex.run()
		printResult(e, ex, time.Since(t0))
		if *replay {
			rp := newReplayer(repo, verif, scratch)
			for _, tr := range ex.traces {
				out, obs := rp.runTrace(e, tr.Inputs, args)
				if out != "ok" || strings.Join(obs, "\n") != strings.Join(tr.Obs, "\n") {
					fmt.Println("TRACE MISMATCH", out)
					for i := 0; i < len(obs) || i < len(tr.Obs); i++ {
						a, b := "-", "-"
						if i < len(tr.Obs) {
							a = tr.Obs[i]
						}
						if i < len(obs) {
							b = obs[i]
						}
						if a != b {
							fmt.Printf("  executor %s\n  native   %s\n", a, b)
						}
					}
				} else {
					fmt.Println("trace agrees with native run:", len(obs), "observations")
				}
			}
			for _, v := range sortedViol(ex) {
				fmt.Println("native replay", v.Label, ":", rp.replay(e, v, args))
			}
		}
	}
}

func sortedViol(ex *Explorer) []*Violation {
	var ks []string
	for k := range ex.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Violation
	for _, k := range ks {
		out = append(out, ex.viol[k])
	}
	return out
}

func printResult(e string, ex *Explorer, d time.Duration) {
	fmt.Printf("== %s: %d paths, %d steps, %d decisions, %.1fs timeout=%v left=%d\n   ended %v\n   solver: %d queries (%d sat %d unsat %d unknown, %d restarts) %.1fs; asserts: %d by solver, %d by simplification\n", e, ex.paths, ex.steps, ex.decs, d.Seconds(), ex.timeout, len(ex.alts), ex.ended,
		ex.stats.Queries, ex.stats.Sat, ex.stats.Unsat, ex.stats.Unknown, ex.stats.Restarts, ex.stats.Time.Seconds(), ex.nChecks, ex.nTriv)
	fmt.Println("   covers", ex.labels, "asserts", ex.asserts)
	if len(ex.stats.Errs) > 0 {
		fmt.Println("   solver errors", ex.stats.Errs)
	}
	for k, n := range ex.notes {
		fmt.Printf("   note %dx %s\n", n, k)
	}
	for _, v := range sortedViol(ex) {
		fmt.Printf("   VIOL %s: %s\n     %s\n     inputs %s\n", v.Kind, v.Label, v.Detail, inputsString(v.Inputs))
		if len(v.Choices) > 0 {
			fmt.Println("     schedule:", strings.Join(v.Choices, "; "))
		}
		if len(v.Trace) > 0 {
			fmt.Println("     trace:", strings.Join(v.Trace, "\n       "))
		}
	}
}

func inputsString(in []InputVal) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 80 {
			sb.WriteString(" ...")
			break
		}
		name := x.Name
		if j := strings.IndexByte(name, '#'); j > 0 && i > 0 && strings.HasPrefix(in[i-1].Name, name[:j]) {
			fmt.Fprintf(&sb, ",%d", x.Val)
			continue
		}
		fmt.Fprintf(&sb, " %s=%d", name, x.Val)
	}
	return sb.String()
}

const defaultSolver = "z3"

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
