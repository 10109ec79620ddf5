package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- decisions ----

type dec struct {
	val    uint64
	forced bool
	kind   uint8 // 0 branch, 1 choose, 2 concretisation candidate
}
type node struct {
	parent *node
	depth  int
	d      dec
}
type Alt struct {
	n     *node
	model Model // nil: not yet known to be satisfiable
}

// Violation is one counterexample.
type Violation struct {
	Kind    string // assert, panic, deadlock, alloc, race
	Label   string
	Detail  string
	Inputs  []InputVal
	Choices []string
	Trace   []string
	Replay  string
	Native  string
	trail   *node
	model   Model
}
type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

// Explorer holds the state shared by workers exploring one harness.
type Explorer struct {
	prog      *Program
	entry     *ssa.Function
	cfg       Config
	mu        sync.Mutex
	cond      *sync.Cond
	alts      []Alt
	active    int
	stopped   bool
	viol      map[string]*Violation
	labels    map[string]int // covers reached
	asserts   map[string]int // assertion sites evaluated
	notes     map[string]int
	funcs     map[string]int
	paths     int64
	steps     int64
	decs      int64
	infeas    int64
	ended     map[string]int
	deadln    time.Time
	timeout   bool
	stats     SolverStats
	samples   []string
	nChecks   int64 // assertion queries discharged
	nTriv     int64 // assertions decided by simplification
	maxG      int
	schedPt   int64
	cacheHits int64
	dropped   int64
	traces    []pathTrace
}
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Restarts int
	Time                                   time.Duration
	Errs                                   []string
}
type Config struct {
	Workers   int
	Budget    time.Duration
	MaxSteps  int64
	MaxPaths  int64
	SolverBin string
	SolverMs  int
	MaxDepth  int
	Trace     bool
	Args      map[string]int
	MaxTraces int
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

// ---- worker ----

type undo struct {
	p   *V
	old V
	f   func()
}

// W is one worker: an interpreter instance with its own terms, solver and heap.
type W struct {
	id    int
	ex    *Explorer
	prog  *Program
	ts    *Terms
	sol   *Solver
	fns   map[*ssa.Function]*Fn
	globs map[*ssa.Global]*V
	inits map[*ssa.Package]int
	tids  typeutil.Map
	ntids int
	meth  map[methKey]*Fn
	impl  map[implKey]bool

	// undo log
	log    []undo
	inInit int

	// per path
	prefix  []dec
	pos     int
	cur     *node
	pc      []*Term
	known   map[*Term]bool
	groups  map[*Term]*group
	qcache  map[string]qres
	model   Model
	vars    []*Term
	inputs  []input
	nvar    map[string]int
	steps   int64
	trace   []string
	choices []string
	outcome string

	// scheduler (sched.go)
	sc sched
	// side tables
	mutexes    map[*V]*mutexSt
	wgs        map[*V]*wgSt
	conds      map[*V]*condSt
	smaps      map[*V]*Map
	pools      map[*V][]poolItem
	timers     map[*V]*timerSt
	now        int64
	side       map[string]interface{}
	allocLimit int64
	stackLimit int
	depthLimit int
	logLines   []string
	allowPanic int
	race       *raceSt
	obs        []V
	addrs      map[interface{}]uint64
}
type input struct {
	name, kind string
	t          *Term
}
type methKey struct {
	tid  int
	name string
	pkg  *types.Package
}

type pathEnd struct{ why string }

func (w *W) end(why string) { panic(pathEnd{why}) }

func (w *W) unsupported(s string) {
	if w.inInit > 0 {
		panic(initUnsupported{s})
	}
	if w.sc.cur != nil {
		st := w.stackOf(w.sc.cur)
		if len(st) > 3 {
			st = st[:3]
		}
		s += " at " + strings.Join(st, " < ")
	}
	w.ex.note("unsupported: " + s)
	w.end("unsupported")
}

type initUnsupported struct{ s string }

func (w *W) set(p *V, v V) {
	if w.inInit == 0 {
		w.log = append(w.log, undo{p: p, old: *p})
	}
	*p = v
}
func (w *W) undoF(f func()) {
	if w.inInit == 0 {
		w.log = append(w.log, undo{f: f})
	}
}

// store writes v into the cell p, keeping the identity of sub-cells.
func (w *W) store(p *V, v V) {
	switch x := v.(type) {
	case Struct:
		if cur, ok := (*p).(Struct); ok && len(cur) == len(x) {
			if len(cur) > 0 && &cur[0] == &x[0] {
				return
			}
			for i := range x {
				w.store(&cur[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
	case Array:
		if cur, ok := (*p).(Array); ok && len(cur) == len(x) {
			if len(cur) > 0 && &cur[0] == &x[0] {
				return
			}
			for i := range x {
				w.store(&cur[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
	default:
		w.set(p, v)
	}
}

func (w *W) typeID(t types.Type) int {
	if v := w.tids.At(t); v != nil {
		return v.(int)
	}
	w.ntids++
	w.tids.Set(t, w.ntids)
	return w.ntids
}
func (w *W) sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func newWorker(id int, ex *Explorer) *W {
	w := &W{id: id, ex: ex, prog: ex.prog}
	w.resetHeap()
	return w
}

func (w *W) resetHeap() {
	w.ts = newTerms()
	if w.sol != nil {
		w.closeSolver()
	}
	w.sol = newSolver(w.ex.cfg.SolverBin, w.ex.cfg.SolverMs)
	w.sol.gen = int(atomic.AddInt64(&genCounter, 1)) * 1000000
	w.fns = map[*ssa.Function]*Fn{}
	w.globs = map[*ssa.Global]*V{}
	w.inits = map[*ssa.Package]int{}
	w.meth = map[methKey]*Fn{}
	w.impl = map[implKey]bool{}
	w.smaps = map[*V]*Map{}
	w.pools = map[*V][]poolItem{}
	w.qcache = map[string]qres{}
	w.log = nil
}

var genCounter int64

func (w *W) closeSolver() {
	ex := w.ex
	ex.mu.Lock()
	s := &ex.stats
	s.Queries += w.sol.queries
	s.Sat += w.sol.sat
	s.Unsat += w.sol.unsat
	s.Unknown += w.sol.unknown
	s.Restarts += w.sol.restarts
	s.Time += w.sol.time
	if len(s.Errs) < 5 {
		s.Errs = append(s.Errs, w.sol.errs...)
	}
	ex.mu.Unlock()
	w.sol.close()
	w.sol = nil
}

// ---- path condition ----

func (w *W) addPC(t *Term) { w.learn(t, true) }

// learn records t as true; with pc it becomes part of the path condition,
// otherwise it is a consequence of it. The recorded knowledge is the same
// in both cases, so that replays take the same decisions.
func (w *W) learn(t *Term, pc bool) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		w.known[t] = true
		w.known[w.ts.Not(t)] = false
		w.learn(t.a, pc)
		w.learn(t.b, pc)
		return
	}
	if w.known[t] {
		return
	}
	if pc {
		w.pc = append(w.pc, t)
		w.link(t)
	}
	w.known[t] = true
	w.known[w.ts.Not(t)] = false
}

func (w *W) setModel(m Model) {
	w.model = m
	w.ts.newEpoch()
}

func (w *W) freshVar(width uint8, name string) *Term {
	n := w.nvar[name]
	w.nvar[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := w.ts.Var(width, name)
	w.vars = append(w.vars, t)
	return t
}

func (w *W) replaying() bool { return w.pos < len(w.prefix) }

func (w *W) nextPrefix() dec {
	d := w.prefix[w.pos]
	w.pos++
	return d
}

// onTime ends the path when the exploration should have been over for a while.
func (w *W) onTime() {
	if time.Now().After(w.ex.deadln.Add(10 * time.Second)) {
		w.end("late")
	}
}

// needModel makes sure a model of the path condition is at hand.
func (w *W) needModel() {
	if w.model != nil {
		return
	}
	w.onTime()
	r, m := w.sol.Check(w.pc, nil, w.vars)
	switch r {
	case Sat:
		w.setModel(m)
	case Unsat:
		w.end("infeasible")
	default:
		w.ex.note("solver gave no answer on a path condition; path dropped")
		w.end("unknown")
	}
}

func (w *W) push(d dec) {
	w.cur = &node{parent: w.cur, depth: depthOf(w.cur) + 1, d: d}
	atomic.AddInt64(&w.ex.decs, 1)
}
func depthOf(n *node) int {
	if n == nil {
		return 0
	}
	return n.depth
}
func (w *W) pushAlt(d dec, m Model) {
	n := &node{parent: w.cur, depth: depthOf(w.cur) + 1, d: d}
	ex := w.ex
	ex.mu.Lock()
	ex.alts = append(ex.alts, Alt{n, m})
	ex.cond.Signal()
	ex.mu.Unlock()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (w *W) branch(c V) bool {
	if b, ok := c.(bool); ok {
		return b
	}
	t := c.(*Term)
	if t.op == OConst {
		return t.k != 0
	}
	if v, ok := w.known[t]; ok {
		return v
	}
	if w.inInit > 0 {
		w.unsupported("symbolic branch in init")
	}
	if w.replaying() {
		d := w.nextPrefix()
		if d.kind != 0 {
			panic(fmt.Sprintf("replay divergence: branch expected, got kind %d", d.kind))
		}
		w.push(d)
		ch := d.val == 1
		lit := t
		if !ch {
			lit = w.ts.Not(t)
		}
		if !d.forced {
			w.addPC(lit)
		} else {
			w.learn(lit, false)
		}
		return ch
	}
	w.needModel()
	mv := w.ts.eval(t, w.model) != 0
	lit, other := t, w.ts.Not(t)
	if !mv {
		lit, other = other, lit
	}
	r, m := w.query(other)
	d := dec{val: b2u(mv)}
	switch r {
	case Unsat:
		d.forced = true
		w.push(d)
		w.learn(lit, false)
		return mv
	case Sat:
		w.pushAlt(dec{val: b2u(!mv)}, m)
	default:
		w.ex.note("solver gave no answer on a branch; both sides explored")
		w.pushAlt(dec{val: b2u(!mv)}, nil)
	}
	w.push(d)
	w.addPC(lit)
	return mv
}

// choose makes an n-way nondeterministic choice, recorded as a fresh symbolic variable.
func (w *W) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	if w.inInit > 0 {
		return 0
	}
	v := w.freshVar(8, name)
	var c uint64
	if w.replaying() {
		d := w.nextPrefix()
		if d.kind != 1 {
			panic("replay divergence: choice expected")
		}
		c = d.val
		w.push(d)
	} else {
		w.needModel()
		for i := n - 1; i >= 1; i-- {
			m := make(Model, len(w.model)+1)
			for k, x := range w.model {
				m[k] = x
			}
			m[v.name] = uint64(i)
			w.pushAlt(dec{val: uint64(i), kind: 1}, m)
		}
		w.push(dec{kind: 1})
		w.model[v.name] = 0
		w.ts.newEpoch()
	}
	w.addPC(w.ts.Eq(v, w.ts.Const(8, c)))
	return int(c)
}

// concretize picks a value of t, leaving the others to alternative paths.
func (w *W) concretize(v V) uint64 {
	t, ok := v.(*Term)
	if !ok {
		switch x := v.(type) {
		case uint64:
			return x
		case bool:
			return b2u(x)
		}
		panic(fmt.Sprintf("concretize %T", v))
	}
	if t.op == OConst {
		return t.k
	}
	if t.w == 0 {
		return b2u(w.branch(t))
	}
	if w.replaying() {
		d := w.nextPrefix()
		if d.kind != 2 {
			panic("replay divergence: concretisation expected")
		}
		w.push(d)
		w.addPC(w.ts.Eq(t, w.ts.Const(t.w, d.val)))
		return d.val
	}
	// enumerate the feasible values by splitting the range around models
	w.needModel()
	type found struct {
		v uint64
		m Model
	}
	var vals []found
	var split func(lo, hi uint64, m Model)
	split = func(lo, hi uint64, m Model) {
		if len(vals) > maxConc || lo > hi {
			return
		}
		if m == nil {
			r, mm := w.query(w.ts.And(w.ts.Ule(w.ts.Const(t.w, lo), t), w.ts.Ule(t, w.ts.Const(t.w, hi))))
			switch r {
			case Unsat:
				return
			case Unknown:
				w.ex.note("solver gave no answer while enumerating values; some dropped")
				w.ex.incomplete()
				return
			}
			m = mm
		}
		save := w.model
		w.setModel(m)
		v := w.ts.eval(t, m)
		w.setModel(save)
		vals = append(vals, found{v, m})
		if v > lo {
			split(lo, v-1, nil)
		}
		if v < hi {
			split(v+1, hi, nil)
		}
	}
	split(t.lo, t.hi, w.model)
	if len(vals) > maxConc {
		w.ex.note(fmt.Sprintf("more than %d values of one term; the rest dropped at %s", maxConc, w.where(w.sc.cur)))
		w.ex.incomplete()
		vals = vals[:maxConc]
	}
	for i := len(vals) - 1; i >= 1; i-- {
		w.pushAlt(dec{val: vals[i].v, kind: 2}, vals[i].m)
	}
	w.push(dec{val: vals[0].v, kind: 2})
	w.addPC(w.ts.Eq(t, w.ts.Const(t.w, vals[0].v)))
	return vals[0].v
}

const maxConc = 2000

// incomplete marks the exploration as not covering every value.
func (ex *Explorer) incomplete() { atomic.AddInt64(&ex.dropped, 1) }

// assume restricts the path to c.
func (w *W) assume(c V) {
	if b, ok := c.(bool); ok {
		if !b {
			w.end("assume")
		}
		return
	}
	t := c.(*Term)
	if v, ok := w.known[t]; ok {
		if !v {
			w.end("assume")
		}
		return
	}
	if w.replaying() || w.model != nil && w.ts.eval(t, w.model) != 0 {
		w.addPC(t)
		return
	}
	w.needModel()
	r, m := w.query(t)
	switch r {
	case Sat:
		w.addPC(t)
		w.setModel(m)
	case Unsat:
		w.end("assume")
	default:
		w.ex.note("solver gave no answer on an assumption; path dropped")
		w.end("unknown")
	}
}

// assert checks that c holds for every value reaching this point.
func (w *W) assert(c V, kind, label, detail string) {
	ex := w.ex
	if kind == "assert" {
		ex.mu.Lock()
		ex.asserts[label]++
		ex.mu.Unlock()
	}
	if b, ok := c.(bool); ok {
		if !b {
			w.needModel()
			w.violate(kind, label, detail, w.model)
			w.end("violation")
		}
		atomic.AddInt64(&ex.nTriv, 1)
		return
	}
	t := c.(*Term)
	if v, ok := w.known[t]; ok && v {
		atomic.AddInt64(&ex.nTriv, 1)
		return
	}
	if w.replaying() {
		w.addPC(t)
		return
	}
	w.needModel()
	if w.ts.eval(t, w.model) == 0 {
		w.violate(kind, label, detail, w.model)
	} else {
		atomic.AddInt64(&ex.nChecks, 1)
		r, m := w.query(w.ts.Not(t))
		switch r {
		case Unsat:
			w.learn(t, false)
			return
		case Sat:
			w.violate(kind, label, detail, m)
		default:
			w.ex.note("solver gave no answer on assertion " + label)
		}
	}
	w.assume(t)
}

func (w *W) violate(kind, label, detail string, m Model) {
	ex := w.ex
	key := kind + ":" + label
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if old := ex.viol[key]; old != nil {
		return
	}
	v := &Violation{Kind: kind, Label: label, Detail: detail, trail: w.cur, model: m}
	for _, in := range w.inputs {
		v.Inputs = append(v.Inputs, InputVal{in.name, in.kind, m[in.t.name]})
	}
	v.Choices = append([]string(nil), w.choices...)
	v.Trace = append([]string(nil), w.trace...)
	ex.viol[key] = v
	if ex.cfg.Trace {
		fmt.Println("violation", key, detail)
	}
}

// ---- exploration ----

func (ex *Explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.viol = map[string]*Violation{}
	ex.labels = map[string]int{}
	ex.asserts = map[string]int{}
	ex.notes = map[string]int{}
	ex.funcs = map[string]int{}
	ex.ended = map[string]int{}
	ex.alts = []Alt{{nil, Model{}}}
	ex.deadln = time.Now().Add(ex.cfg.Budget)
	var wg sync.WaitGroup
	tm := time.AfterFunc(ex.cfg.Budget, func() {
		ex.mu.Lock()
		ex.timeout = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	defer tm.Stop()
	for i := 0; i < ex.cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) worker(id int) {
	var w *W
	defer func() {
		if w != nil {
			ex.mu.Lock()
			for fn, f := range w.fns {
				if f.used && f.blocks != nil {
					ex.funcs[fn.String()]++
				}
			}
			ex.mu.Unlock()
			w.closeSolver()
		}
	}()
	for {
		ex.mu.Lock()
		for len(ex.alts) == 0 && ex.active > 0 && !ex.timeout && !ex.stopped {
			ex.cond.Wait()
		}
		if ex.timeout || ex.stopped || len(ex.alts) == 0 || (ex.cfg.MaxPaths > 0 && atomic.LoadInt64(&ex.paths) >= ex.cfg.MaxPaths) {
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		a := ex.alts[len(ex.alts)-1]
		ex.alts = ex.alts[:len(ex.alts)-1]
		ex.active++
		ex.mu.Unlock()
		if w == nil {
			w = newWorker(id, ex)
		}
		why := w.runPath(a)
		atomic.AddInt64(&ex.paths, 1)
		atomic.AddInt64(&ex.steps, w.steps)
		ex.mu.Lock()
		ex.ended[why]++
		ex.active--
		if ex.active == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
		if w.ts.n > 3000000 {
			w.resetHeap()
		}
	}
}

func (w *W) runPath(a Alt) (why string) {
	n := depthOf(a.n)
	w.prefix = make([]dec, n)
	for x := a.n; x != nil; x = x.parent {
		w.prefix[x.depth-1] = x.d
	}
	w.pos = 0
	w.cur = nil
	w.pc = w.pc[:0:0]
	w.groups = map[*Term]*group{}
	w.known = map[*Term]bool{}
	w.vars = nil
	w.inputs = nil
	w.nvar = map[string]int{}
	w.steps = 0
	w.trace = nil
	w.choices = nil
	w.logLines = nil
	w.side = map[string]interface{}{}
	w.mutexes = map[*V]*mutexSt{}
	w.wgs = map[*V]*wgSt{}
	w.conds = map[*V]*condSt{}
	w.timers = map[*V]*timerSt{}
	w.now = 946684800e9
	w.allocLimit = 0
	w.stackLimit = 0
	w.race = nil
	w.obs = nil
	w.addrs = nil
	if a.model == nil {
		w.model = nil
	} else {
		m := make(Model, len(a.model))
		for k, v := range a.model {
			m[k] = v
		}
		w.setModel(m)
	}
	mark := len(w.log)
	why = w.runMain()
	w.ex.pathDone(w, why)
	for i := len(w.log) - 1; i >= mark; i-- {
		u := &w.log[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	w.log = w.log[:mark]
	if cap(w.log) > 1<<22 {
		w.log = nil
	}
	return why
}

// pathDone keeps a few completed paths with their inputs and observations,
// to be replayed on a native build.
func (ex *Explorer) pathDone(w *W, why string) {
	if why != "done" {
		return
	}
	ex.mu.Lock()
	n := len(ex.traces)
	ex.mu.Unlock()
	if n >= ex.cfg.MaxTraces || w.model == nil {
		return
	}
	tr := pathTrace{}
	for _, in := range w.inputs {
		tr.Inputs = append(tr.Inputs, InputVal{in.name, in.kind, w.model[in.t.name]})
	}
	for _, o := range w.obs {
		tr.Obs = append(tr.Obs, fmt.Sprintf("%q", w.evalStr(o)))
	}
	ex.mu.Lock()
	ex.traces = append(ex.traces, tr)
	ex.mu.Unlock()
}

func (w *W) evalStr(v V) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch c := c.(type) {
			case uint64:
				b[i] = byte(c)
			case *Term:
				b[i] = byte(w.ts.eval(c, w.model))
			}
		}
		return string(b)
	}
	return fmt.Sprintf("?%T", v)
}

type pathTrace struct {
	Inputs []InputVal
	Obs    []string
}

// ---- independent parts of the path condition ----

// group is a set of variables connected by path constraints.
type group struct {
	up   *group
	cons []int // indices into w.pc
	vars []*Term
}

func (g *group) find() *group {
	for g.up != nil {
		if g.up.up != nil {
			g.up = g.up.up
		}
		g = g.up
	}
	return g
}

type qres struct {
	r Result
	m Model
}

func (w *W) groupOf(v *Term) *group {
	g := w.groups[v]
	if g == nil {
		g = &group{vars: []*Term{v}}
		w.groups[v] = g
		return g
	}
	return g.find()
}

func (w *W) link(t *Term) {
	var g *group
	for _, v := range w.ts.freeVars(t) {
		h := w.groupOf(v)
		if g == nil || g == h {
			g = h
			continue
		}
		if len(h.cons) > len(g.cons) {
			g, h = h, g
		}
		h.up = g
		g.cons = append(g.cons, h.cons...)
		g.vars = append(g.vars, h.vars...)
		h.cons, h.vars = nil, nil
	}
	if g != nil {
		g.cons = append(g.cons, len(w.pc)-1)
	}
}

// query decides pc and extra, given that w.model satisfies pc; only the part
// of pc connected to extra is sent to the solver.
func (w *W) query(extra *Term) (Result, Model) {
	var cons []int
	var vars []*Term
	seen := map[*group]bool{}
	for _, v := range w.ts.freeVars(extra) {
		g := w.groupOf(v)
		if !seen[g] {
			seen[g] = true
			cons = append(cons, g.cons...)
			vars = append(vars, g.vars...)
		}
	}
	sort.Ints(cons)
	terms := make([]*Term, len(cons))
	key := make([]byte, 0, 4*len(cons)+4)
	ids := make([]int, 0, len(cons))
	for i, c := range cons {
		terms[i] = w.pc[c]
		ids = append(ids, w.pc[c].id)
	}
	sort.Ints(ids)
	ids = append(ids, extra.id)
	for _, id := range ids {
		key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	q, ok := w.qcache[string(key)]
	if !ok {
		w.onTime()
		q.r, q.m = w.sol.Check(terms, extra, vars)
		if q.r != Unknown {
			w.qcache[string(key)] = q
		}
	} else {
		atomic.AddInt64(&w.ex.cacheHits, 1)
	}
	if q.r != Sat {
		return q.r, nil
	}
	m := make(Model, len(w.model)+4)
	for k, v := range w.model {
		m[k] = v
	}
	for k, v := range q.m {
		m[k] = v
	}
	return Sat, m
}

// freeVars lists the variables of t (cached, do not modify).
func (ts *Terms) freeVars(t *Term) []*Term {
	if t.op == OConst {
		return nil
	}
	if t.fv != nil {
		return t.fv
	}
	if t.op == OVar {
		t.fv = []*Term{t}
		return t.fv
	}
	var out []*Term
	for _, c := range []*Term{t.a, t.b, t.c} {
		if c == nil {
			continue
		}
		cv := ts.freeVars(c)
		if len(out) == 0 {
			out = cv
			continue
		}
		if len(cv) == 0 {
			continue
		}
		out = mergeVars(out, cv)
	}
	if out == nil {
		out = []*Term{}
	}
	t.fv = out
	return out
}

func mergeVars(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

type poolItem struct {
	v  V
	vc vclock
}
