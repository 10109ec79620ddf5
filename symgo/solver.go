package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe with an incremental assertion stack.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.Closer
	out     *bufio.Reader
	gen     int
	stack   []*Term
	ndefs   int
	timeout int
	// statistics
	queries, sat, unsat, unknown int
	time                         time.Duration
	restarts                     int
	errs                         []string
}

var solverGen int

func newSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inC = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = nil
	s.ndefs = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.close()
	s.restarts++
	s.start()
}

// genBase makes definition generations of different solvers of one term pool distinct.
func (s *Solver) sync(pc []*Term) {
	if s.ndefs > 150000 {
		s.restart()
	}
	s.in.WriteString("(reset-assertions)\n")
	for _, t := range pc {
		s.def(t)
		s.in.WriteString("(assert ")
		s.in.WriteString(t.ref())
		s.in.WriteString(")\n")
	}
}

func (s *Solver) def(t *Term) {
	if t.defd == s.gen || t.op == OConst {
		return
	}
	var sb strings.Builder
	t.define(&sb, s.gen)
	str := sb.String()
	s.ndefs += strings.Count(str, "\n")
	s.in.WriteString(str)
}

// Check decides pc ∧ extra; on Sat it returns a model over vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if slowMs > 0 && d > time.Duration(slowMs)*time.Millisecond {
			slowDump(pc, extra, d)
		}
	}()
	s.queries++
	s.sync(pc)
	// z3 does not look at its own timeout in every phase
	p := s.cmd.Process
	watch := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+2*time.Second, func() { p.Kill() })
	if extra != nil {
		s.def(extra)
		fmt.Fprintf(s.in, "(assert %s)\n", extra.ref())
	}
	for _, v := range vars {
		s.def(v)
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		watch.Stop()
		return s.broken("write: " + err.Error())
	}
	line, err := s.readLine()
	watch.Stop()
	if err != nil {
		return s.broken("read: " + err.Error())
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		s.sat++
		res = Sat
		m = Model{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteByte(' ')
				s.in.WriteString(v.ref())
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			if err := s.readModel(m); err != nil {
				return s.broken("model: " + err.Error())
			}
		}
	case "unsat":
		s.unsat++
		res = Unsat
	default:
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver says:", line)
		}
		if strings.HasPrefix(line, "(error") {
			return s.broken(line)
		}
		s.unknown++
		res = Unknown
	}
	return res, m
}

func (s *Solver) broken(msg string) (Result, Model) {
	s.unknown++
	if len(s.errs) < 5 {
		s.errs = append(s.errs, msg)
	}
	s.restart()
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// readModel parses ((|x| #x00) (|y| true) ...).
func (s *Solver) readModel(m Model) error {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		if b == '|' { // quoted symbol
			sb.WriteByte(b)
			for {
				b, err = s.out.ReadByte()
				if err != nil {
					return err
				}
				sb.WriteByte(b)
				if b == '|' {
					break
				}
			}
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		if depth > 0 || b == ')' {
			sb.WriteByte(b)
		}
		if depth == 0 && b == ')' {
			break
		}
	}
	str := sb.String()
	if strings.HasPrefix(str, "(error") {
		return fmt.Errorf("%s", str)
	}
	i := 1
	for i < len(str) {
		j := strings.IndexByte(str[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		var name string
		if str[i] == '|' {
			k := strings.IndexByte(str[i+1:], '|')
			name = str[i+1 : i+1+k]
			if c := strings.LastIndexByte(name, ':'); c >= 0 {
				name = name[:c]
			}
			i += k + 2
		} else {
			k := strings.IndexByte(str[i:], ' ')
			name = str[i : i+k]
			i += k
		}
		k := strings.IndexByte(str[i:], ')')
		val := strings.TrimSpace(str[i : i+k])
		if strings.HasPrefix(val, "(_ bv") { // (_ bv12 8)
			val = strings.Fields(val[5:])[0]
			v, err := strconv.ParseUint(val, 10, 64)
			if err != nil {
				return err
			}
			m[name] = v
			i += k + 1
			continue
		}
		var v uint64
		var err error
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q in %q", val, str)
		}
		if err != nil {
			return err
		}
		m[name] = v
		i += k + 1
	}
	return nil
}

var slowMs, _ = strconv.Atoi(os.Getenv("SYMGO_SLOW"))

// slowDump writes a slow query as a file of its own.
func slowDump(pc []*Term, extra *Term, d time.Duration) {
	var sb strings.Builder
	gen := int(time.Now().UnixNano())
	sb.WriteString("(set-logic QF_BV)\n")
	saved := map[*Term]int{}
	all := append(append([]*Term(nil), pc...), extra)
	for _, t := range all {
		if t == nil {
			continue
		}
		t.saveDefs(saved)
		t.define(&sb, gen)
	}
	for _, t := range all {
		if t != nil {
			fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
		}
	}
	sb.WriteString("(check-sat)\n")
	for t, g := range saved {
		t.defd = g
	}
	os.WriteFile(fmt.Sprintf("/tmp/slow-%d-%d.smt2", d.Milliseconds(), gen%1000000), []byte(sb.String()), 0o644)
}

func (t *Term) saveDefs(m map[*Term]int) {
	if t == nil {
		return
	}
	if _, ok := m[t]; ok {
		return
	}
	m[t] = t.defd
	t.a.saveDefs(m)
	t.b.saveDefs(m)
	t.c.saveDefs(m)
}
