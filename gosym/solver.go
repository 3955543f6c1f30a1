package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/rand"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// SolverStats counts solver work over all workers.
type SolverStats struct {
	queries, sat, unsat, unknown, fallbacks int64
	nanos                                   int64
	errors                                  int64
}

var sstats SolverStats

// Solver is one live incremental SMT process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	seen    map[*Term]bool
	vars    []*Term
	asserts []*Term
	opened  bool
	dead    bool
	qsince  int

	deadline time.Time
	slow     int // incremental timeouts seen so far
	hint     map[string]uint64
	rng      *rand.Rand
}

const softMs = 2500
const hardMs = 60000

func newSolver() *Solver {
	s := &Solver{rng: rand.New(rand.NewSource(1)), deadline: time.Now().Add(24 * time.Hour)}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.opened = false
	s.qsince = 0
	io.WriteString(s.in, fmt.Sprintf("(set-option :timeout %d)\n(set-option :model.completion true)\n", softMs))
}

func (s *Solver) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// beginPath drops all assertions of the previous path.
func (s *Solver) beginPath() {
	if s.opened {
		io.WriteString(s.in, "(pop 1)\n")
	}
	if s.qsince > 20000 {
		s.stop()
		s.start()
	}
	io.WriteString(s.in, "(push 1)\n")
	s.opened = true
	s.seen = map[*Term]bool{}
	s.vars = nil
	s.asserts = nil
}

func (s *Solver) assert(t *Term) {
	var sb strings.Builder
	smtDefine(&sb, t, s.seen, &s.vars)
	fmt.Fprintf(&sb, "(assert %s)\n", smtRef(t))
	io.WriteString(s.in, sb.String())
	s.asserts = append(s.asserts, t)
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inbar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '|' {
			inbar = !inbar
		}
		if !inbar {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			} else if c == '\n' && depth == 0 {
				if started || strings.TrimSpace(sb.String()) != "" {
					return strings.TrimSpace(sb.String()), nil
				}
				continue
			}
		}
		sb.WriteByte(c)
	}
}

// check decides the path condition together with q (may be nil); on sat it returns a model.
func (s *Solver) check(q *Term, wantModel bool) (satRes, map[string]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&sstats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&sstats.queries, 1)
	s.qsince++
	res, model := s.check1(q, wantModel)
	switch res {
	case rSat:
		atomic.AddInt64(&sstats.sat, 1)
	case rUnsat:
		atomic.AddInt64(&sstats.unsat, 1)
	default:
		atomic.AddInt64(&sstats.unknown, 1)
	}
	return res, model
}

func (s *Solver) check1(q *Term, wantModel bool) (satRes, map[string]uint64) {
	if time.Now().After(s.deadline) {
		return rUnknown, nil
	}
	if s.slow >= 3 {
		if m := s.sample(q, 150*time.Millisecond); m != nil {
			return rSat, m
		}
	}
	var sb strings.Builder
	if q != nil {
		smtDefine(&sb, q, s.seen, &s.vars)
	}
	sb.WriteString("(push 1)\n")
	if q != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", smtRef(q))
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	ans, err := s.readSexp()
	if err != nil {
		s.restartPath()
		ans = "unknown"
	}
	if strings.HasPrefix(ans, "(error") {
		atomic.AddInt64(&sstats.errors, 1)
		fmt.Println("SOLVER ERROR:", ans)
		s.restartPath()
		return rUnknown, nil
	}
	var model map[string]uint64
	var res satRes
	switch ans {
	case "sat":
		res = rSat
		if wantModel {
			model = s.getModel()
		}
	case "unsat":
		res = rUnsat
	default:
		res = rUnknown
	}
	if err == nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	if res != rUnknown {
		return res, model
	}
	s.slow++
	if s.slow < 4 {
		if m := s.sample(q, 300*time.Millisecond); m != nil {
			return rSat, m
		}
	}
	if r, _ := s.oneShot(q, false, true, 8*time.Second); r == rUnsat {
		return rUnsat, nil
	}
	return s.oneShot(q, wantModel, false, hardMs*time.Millisecond)
}

// sample looks for a satisfying assignment by evaluating the constraints on mutated models.
// It can only ever answer sat (the witness is checked exactly); it never contributes an unsat.
func (s *Solver) sample(q *Term, limit time.Duration) map[string]uint64 {
	if q == nil {
		return nil
	}
	end := time.Now().Add(limit)
	var vars []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OBoolVar {
			vars = append(vars, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(q)
	if len(vars) == 0 {
		return nil
	}
	for i := 0; i < 20000 && time.Now().Before(end); i++ {
		m := make(map[string]uint64, len(s.hint)+len(vars))
		for k, v := range s.hint {
			m[k] = v
		}
		n := 1
		if i%3 == 2 {
			n = len(vars)
		}
		for j := 0; j < n; j++ {
			v := vars[s.rng.Intn(len(vars))]
			if n > 1 {
				v = vars[j]
			}
			var x uint64
			switch s.rng.Intn(4) {
			case 0:
				x = uint64(s.rng.Intn(8))
			case 1:
				x = m[v.name] ^ 1<<uint(s.rng.Intn(64))
			default:
				x = s.rng.Uint64()
			}
			m[v.name] = x & maskb(v.w)
		}
		ev := newEval(m)
		if ev.eval(q) != 1 {
			continue
		}
		ok := true
		for _, a := range s.asserts {
			if ev.eval(a) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

func (s *Solver) restartPath() {
	s.stop()
	as := s.asserts
	s.start()
	s.beginPath()
	for _, a := range as {
		s.assert(a)
	}
}

func (s *Solver) getModel() map[string]uint64 {
	model := map[string]uint64{}
	if len(s.vars) == 0 {
		return model
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	txt, err := s.readSexp()
	if err != nil {
		return model
	}
	parseModel(txt, s.vars, model)
	return model
}

func parseModel(txt string, vars []*Term, model map[string]uint64) {
	// values come back in order: ((name val) (name val) ...)
	i := 0
	for _, v := range vars {
		for i < len(txt) && txt[i] != '|' && !isNameStart(txt, i, v.name) {
			i++
		}
		if i >= len(txt) {
			return
		}
		if txt[i] == '|' {
			i += len(v.name) + 2
		} else {
			i += len(v.name)
		}
		j := i
		for j < len(txt) && txt[j] != ')' {
			j++
		}
		val := strings.TrimSpace(txt[i:j])
		if strings.HasPrefix(val, "(_ bv") {
			fmt.Sscanf(val, "(_ bv%d", new(uint64))
		}
		var k uint64
		switch {
		case strings.HasPrefix(val, "#x"):
			fmt.Sscanf(val[2:], "%x", &k)
		case strings.HasPrefix(val, "#b"):
			fmt.Sscanf(val[2:], "%b", &k)
		case val == "true":
			k = 1
		}
		model[v.name] = k
		i = j
	}
}

func isNameStart(txt string, i int, name string) bool {
	return i > 0 && txt[i-1] == '(' && strings.HasPrefix(txt[i:], name)
}

// oneShot re-decides a query that the incremental core gave up on with fresh solver processes.
// With abs set, products, quotients and sums of two unknowns become fresh variables: only an
// unsat answer is meaningful then.
func (s *Solver) oneShot(q *Term, wantModel, abs bool, limit time.Duration) (satRes, map[string]uint64) {
	if rest := time.Until(s.deadline); rest < limit {
		limit = rest
	}
	if limit < 100*time.Millisecond {
		return rUnknown, nil
	}
	atomic.AddInt64(&sstats.fallbacks, 1)
	var sb strings.Builder
	seen := map[*Term]bool{}
	var vars []*Term
	sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	as := s.asserts
	if q != nil {
		as = append(as[:len(as):len(as)], q)
	}
	nabs := 0
	if abs {
		for _, a := range as {
			nabs += smtAbs(a, seen, &sb)
		}
		if nabs == 0 {
			return rUnknown, nil
		}
	}
	for _, a := range as {
		smtDefine(&sb, a, seen, &vars)
		fmt.Fprintf(&sb, "(assert %s)\n", smtRef(a))
	}
	tail := "(check-sat)\n"
	if len(vars) > 0 {
		tail += "(get-value ("
		for _, v := range vars {
			tail += "|" + v.name + "| "
		}
		tail += "))\n"
	}
	body := sb.String()
	type ans struct {
		r satRes
		m map[string]uint64
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit+time.Second)
	defer cancel()
	ch := make(chan ans, 3)
	run := func(text string, name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(text)
		go func() {
			out, _ := cmd.Output()
			txt := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(txt, "sat"):
				m := map[string]uint64{}
				parseModel(txt[3:], vars, m)
				ch <- ans{rSat, m}
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{rUnsat, nil}
			default:
				ch <- ans{rUnknown, nil}
			}
		}()
	}
	secs := int(limit/time.Second) + 1
	n := 1
	run(strings.Replace(body, "(set-logic ALL)", "", 1)+strings.Replace(tail, "(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify (or-else qfbv smt)))", 1), "z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs))
	if !abs && !strings.Contains(body, "fp.") {
		run(body+tail, "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", limit.Milliseconds()), "-q")
		run(body+tail, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", limit.Milliseconds()), "-q")
		n = 3
	}
	for i := 0; i < n; i++ {
		if a := <-ch; a.r != rUnknown {
			return a.r, a.m
		}
	}
	return rUnknown, nil
}

// smtAbs declares every multiplication-like node below t as a fresh constant of its width.
func smtAbs(t *Term, seen map[*Term]bool, sb *strings.Builder) int {
	done := map[*Term]bool{}
	n := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || done[t] {
			return
		}
		done[t] = true
		switch t.op {
		case OMul, OUdiv, OUrem, OSdiv, OSrem, OAdd, OSub:
			if t.op == OMul || !t.a.isC() && !t.b.isC() {
				if !seen[t] {
					seen[t] = true
					fmt.Fprintf(sb, "(declare-const t%d %s)\n", t.id, sortName(t.w))
				}
				n++
				return
			}
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
	return n
}
