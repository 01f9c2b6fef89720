package cv

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stats are global counters over all solver use of the run.
type Stats struct {
	Queries   atomic.Int64
	Z3        atomic.Int64 // goals discharged by the incremental z3
	Z3b       atomic.Int64 // goals discharged by one-shot z3 4.8
	Cvc5      atomic.Int64
	Simplify  atomic.Int64 // goals discharged by the simplifier
	SolverNS  atomic.Int64
	mu        sync.Mutex
	Worst     time.Duration
	WorstName string
}

var GStats Stats

const z3Bin = "z3-new"

// Solver is an incremental z3 process kept in step with a path condition.
type Solver struct {
	c         *Ctx
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	ndecl     int
	assertLvl []int // level at which background assert i was sent (-1: pending)
	nass      int
	levels    []*Term // asserted path terms, one per level
	named     map[*Term]string
	dead      bool
	curTO     int
	log       io.Writer
}

const prelude = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :model true)
`

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(z3Bin, "-in", "-smt2", "memory_max_size=3000")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", z3Bin, err))
	}
	s.cmd, s.in, s.out = cmd, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.ndecl, s.nass, s.levels, s.named = 0, 0, nil, map[*Term]string{}
	s.assertLvl = nil
	s.dead = false
	s.curTO = 0
	if p := os.Getenv("GOCV_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.log = f
	}
	s.write(prelude)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) write(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

// flushDecls sends new declarations and (re)sends background assertions.
func (s *Solver) flushDecls() {
	for ; s.ndecl < len(s.c.decls); s.ndecl++ {
		s.write(s.c.decls[s.ndecl])
		s.write("\n")
	}
	for len(s.assertLvl) < len(s.c.asserts) {
		s.assertLvl = append(s.assertLvl, -1)
	}
	if s.nass < len(s.c.asserts) {
		lvl := len(s.levels)
		for i := range s.assertLvl {
			if s.assertLvl[i] < 0 {
				if a := s.c.asserts[i]; a.t != nil {
					s.write("(assert " + s.str(a.t) + ")\n")
				} else {
					s.write(a.s + "\n")
				}
				s.assertLvl[i] = lvl
			}
		}
		s.nass = len(s.c.asserts)
	}
}

func (s *Solver) popTo(n int) {
	if k := len(s.levels) - n; k > 0 {
		s.write(fmt.Sprintf("(pop %d)\n", k))
		s.levels = s.levels[:n]
		for i := range s.assertLvl {
			if s.assertLvl[i] > n {
				s.assertLvl[i] = -1
				s.nass = -1
			}
		}
	}
}

// name defines shared names for big subterms of t.
func (s *Solver) name(t *Term) {
	if t.size < 12 || len(t.args) == 0 {
		return
	}
	if _, ok := s.named[t]; ok {
		return
	}
	for _, a := range t.args {
		s.name(a)
	}
	if t.bound || t.sort == nil {
		return
	}
	n := fmt.Sprintf("t!%d", t.id)
	var b strings.Builder
	fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort.Name)
	printTerm(&b, t, s.named, 0)
	b.WriteString(")\n")
	s.write(b.String())
	s.named[t] = n
}

func (s *Solver) str(t *Term) string {
	s.name(t)
	var b strings.Builder
	printTerm(&b, t, s.named, 1)
	return b.String()
}

func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.levels) && pc[i] == s.levels[i] {
		i++
	}
	s.popTo(i)
	s.flushDecls()
	for ; i < len(pc); i++ {
		txt := s.str(pc[i])
		s.flushDecls()
		s.write("(push 1)\n(assert " + txt + ")\n")
		s.levels = append(s.levels, pc[i])
	}
	s.flushDecls()
}

// Check asks whether pc entails goal within ms milliseconds: "unsat" means yes.
func (s *Solver) Check(pc []*Term, goal *Term, ms int) string {
	if s.dead || s.cmd == nil {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	defer func() { GStats.SolverNS.Add(int64(time.Since(t0))); GStats.Queries.Add(1) }()
	s.sync(pc)
	neg := s.str(s.c.Not(goal))
	s.flushDecls()
	if s.curTO != ms {
		s.write(fmt.Sprintf("(set-option :timeout %d)\n", ms))
		s.curTO = ms
	}
	s.write("(push 1)\n(assert " + neg + ")\n(check-sat)\n(pop 1)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return "error " + err.Error()
	}
	res := make(chan string, 1)
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				res <- "error " + err.Error()
				return
			}
			l = strings.TrimSpace(l)
			switch l {
			case "sat", "unsat", "unknown", "timeout":
				res <- l
				return
			}
			if strings.HasPrefix(l, "(error") {
				if strings.Contains(l, "canceled") || strings.Contains(l, "push") {
					continue
				}
				res <- l
				return
			}
		}
	}()
	select {
	case r := <-res:
		if strings.HasPrefix(r, "error") || strings.HasPrefix(r, "(error") {
			s.dead = true
			if os.Getenv("GOCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER:", r)
			}
		}
		return r
	case <-time.After(time.Duration(ms)*time.Millisecond*3 + 3*time.Second):
		s.dead = true
		return "timeout"
	}
}

// Script renders a stand-alone query for pc => goal.
func (s *Solver) Script(pc []*Term, goal *Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, d := range s.c.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	tmp := &Solver{c: s.c, named: map[*Term]string{}, in: bufio.NewWriter(&b)}
	for _, d := range s.c.asserts {
		if d.t != nil {
			l := "(assert " + tmp.str(d.t) + ")\n"
			tmp.in.Flush()
			b.WriteString(l)
		} else {
			b.WriteString(d.s + "\n")
		}
	}
	var lines []string
	for _, p := range append(append([]*Term{}, pc...), s.c.Not(goal)) {
		lines = append(lines, "(assert "+tmp.str(p)+")\n")
	}
	tmp.in.Flush()
	for _, l := range lines {
		b.WriteString(l)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// OneShot runs an external solver on a script.
func OneShot(script string, sec int, name string, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	GStats.SolverNS.Add(int64(time.Since(t0)))
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

func (s *Solver) fallback(pc []*Term, goal *Term, sec int) (string, string) {
	sc := s.Script(pc, goal)
	type r struct{ res, by string }
	ch := make(chan r, 2)
	go func() {
		ch <- r{OneShot(sc, sec, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), "-"), "cvc5"}
	}()
	go func() {
		ch <- r{OneShot("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+sc, sec, "z3", "-in", "-smt2", fmt.Sprintf("-T:%d", sec), "memory_max_size=3000"), "z3"}
	}()
	last := r{"unknown", ""}
	for i := 0; i < 2; i++ {
		x := <-ch
		if x.res == "unsat" {
			return x.res, x.by
		}
		if x.res == "sat" {
			last = x
		}
	}
	return last.res, last.by
}
