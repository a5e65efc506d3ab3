package main

// A live SMT-LIB2 solver process (QF_BV), queried with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

var solverGen uint32

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	gen     uint32
	tabs    map[int]bool
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Time    time.Duration
	name    string
	args    []string
	dump    io.Writer
	emitted map[*Term]bool
	nEmit   int
}

func NewSolver(ctx *Ctx, name string, args ...string) *Solver {
	s := &Solver{ctx: ctx, name: name, args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", s.name, err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[*Term]bool{}
	s.tabs = map[int]bool{}
	s.nEmit = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.name, "z3") {
		s.send("(set-option :timeout 20000)\n")
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.send("(exit)\n")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) emit(t *Term) {
	if t == nil || t.op == OConst || s.emitted[t] {
		return
	}
	s.emitted[t] = true
	s.nEmit++
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const v%d %s)\n", t.val, sortOf(t.w)))
		return
	}
	s.emit(t.a)
	s.emit(t.b)
	s.emit(t.c)
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, s.ref(t.a))
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OFn:
		s.emitTable(int(t.val))
		x := s.ref(t.a)
		if t.a.w < 8 {
			x = fmt.Sprintf("((_ zero_extend %d) %s)", 8-t.a.w, x)
		}
		body = fmt.Sprintf("(tab%d %s)", t.val, x)
	default:
		body = "(" + opNames[t.op]
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				body += " " + s.ref(x)
			}
		}
		body += ")"
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortOf(t.w) + " " + body + ")\n")
}

func (s *Solver) emitTable(id int) {
	if s.tabs[id] {
		return
	}
	s.tabs[id] = true
	tab := s.ctx.tables[id]
	k := func(v uint64) string {
		if tab.w == 0 {
			if v != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", v, tab.w)
	}
	// balanced decision tree, collapsing equal halves
	var build func(lo, n int) string
	build = func(lo, n int) string {
		same := true
		for i := 1; i < n; i++ {
			if tab.vals[lo+i] != tab.vals[lo] {
				same = false
				break
			}
		}
		if same {
			return k(tab.vals[lo])
		}
		h := n / 2
		return fmt.Sprintf("(ite (bvult x (_ bv%d 8)) %s %s)", lo+h, build(lo, h), build(lo+h, h))
	}
	s.send(fmt.Sprintf("(define-fun tab%d ((x (_ BitVec 8))) %s %s)\n", id, sortOf(tab.w), build(0, 256)))
}

// Check decides the conjunction; on Sat it returns values for all its vars.
func (s *Solver) Check(cs []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.nEmit > 400000 { // bound the solver's memory
		s.Close()
		s.start()
	}
	var vars []int32
	seen := map[int32]bool{}
	for _, c := range cs {
		s.emit(c)
		for _, v := range s.ctx.Vars(c) {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	s.send("(push 1)\n")
	for _, c := range cs {
		s.send("(assert " + s.ref(c) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var m Model
	var r SatResult
	switch line {
	case "sat":
		r = Sat
		s.SatN++
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, "v%d ", v)
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.parseValues(s.readSexp(), m)
		}
	case "unsat":
		r = Unsat
		s.UnsatN++
	default:
		r = Unknown
		s.UnkN++
		if strings.HasPrefix(line, "(error") || line == "" {
			// the solver is in an undefined state: restart
			s.Close()
			s.start()
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	return r, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	depth, started := 0, false
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func (s *Solver) parseValues(x string, m Model) {
	f := strings.FieldsFunc(x, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); {
		if f[i][0] != 'v' {
			i++
			continue
		}
		id64, _ := strconv.ParseInt(f[i][1:], 10, 32)
		id := int32(id64)
		v := f[i+1]
		i += 2
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			for _, ch := range v[2:] {
				u = u<<1 | uint64(ch-'0')
			}
		case v == "_":
			u, _ = strconv.ParseUint(f[i][2:], 10, 64)
			i += 2
		}
		m[id] = u
	}
}
