package main

// Printing terms as SMT-LIB and running the solvers.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// dtDecls holds extra datatype declarations (struct-valued map keys), in order.
var dtDecls []string
var dtDeclared = map[string]bool{}

const anyDecl = `(declare-datatypes ((Any 0)) (((anil) (vInt (tI Int) (iv Int)) (vStr (tS Int) (sv String)) (vBool (tB Int) (bv Bool)) (vFlt (tF Int) (fv (_ FloatingPoint 11 53))) (vRef (tR Int) (rv Int)) (vBox (tX Int) (xv Int)))))`

func init() {
	dtSels["anil"] = nil
	dtSels["vInt"] = []string{"tI", "iv"}
	dtSels["vStr"] = []string{"tS", "sv"}
	dtSels["vBool"] = []string{"tB", "bv"}
	dtSels["vFlt"] = []string{"tF", "fv"}
	dtSels["vRef"] = []string{"tR", "rv"}
	dtSels["vBox"] = []string{"tX", "xv"}
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\':
			sb.WriteString(`\u{5c}`)
		case c >= 32 && c < 127:
			sb.WriteByte(c)
		default:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func symName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!?$%&*+-/<=>@^~", r)) {
			return "|" + strings.NewReplacer("|", "!!", "\\", "!b").Replace(s) + "|"
		}
	}
	return s
}

type printer struct {
	sb    strings.Builder
	names map[*Term]string // printed definition names
	n     int
	// uninterpreted strings: literals and operations seen
	ustr bool
	lits map[string]string
	lord []string
	uops map[string]string
}

// sort prints a sort.
func (p *printer) sort(s Sort) string {
	if p.ustr {
		return strings.ReplaceAll(string(s), "String", "UStr")
	}
	return string(s)
}

func (p *printer) lit(v string) string {
	if !p.ustr {
		return smtString(v)
	}
	if n, ok := p.lits[v]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(p.lits))
	p.lits[v] = n
	p.lord = append(p.lord, v)
	return n
}

// uop names the uninterpreted counterpart of a string operation.
func (p *printer) uop(t *Term) string {
	n := strings.NewReplacer("++", "cat", "<=", "le", "<", "lt").Replace(t.Op[4:])
	nm := fmt.Sprintf("u.%s.%d", n, len(t.Args))
	var as []string
	for _, a := range t.Args {
		as = append(as, p.sort(a.Sort))
	}
	p.uops[nm] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", nm, strings.Join(as, " "), p.sort(t.Sort))
	return nm
}

// ustrAxioms: facts about strings that hold of the real operations.
func (p *printer) ustrAxioms() string {
	var sb strings.Builder
	has := func(n string) bool { _, ok := p.uops[n]; return ok }
	if len(p.lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, v := range p.lord {
			sb.WriteString(" " + p.lits[v])
		}
		sb.WriteString("))\n")
	}
	if has("u.len.1") {
		for _, v := range p.lord {
			fmt.Fprintf(&sb, "(assert (= (u.len.1 %s) %d))\n", p.lits[v], len(v))
		}
		sb.WriteString("(assert (forall ((s UStr)) (! (<= 0 (u.len.1 s)) :pattern ((u.len.1 s)))))\n")
		if e, ok := p.lits[""]; ok {
			fmt.Fprintf(&sb, "(assert (forall ((s UStr)) (! (=> (= (u.len.1 s) 0) (= s %s)) :pattern ((u.len.1 s)))))\n", e)
		}
		if has("u.indexof.3") {
			sb.WriteString("(assert (forall ((s UStr)(t UStr)) (! (and (<= (- 1) (u.indexof.3 s t 0)) (=> (<= 0 (u.indexof.3 s t 0)) (<= (+ (u.indexof.3 s t 0) (u.len.1 t)) (u.len.1 s)))) :pattern ((u.indexof.3 s t 0)))))\n")
		}
		if has("u.substr.3") {
			sb.WriteString("(assert (forall ((s UStr)(i Int)(n Int)) (! (=> (and (<= 0 i) (<= 0 n) (<= (+ i n) (u.len.1 s))) (= (u.len.1 (u.substr.3 s i n)) n)) :pattern ((u.substr.3 s i n)))))\n")
			sb.WriteString("(assert (forall ((s UStr)) (! (= (u.substr.3 s 0 (u.len.1 s)) s) :pattern ((u.substr.3 s 0 (u.len.1 s))))))\n")
		}
		if has("u.cat.2") {
			sb.WriteString("(assert (forall ((s UStr)(t UStr)) (! (= (u.len.1 (u.cat.2 s t)) (+ (u.len.1 s) (u.len.1 t))) :pattern ((u.cat.2 s t)))))\n")
		}
	}
	if has("u.lt.2") {
		sb.WriteString("(assert (forall ((s UStr)) (! (not (u.lt.2 s s)) :pattern ((u.lt.2 s s)))))\n")
		sb.WriteString("(assert (forall ((s UStr)(t UStr)) (! (or (u.lt.2 s t) (u.lt.2 t s) (= s t)) :pattern ((u.lt.2 s t)))))\n")
		sb.WriteString("(assert (forall ((s UStr)(t UStr)) (! (not (and (u.lt.2 s t) (u.lt.2 t s))) :pattern ((u.lt.2 s t)))))\n")
		sb.WriteString("(assert (forall ((s UStr)(t UStr)(v UStr)) (! (=> (and (u.lt.2 s t) (u.lt.2 t v)) (u.lt.2 s v)) :pattern ((u.lt.2 s t) (u.lt.2 t v)))))\n")
	}
	return sb.String()
}

// countRefs counts references of subterms reachable from roots (not
// descending twice).
func countRefs(t *Term, cnt map[*Term]int) {
	cnt[t]++
	if cnt[t] > 1 {
		return
	}
	for _, a := range t.Args {
		countRefs(a, cnt)
	}
}

func (p *printer) defineShared(roots []*Term) {
	cnt := map[*Term]int{}
	for _, r := range roots {
		countRefs(r, cnt)
	}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if done[t] || len(t.Args) == 0 {
			return
		}
		done[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if cnt[t] > 1 && !t.bound && t.Op != "constarr" {
			p.n++
			nm := fmt.Sprintf("d!%d", p.n)
			s := p.str(t, nil)
			fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", nm, p.sort(t.Sort), s)
			p.names[t] = nm
		}
	}
	for _, r := range roots {
		walk(r)
	}
}

func (p *printer) str(t *Term, local map[*Term]string) string {
	if local != nil {
		if n, ok := local[t]; ok {
			return n
		}
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.Op {
	case "var", "bound":
		return symName(t.Name)
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.I.String(), "-") + ")"
		}
		return t.I.String()
	case "str":
		return p.lit(t.Name)
	case "fp", "raw":
		return t.Name
	case "true", "false":
		return t.Op
	case "forall", "exists":
		// shared subterms of the body that mention bound variables
		cnt := map[*Term]int{}
		countRefs(t.Args[0], cnt)
		own := map[*Term]bool{}
		for _, v := range t.Vars {
			own[v] = true
		}
		l2 := map[*Term]string{}
		for k, v := range local {
			l2[k] = v
		}
		var lets []string
		done := map[*Term]bool{}
		var walk func(x *Term)
		// available bound variables: those of enclosing quantifiers are
		// always in scope here.
		inScope := map[*Term]bool{}
		for _, v := range freeBoundOf(t.Args[0]) {
			inScope[v] = true
		}
		walk = func(x *Term) {
			if done[x] || len(x.Args) == 0 || !x.bound && x.Op != "forall" {
				return
			}
			if !x.bound {
				return
			}
			done[x] = true
			if _, ok := l2[x]; ok {
				return
			}
			for _, a := range x.Args {
				walk(a)
			}
			if cnt[x] > 1 {
				ok := true
				for _, v := range freeBoundOf(x) {
					if !inScope[v] {
						ok = false
					}
				}
				if ok {
					p.n++
					nm := fmt.Sprintf("l!%d", p.n)
					lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", nm, p.str(x, l2)))
					l2[x] = nm
				}
			}
		}
		walk(t.Args[0])
		body := p.str(t.Args[0], l2)
		body = strings.Join(lets, "") + body + strings.Repeat(")", len(lets))
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(&sb, "(%s %s)", symName(v.Name), p.sort(v.Sort))
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! " + body)
			for _, pt := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.str(x, local))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	head := t.Op
	switch t.Op {
	case "app", "ctor", "sel":
		head = symName(t.Name)
		if len(t.Args) == 0 {
			return head
		}
	case "is":
		head = "(_ is " + symName(t.Name) + ")"
	case "constarr":
		head = "(as const " + p.sort(t.Sort) + ")"
	}
	if p.ustr && strings.HasPrefix(t.Op, "str.") {
		if t.Op == "str.contains" {
			t = StrOp("str.indexof", SInt, t.Args[0], t.Args[1], Int(0))
			return "(<= 0 (" + p.uop(t) + " " + p.str(t.Args[0], local) + " " + p.str(t.Args[1], local) + " 0))"
		}
		head = p.uop(t)
	}
	var sb strings.Builder
	sb.WriteString("(" + head)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a, local))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Script renders "assert all of asserts; check-sat"; with mode "ustr" the
// string operations are uninterpreted (weaker: only unsat means anything).
func Script(asserts []*Term, getModel []*Term, mode string) string {
	p := &printer{names: map[*Term]string{}, ustr: mode == "ustr", lits: map[string]string{}, uops: map[string]string{}}
	vars := map[*Term]bool{}
	fns := map[string]*Term{}
	seen := map[*Term]bool{}
	for _, a := range asserts {
		symbols(a, vars, fns, seen)
	}
	var hdr strings.Builder
	hdr.WriteString("(set-logic ALL)\n")
	if p.ustr {
		hdr.WriteString("(declare-sort UStr 0)\n")
	}
	hdr.WriteString(p.sort(anyDecl) + "\n")
	for _, d := range dtDecls {
		hdr.WriteString(p.sort(Sort(d)) + "\n")
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&hdr, "(declare-fun %s () %s)\n", symName(v.Name), p.sort(v.Sort))
	}
	var fs []string
	for f := range fns {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		t := fns[f]
		var as []string
		for _, a := range t.Args {
			as = append(as, p.sort(a.Sort))
		}
		fmt.Fprintf(&hdr, "(declare-fun %s (%s) %s)\n", symName(f), strings.Join(as, " "), p.sort(t.Sort))
	}
	p.defineShared(asserts)
	for _, a := range asserts {
		fmt.Fprintf(&p.sb, "(assert %s)\n", p.str(a, nil))
	}
	if p.ustr {
		if len(p.uops) == 0 {
			return ""
		}
		p.lit("")
		for _, v := range p.lord {
			fmt.Fprintf(&hdr, "(declare-fun %s () UStr)\n", p.lits[v])
		}
		var ns []string
		for n := range p.uops {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			hdr.WriteString(p.uops[n])
		}
		hdr.WriteString(p.ustrAxioms())
	}
	return hdr.String() + p.sb.String() + "(check-sat)\n"
}

type Result struct {
	Status string // "unsat", "sat", "unknown"
	Solver string
	Dur    time.Duration
	Out    string
}

var (
	solverSem  = make(chan struct{}, 8)
	solverTime int64 // nanoseconds
	solverRuns int64
	scratchDir string
)

type solverCfg struct {
	name string
	args []string
}

// uportfolio runs on the script with uninterpreted strings.
var uportfolio = []solverCfg{
	{"z3-new/ustr", []string{"z3-new", "smt.random_seed=1"}},
	{"z3-mbqi0/ustr", []string{"z3-new", "smt.random_seed=1", "smt.mbqi=false", "auto_config=false"}},
	{"cvc5/ustr", []string{"cvc5", "--seed=1"}},
}

var portfolio = []solverCfg{
	{"z3-new", []string{"z3-new", "smt.random_seed=1"}},
	{"cvc5", []string{"cvc5", "--strings-exp", "--seed=1"}},
	{"z3-mbqi0", []string{"z3-new", "smt.random_seed=1", "smt.mbqi=false", "auto_config=false"}},
	{"z3-old", []string{"z3", "smt.random_seed=1"}},
	{"cvc5-enum", []string{"cvc5", "--strings-exp", "--enum-inst"}},
}

// runOne runs one solver on a script file.
func runOne(ctx context.Context, cfg solverCfg, file string, to time.Duration) Result {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return Result{Status: "unknown", Solver: cfg.name}
	}
	defer func() { <-solverSem }()
	t0 := time.Now()
	args := append([]string{}, cfg.args[1:]...)
	if strings.HasPrefix(cfg.args[0], "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(to.Seconds())+1), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", to.Milliseconds()))
	}
	args = append(args, file)
	c2, cancel := context.WithTimeout(ctx, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, cfg.args[0], args...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	_ = cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverRuns, 1)
	st := "unknown"
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			st = l
			break
		}
	}
	if strings.Contains(s, "(error") {
		st = "unknown" // a rejected command: the answer means nothing
	}
	if strings.Contains(s, "(error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, cfg.name, file, s)
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return Result{Status: st, Solver: cfg.name, Dur: d, Out: s}
}

var scriptSeq int64

var smtMu sync.Mutex

// pf picks solver configurations by name.
func pf(names ...string) []solverCfg {
	var out []solverCfg
	for _, n := range names {
		for _, c := range append(append([]solverCfg{}, portfolio...), uportfolio...) {
			if c.name == n {
				out = append(out, c)
			}
		}
	}
	return out
}

// SolveScript decides a script with the given solvers, and its variant with
// uninterpreted strings (where there is one) with the others; the first
// conclusive answer wins.
func SolveScript(script, uscript string, to time.Duration, full, ustr []solverCfg) Result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Result, len(portfolio)+len(uportfolio))
	runs := 0
	launch := func(text string, cfgs []solverCfg) {
		if text == "" || len(cfgs) == 0 {
			return
		}
		file := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&scriptSeq, 1)))
		if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
			return
		}
		var wg sync.WaitGroup
		for i := range cfgs {
			runs++
			wg.Add(1)
			go func(c solverCfg) { defer wg.Done(); ch <- runOne(ctx, c, file, to) }(cfgs[i])
		}
		if os.Getenv("GOVC_KEEP") == "" {
			go func() { wg.Wait(); os.Remove(file) }()
		}
	}
	launch(uscript, ustr)
	launch(script, full)
	last := Result{Status: "unknown"}
	for i := 0; i < runs; i++ {
		r := <-ch
		if r.Status == "unsat" || r.Status == "sat" && !strings.HasSuffix(r.Solver, "/ustr") {
			return r
		}
		last = r
	}
	last.Status = "unknown"
	return last
}
