package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const vcImport = repoMod + "/internal/vc"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// spec files of a property: specs/<pkg>/<id>_*.go and specs/<pkg>/common*.go
// (contracts, loaded by the verifier and by the concrete runner) and
// specs/<pkg>/e2e_<id>*.go (executable oracles, concrete runner only).
type specFile struct {
	pkg  string // directory relative to the repository
	src  string // path under /verif/specs
	dst  string // overlay path under /repo
	e2e  bool
	lib  bool
	bad  string // reason it was dropped
	body []byte
}

func findSpecs(id string) []*specFile {
	low := strings.ToLower(id)
	var out []*specFile
	root := filepath.Join(verifDir, "specs")
	var all []*specFile
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		dir = filepath.Clean(dir)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		s := &specFile{pkg: dir, src: p, dst: filepath.Join(repoDir, dir, "zzvc_"+base), body: b}
		s.lib = strings.HasPrefix(dir, "internal/")
		s.e2e = strings.HasPrefix(base, "e2e_")
		name := strings.TrimPrefix(base, "e2e_")
		if s.lib || strings.HasPrefix(name, low+"_") || strings.HasPrefix(name, low+".") || strings.HasPrefix(name, "common") {
			all = append(all, s)
		}
		return nil
	})
	used := map[string]bool{}
	for _, s := range all {
		if !s.lib && !strings.HasPrefix(strings.TrimPrefix(filepath.Base(s.src), "e2e_"), "common") {
			used[s.pkg] = true
		}
	}
	for _, s := range all {
		if s.lib || used[s.pkg] {
			out = append(out, s)
		}
	}
	return out
}

func loadProgram(specs []*specFile) (*ssa.Program, []*packages.Package, error) {
	for try := 0; ; try++ {
		ov := map[string][]byte{}
		pats := map[string]bool{"./internal/vc": true}
		for _, s := range specs {
			if s.bad != "" || s.e2e {
				continue
			}
			ov[s.dst] = s.body
			pats["./"+s.pkg] = true
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov}
		ps, err := packages.Load(cfg, sortStrings(pats)...)
		if err != nil {
			return nil, nil, err
		}
		dropped := false
		var firstErr error
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				hit := false
				for _, s := range specs {
					if s.bad == "" && !s.e2e && !s.lib && strings.HasPrefix(er.Pos, s.dst+":") {
						s.bad = er.Error()
						dropped, hit = true, true
					}
				}
				if !hit && firstErr == nil {
					firstErr = fmt.Errorf("%s", er.Error())
				}
			}
		})
		if dropped && try < 20 {
			continue
		}
		if firstErr != nil {
			return nil, nil, firstErr
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
		prog.Build()
		return prog, ps, nil
	}
}

type harness struct {
	Name     string
	Fn       *ssa.Function
	Spec     *specFile
	verifies []string
}

type stubDecl struct {
	key string
	fn  *ssa.Function
}

type harnessResult struct {
	H           *harness
	Obls        []*Obligation
	Facts       []*Term
	Impl        []*Term
	Requires    []*Term
	Covers      []*Obligation
	Unsupported string
	Bounded     bool
	Fns         []string
	Models      []string
	Stubs       []string
	Assumes     []string
	Exec        time.Duration
	Strs        []string
	Ints        []int64
	Inconsist   bool
	memo        map[*Term]*Term
}

var dirRe = regexp.MustCompile(`(?m)^//vc:(\w+)[ \t]*(.*)$`)

func collect(prog *ssa.Program, ps []*packages.Package, specs []*specFile, id string) ([]*harness, []stubDecl) {
	var hs []*harness
	var stubs []stubDecl
	for _, p := range ps {
		sp := prog.Package(p.Types)
		for i, f := range p.Syntax {
			file := p.CompiledGoFiles[i]
			var spec *specFile
			for _, s := range specs {
				if s.dst == file {
					spec = s
				}
			}
			if spec == nil {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				var ver []string
				if fd.Doc != nil {
					txt := ""
					for _, c := range fd.Doc.List {
						txt += c.Text + "\n"
					}
					for _, m := range dirRe.FindAllStringSubmatch(txt, -1) {
						switch m[1] {
						case "stub":
							stubs = append(stubs, stubDecl{strings.TrimSpace(m[2]), fn})
						case "verifies":
							ver = append(ver, strings.TrimSpace(m[2]))
						}
					}
				}
				if strings.HasPrefix(fd.Name.Name, "VC_"+id+"_") {
					hs = append(hs, &harness{fd.Name.Name, fn, spec, ver})
				}
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs, stubs
}

func (e *Engine) runHarness(h *harness, stubs []stubDecl) (r *harnessResult) {
	e.reset()
	r = &harnessResult{H: h}
	t0 := time.Now()
	for _, s := range stubs {
		for _, v := range h.verifies {
			if v == s.key {
				e.verifying[s.key] = true
			}
		}
		e.stubs[s.key] = s.fn
	}
	e.harness = h.Name
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(Unsupported); ok {
				r.Unsupported = u.Msg
			} else {
				r.Unsupported = fmt.Sprintf("internal error: %v", x)
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s", h.Name, x, debug.Stack())
				}
			}
		}
		r.Exec = time.Since(t0)
		r.Obls, r.Facts, r.Impl, r.Requires, r.Covers = e.obls, e.facts, e.implAxioms(), e.requires, e.covers
		r.Bounded = e.bounded
		for k := range e.inlined {
			if !strings.Contains(k, "VC_") && !strings.Contains(k, "internal/vc.") {
				r.Fns = append(r.Fns, k)
			}
		}
		sort.Strings(r.Fns)
		for k := range e.modelsUsed {
			r.Models = append(r.Models, k)
		}
		sort.Strings(r.Models)
		for k := range e.stubsUsed {
			r.Stubs = append(r.Stubs, k)
		}
		sort.Strings(r.Stubs)
		for k := range e.assumes {
			r.Assumes = append(r.Assumes, k)
		}
		sort.Strings(r.Assumes)
		e.stack = nil
	}()
	st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Value{}}
	st.allocB = e.newAllocBase()
	e.allocBase0 = st.allocB
	e.fact(Le(Int(1), st.allocB))
	var args []Value
	for _, p := range h.Fn.Params {
		args = append(args, e.symbolic(st, "arg|"+p.Name(), p.Type()))
	}
	e.execFunc(h.Fn, args, nil, st)
	return r
}

// constants collects the literals of a function for the concrete dictionary.
func constants(fn *ssa.Function, strs map[string]bool, ints map[int64]bool, seen map[*ssa.Function]bool, depth int) {
	if fn == nil || seen[fn] || depth < 0 {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch c := (*op).(type) {
				case *ssa.Const:
					if c.Value == nil {
						continue
					}
					if b, ok := under(c.Type()).(*types.Basic); ok {
						if b.Info()&types.IsString != 0 {
							s := c.Value.ExactString()
							if u, err := strconv.Unquote(s); err == nil && len(u) < 80 {
								strs[u] = true
							}
						} else if b.Info()&types.IsInteger != 0 && c.Value.Kind().String() == "Int" {
							ints[c.Int64()] = true
						}
					}
				case *ssa.Function:
					if p := fnPkg(c); strings.HasPrefix(p, repoMod) {
						constants(c, strs, ints, seen, depth-1)
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		constants(a, strs, ints, seen, depth-1)
	}
}

type concreteReport struct {
	Reports []struct {
		Harness   string
		Runs      int
		Discarded int
		Checked   int `json:"clauses_checked"`
		Sample    string
		Failure   *struct {
			Harness   string
			Clause    string
			Args      string
			Seed      int64
			Iteration int
			Stack     string
		}
	}
	E2E []struct {
		Name     string
		Cases    int
		Distinct int
		Rule     string
		Samples  []string
		Known    []string
		Failures []struct{ Key, Detail string }
		Panic    string
	}
}

type pkgRun struct {
	pkg   string
	rep   concreteReport
	out   string
	err   error
	build bool // failed to build
	dropE2E []string
}

// runConcrete runs contracts (and oracles) of one package on concrete inputs.
func runConcrete(id, tier, pkg, pkgName string, specs []*specFile, names []string, e2e []string, dict string, iters int, perHarness, total time.Duration, seed int64, tag string) *pkgRun {
	pr := &pkgRun{pkg: pkg}
	repl := map[string]string{}
	for _, s := range specs {
		if s.bad != "" || !(s.lib || s.pkg == pkg) || s.e2e && len(e2e) == 0 {
			continue
		}
		repl[s.dst] = s.src
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tvcrt %q\n)\n\nfunc TestZZVC(t *testing.T) {\n\tvcrt.Main(t,\n\t\tmap[string]any{\n", pkgName, vcImport)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t\t},\n\t\tmap[string]func(*vcrt.E2E){\n")
	for _, n := range e2e {
		fmt.Fprintf(&sb, "\t\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t\t})\n}\n")
	base := filepath.Join(scratchDir, tag+strings.ReplaceAll(pkg, "/", "_"))
	if err := os.WriteFile(base+"_run.go", []byte(sb.String()), 0o644); err != nil {
		pr.err = err
		return pr
	}
	repl[filepath.Join(repoDir, pkg, "zzvc_run_test.go")] = base + "_run.go"
	// the package's own tests are not needed
	if es, err := os.ReadDir(filepath.Join(repoDir, pkg)); err == nil {
		for _, en := range es {
			if strings.HasSuffix(en.Name(), "_test.go") {
				repl[filepath.Join(repoDir, pkg, en.Name())] = ""
			}
		}
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	_ = os.WriteFile(base+"_overlay.json", ovb, 0o644)
	bin := base + ".test"
	bc := exec.Command("go", "test", "-c", "-vet=off", "-overlay", base+"_overlay.json", "-o", bin, "./"+pkg)
	bc.Dir = repoDir
	if o, err := bc.CombinedOutput(); err != nil {
		pr.build, pr.err, pr.out = true, err, string(o)
		return pr
	}
	work := base + "_work"
	_ = os.MkdirAll(work, 0o755)
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(int(total.Seconds())+20), bin, "-test.run", "^TestZZVC$", "-test.timeout", "0")
	cmd.Dir = filepath.Join(repoDir, pkg)
	if _, err := os.Stat(cmd.Dir); err != nil {
		cmd.Dir = work
	}
	out := base + "_out.json"
	cmd.Env = append(os.Environ(), "VC_OUT="+out, "VC_DICT="+dict, fmt.Sprintf("VC_ITERS=%d", iters), fmt.Sprintf("VC_LIMIT_MS=%d", perHarness.Milliseconds()),
		fmt.Sprintf("VC_TOTAL_MS=%d", total.Milliseconds()), fmt.Sprintf("VC_SEED=%d", seed), "VC_TIER="+tier, "VC_WORK="+work, "VC_REPO="+repoDir, "VC_PROP="+id, "VC_DATA="+filepath.Join(verifDir, "specs", "testdata"), "VC_KNOWN="+filepath.Join(verifDir, "known-findings.jsonl"), "TMPDIR="+work)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	pr.err = cmd.Run()
	pr.out = buf.String()
	if b, err := os.ReadFile(out); err == nil {
		if er := json.Unmarshal(b, &pr.rep); er == nil {
			pr.err = nil
		} else {
			pr.err = er
		}
	} else if pr.err == nil {
		pr.err = err
	}
	return pr
}

type env struct {
	id, tier string
	seed     int64
	verbose  bool
	only     string
}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: govc check <property> [quick|thorough] [-v] [-only harness] [-repo dir]")
		os.Exit(2)
	}
	ev := env{id: os.Args[2], tier: os.Getenv("VERIF_TIER"), seed: 1}
	if ev.tier == "" {
		ev.tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			ev.seed = n
		}
	}
	for i := 3; i < len(os.Args); i++ {
		switch a := os.Args[i]; a {
		case "quick", "thorough":
			ev.tier = a
		case "-v":
			ev.verbose = true
		case "-only":
			i++
			ev.only = os.Args[i]
		case "-repo":
			i++
			repoDir = os.Args[i]
		case "-verif":
			i++
			verifDir = os.Args[i]
		}
	}
	var err error
	scratchDir, err = os.MkdirTemp("", "govc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := check(ev)
	if os.Getenv("GOVC_KEEP") == "" {
		_ = os.RemoveAll(scratchDir)
	} else {
		fmt.Fprintln(os.Stderr, "scratch:", scratchDir)
	}
	os.Exit(code)
}

func e2eNames(specs []*specFile, id, pkg string) []string {
	re := regexp.MustCompile(`(?m)^func (E2E_` + id + `_\w+)\(`)
	var out []string
	for _, s := range specs {
		if s.e2e && s.pkg == pkg && s.bad == "" {
			for _, m := range re.FindAllSubmatch(s.body, -1) {
				out = append(out, string(m[1]))
			}
		}
	}
	sort.Strings(out)
	return out
}

func vcNames(specs []*specFile, id, pkg string) []string {
	re := regexp.MustCompile(`(?m)^func (VC_` + id + `_\w+)\(`)
	skip := regexp.MustCompile(`(?m)^//vc:logical[^\n]*\n(?://[^\n]*\n)*func (\w+)\(`)
	var out []string
	for _, s := range specs {
		if !s.e2e && s.pkg == pkg && s.bad == "" {
			no := map[string]bool{}
			for _, m := range skip.FindAllSubmatch(s.body, -1) {
				no[string(m[1])] = true
			}
			for _, m := range re.FindAllSubmatch(s.body, -1) {
				if !no[string(m[1])] {
					out = append(out, string(m[1]))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

var pkgClause = regexp.MustCompile(`(?m)^package (\w+)`)

type violation struct {
	title  string
	detail string
	input  bool // has a failing input
}

func check(ev env) int {
	t0 := time.Now()
	specs := findSpecs(ev.id)
	prog, ps, err := loadProgram(specs)
	var hs []*harness
	var stubs []stubDecl
	loadErr := ""
	var results []*harnessResult
	if err != nil {
		loadErr = err.Error()
	} else {
		hs, stubs = collect(prog, ps, specs, ev.id)
	}
	if ev.verbose {
		fmt.Printf("load %.1fs, %d contracts, %d stubs\n", time.Since(t0).Seconds(), len(hs), len(stubs))
	}
	dict := map[string]struct {
		Strs []string
		Ints []int64
	}{}
	var e *Engine
	if prog != nil {
		e = NewEngine(prog, vcImport)
		e.pkgs = map[string]*ssa.Package{}
		for _, p := range prog.AllPackages() {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	// concrete runs in the background, with a dictionary of literals
	for _, h := range hs {
		strs, ints := map[string]bool{}, map[int64]bool{}
		constants(h.Fn, strs, ints, map[*ssa.Function]bool{}, 12)
		d := dict[h.Name]
		d.Strs = sortStrings(strs)
		for i := range ints {
			d.Ints = append(d.Ints, i)
		}
		sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
		dict[h.Name] = d
	}
	dictFile := filepath.Join(scratchDir, "dict.json")
	db, _ := json.Marshal(dict)
	_ = os.WriteFile(dictFile, db, 0o644)
	thorough := ev.tier == "thorough"
	iters, per, total := 4000, 1500*time.Millisecond, 100*time.Second
	if thorough {
		iters, per, total = 60000, 20*time.Second, 500*time.Second
	}
	pkgs := map[string]string{}
	for _, s := range specs {
		if !s.lib {
			if m := pkgClause.FindSubmatch(s.body); m != nil {
				pkgs[s.pkg] = string(m[1])
			}
		}
	}
	var pkgList []string
	for p := range pkgs {
		pkgList = append(pkgList, p)
	}
	sort.Strings(pkgList)
	var runs []*pkgRun
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, p := range pkgList {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			vn, en := vcNames(specs, ev.id, p), e2eNames(specs, ev.id, p)
			if ev.only != "" {
				var v2, e2 []string
				for _, n := range vn {
					if strings.Contains(n, ev.only) {
						v2 = append(v2, n)
					}
				}
				for _, n := range en {
					if strings.Contains(n, ev.only) {
						e2 = append(e2, n)
					}
				}
				vn, en = v2, e2
			}
			if len(vn)+len(en) == 0 {
				return
			}
			r := runConcrete(ev.id, ev.tier, p, pkgs[p], specs, vn, en, dictFile, iters, per, total, ev.seed, "a")
			if r.build && len(en) > 0 && len(vn) > 0 {
				// one of the two kinds may no longer compile
				r1 := runConcrete(ev.id, ev.tier, p, pkgs[p], specs, vn, nil, dictFile, iters, per, total, ev.seed, "b")
				r2 := &pkgRun{}
				var only []*specFile
				for _, s := range specs {
					if s.e2e || s.lib || strings.HasPrefix(filepath.Base(s.src), "common") {
						only = append(only, s)
					}
				}
				r2 = runConcrete(ev.id, ev.tier, p, pkgs[p], only, nil, en, dictFile, iters, per, total, ev.seed, "c")
				mu.Lock()
				runs = append(runs, r1, r2)
				mu.Unlock()
				return
			}
			mu.Lock()
			runs = append(runs, r)
			mu.Unlock()
		}(p)
	}
	// symbolic execution, then solving
	var swg sync.WaitGroup
	sem := make(chan struct{}, 8)
	qto := 20 * time.Second
	if thorough {
		qto = 120 * time.Second
	}
	for _, h := range hs {
		if ev.only != "" && !strings.Contains(h.Name, ev.only) {
			continue
		}
		smtMu.Lock()
		r := e.runHarness(h, stubs)
		smtMu.Unlock()
		if ev.verbose {
			fmt.Printf("  %-40s exec %.2fs obligations %d facts %d %s\n", h.Name, r.Exec.Seconds(), len(r.Obls), len(r.Facts), r.Unsupported)
		}
		results = append(results, r)
		for _, o := range r.Obls {
			swg.Add(1)
			smtMu.Lock()
			qs := o.scripts(r)
			smtMu.Unlock()
			go func(r *harnessResult, o *Obligation, qs []query) {
				defer swg.Done()
				o.solve(qs, qto)
			}(r, o, qs)
		}
		// consistency of the assumptions
		swg.Add(1)
		smtMu.Lock()
		as := append(append([]*Term{}, r.Facts...), r.Impl...)
		script := Script(as, nil, "")
		smtMu.Unlock()
		go func(r *harnessResult) {
			defer swg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			x := SolveScript(script, "", 10*time.Second, pf("z3-new", "cvc5"), nil)
			r.Inconsist = x.Status == "unsat"
		}(r)
	}
	swg.Wait()
	wg.Wait()
	// a second, longer attempt at what no solver decided
	for _, r := range results {
		for _, o := range r.Obls {
			left := 600*time.Second - time.Since(t0)
			if o.Status != "unknown" || left < 420*time.Second {
				continue
			}
			if left > 100*time.Second {
				left = 100 * time.Second
			}
			smtMu.Lock()
			qs := o.scripts(r)
			smtMu.Unlock()
			o.solve(qs, left)
		}
	}
	if ev.verbose {
		for _, r := range results {
			for _, o := range r.Obls {
				if o.Ms > 4000 {
					fmt.Printf("  slow: %s %s %dms %s %s\n", r.H.Name, o.Name, o.Ms, o.Solver, o.Status)
				}
			}
		}
	}
	return report(ev, t0, specs, results, runs, loadErr)
}

type query struct{ full, ustr, ground, uground, focus, ufocus string }

// scripts renders the negated obligation with the relevant facts, one query
// per conjunct of the obligation; none is left when it simplifies away.
func (o *Obligation) scripts(r *harnessResult) []query {
	if r.memo == nil {
		r.memo = map[*Term]*Term{}
	}
	pc, cond := Simplify(o.PC, r.memo), Simplify(o.Cond, r.memo)
	var all []*Term
	seen := map[*Term]bool{}
	for _, f := range r.Facts[:o.NFacts] {
		f = Simplify(f, r.memo)
		for _, c := range conj(f) {
			if c.Op == "false" {
				return nil
			}
			if c.Op != "true" && !seen[c] {
				seen[c] = true
				all = append(all, c)
			}
		}
	}
	for _, a := range r.Impl {
		if a.Op == "false" {
			return nil
		}
	}
	var out []query
	for _, c := range conj(cond) {
		goal := And(pc, Not(c))
		if goal.Op == "false" {
			continue
		}
		for _, goal := range splitStrings(goal, 3) {
			facts := relevant(all, goal)
			as := append(append([]*Term{}, facts...), r.Impl...)
			as = append(as, goal)
			q := query{full: Script(as, nil, ""), ustr: Script(as, nil, "ustr")}
			var gs []*Term
			for _, f := range all {
				if !hasQuant(f, map[*Term]bool{}) {
					gs = append(gs, f)
				}
			}
			gs = append(relevant(gs, goal), goal)
			if len(gs) < len(as) {
				q.ground, q.uground = Script(gs, nil, ""), Script(gs, nil, "ustr")
			}
			if fs := focused(facts, goal); 10*len(fs) < 8*len(facts) {
				fs = append(append(fs, r.Impl...), goal)
				q.focus, q.ufocus = Script(fs, nil, ""), Script(fs, nil, "ustr")
			}
			if os.Getenv("GOVC_GOALS") != "" {
				fmt.Fprintf(os.Stderr, "== %s: %s\n%s\n", r.H.Name, o.Name, goal.Short())
				_ = os.WriteFile(filepath.Join(os.Getenv("GOVC_GOALS"), sanitize(o.Name)+fmt.Sprint(len(out))+".smt2"), []byte(q.focus), 0o644)
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "facts %s: all %d relevant %d focused %d\n", o.Name, len(all), len(facts), len(focused(facts, goal)))
			}
			out = append(out, q)
		}
	}
	return out
}

var querySem = make(chan struct{}, 8)

// solve decides the queries of an obligation, in stages of growing cost.
func (o *Obligation) solve(qs []query, to time.Duration) {
	res := make([]Result, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		wg.Add(1)
		go func(i int, q query) {
			defer wg.Done()
			querySem <- struct{}{}
			defer func() { <-querySem }()
			t1 := time.Now()
			r := SolveScript(q.full, q.ustr, 3*time.Second, pf("z3-new"), pf("z3-new/ustr"))
			if r.Status == "unknown" && q.focus != "" {
				// without the facts about unrelated parts
				if r = SolveScript(q.focus, q.ufocus, 8*time.Second, pf("z3-new", "z3-mbqi0", "cvc5"), pf("z3-new/ustr", "z3-mbqi0/ustr")); r.Status != "unsat" {
					r.Status = "unknown"
				}
			}
			if r.Status == "unknown" && q.ground != "" {
				// without the quantified facts
				if r = SolveScript(q.ground, q.uground, 3*time.Second, pf("z3-new", "cvc5"), pf("z3-new/ustr")); r.Status != "unsat" {
					r.Status = "unknown"
				}
			}
			if r.Status == "unknown" {
				r = SolveScript(q.full, q.ustr, 8*time.Second, pf("z3-mbqi0"), pf("z3-mbqi0/ustr", "cvc5/ustr"))
			}
			if r.Status == "unknown" {
				r = SolveScript(q.full, q.ustr, to, portfolio, uportfolio)
			}
			res[i] = r
			res[i].Dur = time.Since(t1)
		}(i, q)
	}
	wg.Wait()
	o.Status, o.Solver, o.Detail, o.Ms = "discharged", "simplifier", "", 0
	for _, r := range res {
		o.Ms += r.Dur.Milliseconds()
	}
	for _, r := range res {
		if r.Status == "sat" {
			o.Status, o.Solver = "refuted", r.Solver
			break
		}
		if o.Status == "unknown" {
			continue
		}
		o.Solver = r.Solver
		if r.Status != "unsat" {
			o.Status, o.Detail = "unknown", r.Out
		}
	}
}

// focused keeps the facts about the symbols of the goal: a fact is about its
// rare symbols (those in few facts; all of its symbols if none is rare), and
// the symbols of a kept fact count too.
func focused(facts []*Term, goal *Term) []*Term {
	key := func(t *Term) map[interface{}]bool {
		vs := map[*Term]bool{}
		fs := map[string]*Term{}
		symbols(t, vs, fs, map[*Term]bool{})
		m := map[interface{}]bool{}
		for v := range vs {
			if !v.bound {
				m[v] = true
			}
		}
		for f := range fs {
			m[f] = true
		}
		return m
	}
	occ := map[interface{}]int{}
	syms := make([]map[interface{}]bool, len(facts))
	for i, f := range facts {
		syms[i] = key(f)
		for s := range syms[i] {
			occ[s]++
		}
	}
	limit := max(10, len(facts)/25)
	have := key(goal)
	in := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i := range facts {
			if in[i] {
				continue
			}
			hit, rare := false, false
			for s := range syms[i] {
				if occ[s] <= limit {
					rare = true
					if have[s] {
						hit = true
						break
					}
				}
			}
			if !rare {
				hit = true
				for s := range syms[i] {
					if !have[s] {
						hit = false
					}
				}
			}
			if hit {
				in[i], ch = true, true
				for s := range syms[i] {
					have[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

// relevant keeps the facts connected to the goal by shared symbols.
func relevant(facts []*Term, goal *Term) []*Term {
	syms := make([]map[interface{}]bool, len(facts))
	key := func(t *Term) map[interface{}]bool {
		vs := map[*Term]bool{}
		fs := map[string]*Term{}
		symbols(t, vs, fs, map[*Term]bool{})
		m := map[interface{}]bool{}
		for v := range vs {
			m[v] = true
		}
		for f := range fs {
			m[f] = true
		}
		return m
	}
	for i, f := range facts {
		syms[i] = key(f)
	}
	have := key(goal)
	in := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i := range facts {
			if in[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for s := range syms[i] {
				if have[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range syms[i] {
					have[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

// splitStrings makes one goal per case of the conditional strings in it.
func splitStrings(goal *Term, depth int) []*Term {
	if goal.Op == "false" {
		return nil
	}
	if depth == 0 {
		return []*Term{goal}
	}
	c := stringIte(goal, map[*Term]bool{})
	if c == nil {
		return []*Term{goal}
	}
	yes := Simplify(Subst(goal, map[*Term]*Term{c: True}), map[*Term]*Term{})
	no := Simplify(Subst(goal, map[*Term]*Term{c: False}), map[*Term]*Term{})
	return append(splitStrings(And(c, yes), depth-1), splitStrings(And(Not(c), no), depth-1)...)
}

// stringIte is the condition of an outermost conditional string.
func stringIte(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || t.Op == "forall" || t.Op == "exists" {
		return nil
	}
	seen[t] = true
	if t.Op == "ite" && t.Sort == SStr && !t.Args[0].bound {
		return t.Args[0]
	}
	for _, a := range t.Args {
		if c := stringIte(a, seen); c != nil {
			return c
		}
	}
	return nil
}

func hasQuant(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if hasQuant(a, seen) {
			return true
		}
	}
	return false
}
