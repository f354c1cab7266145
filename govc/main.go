package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repo = repoDir()

// repoDir: GOVC_REPO is for development runs on scratch copies only
func repoDir() string {
	if s := os.Getenv("GOVC_REPO"); s != "" {
		return s
	}
	return "/repo"
}
const modPath = "github.com/mmdet/mcrypto"

var verifDir = findVerif()

type Harness struct {
	Name      string
	Pkg       string
	Fn        *ssa.Function
	Props     []string
	Flags     map[string]string
	Contracts []string
}

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by short name
	ast      map[string]*packages.Package
	hs       []*Harness
	opq      map[*ssa.Function]string
	sums     map[*ssa.Function]*ssa.Function
	sumNames map[*ssa.Function]string
	sumFor   map[*ssa.Function]string // only for the harnesses of these properties
	foreign  map[string]map[*ssa.Function]*ssa.Function // contracts of functions outside the package of the harness
	warn     []string
	folds    []*foldSpec
}

// goEnv for loading /repo offline.
func goEnv(work string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "HOME=") {
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(out, "HOME="+home, "GOFLAGS=-mod=mod -modfile="+work+"/repo.mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=off")
}

// prepareWork writes the module file copies used to load /repo.
func prepareWork() string {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	m, _ := os.ReadFile(repo + "/go.mod")
	os.WriteFile(d+"/repo.mod", m, 0644)
	s, _ := os.ReadFile(repo + "/go.sum")
	ex, _ := os.ReadFile(verifDir + "/govc/extra.sum")
	lines := map[string]bool{}
	for _, l := range strings.Split(string(s)+"\n"+string(ex), "\n") {
		if strings.TrimSpace(l) != "" {
			lines[l] = true
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	os.WriteFile(d+"/repo.sum", []byte(strings.Join(ls, "\n")+"\n"), 0644)
	return d
}

var pkgNames = []string{"sm3", "sm2", "pkcs12", "x509"}

// contract files with the parts that do not compile blanked out
var edited = map[string][]byte{}
var sumKey = map[*ssa.Function]string{}
var noSumEnv = map[string]bool{}

func init() {
	if b, err := os.ReadFile(os.Getenv("GOVC_EDIT")); err == nil {
		json.Unmarshal(b, &edited)
	}
	for _, k := range strings.Split(os.Getenv("GOVC_NOSUM"), ",") {
		if k != "" {
			noSumEnv[k] = true
		}
	}
}

// overlay: contract files and the harness runtime, placed inside the packages of /repo.
func overlay(pkgs []string) map[string][]byte {
	ov := map[string][]byte{}
	rt, err := os.ReadFile(verifDir + "/contracts/rt.go.txt")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		fs, _ := filepath.Glob(verifDir + "/contracts/" + p + "/*.go")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			n := repo + "/" + p + "/zz_govc_" + filepath.Base(f)
			if e := edited[n]; e != nil {
				b = e
			}
			ov[n] = b
		}
		if len(fs) > 0 {
			ov[repo+"/"+p+"/zz_govc_rt.go"] = []byte(strings.Replace(string(rt), "package rt", "package "+p, 1))
		}
	}
	return ov
}

func load(work string, pkgs []string) (*Program, error) {
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./"+p)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(work), Overlay: overlay(pkgs)}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, ast: map[string]*packages.Package{}, opq: map[*ssa.Function]string{}, sums: map[*ssa.Function]*ssa.Function{}, sumNames: map[*ssa.Function]string{}, sumFor: map[*ssa.Function]string{}, foreign: map[string]map[*ssa.Function]*ssa.Function{}}
	prog.Build()
	for i, p := range ps {
		sn := p.PkgPath[strings.LastIndex(p.PkgPath, "/")+1:]
		P.pkgs[sn] = sp[i]
		P.ast[sn] = p
	}
	// all module packages (dependencies too)
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath+"/") {
			sn := p.PkgPath[strings.LastIndex(p.PkgPath, "/")+1:]
			if P.pkgs[sn] == nil {
				P.pkgs[sn] = prog.Package(p.Types)
				P.ast[sn] = p
			}
		}
	})
	for _, sn := range pkgNames {
		if P.ast[sn] != nil {
			P.directives(sn)
		}
	}
	return P, nil
}

func (P *Program) directives(sn string) {
	pk := P.ast[sn]
	sp := P.pkgs[sn]
	for _, f := range pk.Syntax {
		fname := P.prog.Fset.Position(f.Pos()).Filename
		if !strings.Contains(fname, "zz_govc_") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
			fn := P.prog.FuncValue(obj)
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "@") {
					continue
				}
				w := strings.Fields(strings.TrimSpace(t[1:]))
				if len(w) == 0 {
					continue
				}
				switch w[0] {
				case "harness":
					h := &Harness{Name: sn + "." + fd.Name.Name, Pkg: sn, Fn: fn, Flags: map[string]string{}}
					for _, p := range w[1:] {
						if i := strings.IndexByte(p, '='); i > 0 {
							h.Flags[p[:i]] = p[i+1:]
						} else if p[0] == 'C' || p[0] == 'T' {
							h.Props = append(h.Props, p)
						} else {
							h.Flags[p] = "1"
						}
					}
					P.hs = append(P.hs, h)
				case "contract": // functions whose contract this harness establishes
					h := P.hs[len(P.hs)-1]
					h.Contracts = append(h.Contracts, w[1:]...)
				case "opaque":
					n := sn + "." + fd.Name.Name
					for _, a := range w[1:] {
						if strings.HasPrefix(a, "len=") { // the length of the result is this parameter
							pi := -1
							ps := obj.Type().(*types.Signature).Params()
							for i := 0; i < ps.Len(); i++ {
								if ps.At(i).Name() == a[4:] {
									pi = i
								}
							}
							if pi < 0 {
								P.warn = append(P.warn, "opaque length: no parameter "+a)
								continue
							}
							back := ps.Len() - pi
							ufInfo[n] = &ufI{lenOf: func(as []*Term) *Term { return as[len(as)-back] }}
							continue
						}
						n = a
					}
					P.opq[fn] = n
				case "fold": // NAME STEP BLOCKSIZE: an opaque iterated step function
					n := sn + "." + w[1]
					var blk int64
					fmt.Sscan(w[3], &blk)
					at := obj.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Array)
					fs := &foldSpec{name: n, step: sp.Func(w[2]), block: blk, n: at.Len(), w: seqElem(at.Elem()).W}
					P.opq[fn] = n
					P.folds = append(P.folds, fs)
					registerFold(fs)
				case "summary": // replaces calls of the named function
					only := ""
					if l := w[len(w)-1]; strings.HasPrefix(l, "for=") {
						only, w = l[4:], w[:len(w)-1]
					}
					if noSumEnv[sn+"."+strings.Join(w[1:], " ")] {
						continue
					}
					tsp, tname := sp, strings.Join(w[1:], " ")
					if i := strings.IndexByte(tname, ':'); i > 0 { // a function of another package, for harnesses of this one
						tsp = P.pkgs[tname[:i]]
						if tsp == nil {
							tsp = P.prog.ImportedPackage(tname[:i])
						}
						tname = tname[i+1:]
					}
					var tgt *ssa.Function
					if tsp != nil {
						tgt = findFunc(tsp, tname)
					}
					if tgt != nil && tsp != sp {
						if P.foreign[sn] == nil {
							P.foreign[sn] = map[*ssa.Function]*ssa.Function{}
						}
						P.foreign[sn][tgt] = fn
						continue
					}
					if tgt == nil {
						P.warn = append(P.warn, "contract target not found: "+sn+" "+strings.Join(w[1:], " "))
						continue
					}
					P.sums[tgt] = fn
					P.sumFor[tgt] = only
					P.sumNames[tgt] = strings.Join(w[1:], " ")
					sumKey[tgt] = "SUM " + sn + " " + P.sumNames[tgt]
				}
			}
		}
	}
	_ = sp
}

func findFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i > 0 {
		tn, mn := strings.Trim(name[:i], "(*)"), name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := sp.Prog.MethodSets.MethodSet(ty)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn {
					f := sp.Prog.FuncValue(ms.At(k).Obj().(*types.Func))
					if f != nil {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (P *Program) newExec() *Exec {
	x := &Exec{prog: P.prog, intr: intr, opaque: P.opq, summary: P.sums, globals: map[*ssa.Global]int{}, info: map[*ssa.Function]*fnInfo{},
		used: map[string]int{}, inlined: map[string]int{}, bounded: map[string]int{}, loops: map[string]int{}, noSum: map[*ssa.Function]bool{},
		initDone: map[*ssa.Package]bool{}, own: map[*ssa.Package]bool{}, maxSteps: 3000000, symIter: 4}
	for _, p := range P.pkgs {
		x.own[p] = true
	}
	x.inlineOK = func(fn *ssa.Function) bool {
		if strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") {
			return true
		}
		p := fn.Pkg
		if p == nil && fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p == nil {
			if fn.Object() != nil && fn.Object().Pkg() != nil { // wrappers
				p = P.prog.Package(fn.Object().Pkg())
			}
		}
		if p == nil {
			return fn.Synthetic != ""
		}
		if x.own[p] || inlineFns[fn.String()] {
			return true
		}
		return inlinePkgs[p.Pkg.Path()]
	}
	return x
}

var inlineFns = map[string]bool{"(encoding/asn1.BitString).At": true}

var inlinePkgs = map[string]bool{"math/bits": true, "encoding/binary": true, "internal/byteorder": true, "errors": true, "crypto/x509/pkix": true, "sort": true}

// initState executes the package initialisers of the repository.
func (P *Program) initState(x *Exec) *State {
	st := &State{ctx: rootCtx, heap: newHeap()}
	for _, sn := range pkgNames {
		p := P.pkgs[sn]
		if p == nil {
			continue
		}
		// every variable exists from here on: what a loop does to it is seen as a change
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			x.globalPtr(st, p.Members[n].(*ssa.Global))
		}
		fn := p.Func("init")
		x.steps = 0
		outs := x.callBody(st, fn, nil, nil)
		var ok []Outcome
		for _, o := range outs {
			if o.panic == "" {
				ok = append(ok, o)
			}
		}
		if len(ok) != 1 {
			bail("init of %s has %d outcomes", sn, len(ok))
		}
		st = ok[0].st
		st.ctx = rootCtx
	}
	return st
}

func (P *Program) runHarness(h *Harness) (res *HarnessResult) {
	t0 := time.Now()
	q0, s0 := smtStats.queries, smtStats.time
	x := P.newExec()
	res = &HarnessResult{Name: h.Name, Props: h.Props, Oblig: map[string]*Oblig{}}
	x.result = res
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		res.Queries = smtStats.queries - q0
		res.Backends = map[string]int{"z3 " + "queries": smtStats.queries - smtStats.cvc5, "cvc5 queries": smtStats.cvc5}
		res.SMTSecs = (smtStats.time - s0).Seconds()
		res.Bounded, res.Used, res.Inlined, res.Loops, res.Steps = x.bounded, x.used, x.inlined, x.loops, x.steps
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unmodelled:
				res.Err = "outside the verified subset: " + e.msg
			case forkErr:
				res.Err = "case split on " + e.t.String()
			default:
				res.Err = fmt.Sprintf("internal: %v", r)
				if verbose > 0 {
					debug.PrintStack()
				}
			}
			var st []string
			for _, f := range x.stack {
				st = append(st, f.String())
			}
			res.Err += " [in " + strings.Join(st, " > ") + "]"
		}
	}()
	x.pkgMain = P.pkgs[h.Pkg]
	st := P.initState(x)
	x.used, x.inlined, x.bounded, x.loops = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	x.steps = 0
	if h.Flags["sumfirst"] != "" {
		x.sumFirst = true
	}
	x.foldTry = func(s *summar, k *Term, solved map[*Term]*Term, done map[*leaf]bool, dep func(*Term) bool) bool {
		for _, fs := range P.folds {
			if fs.try(s, k, solved, done, dep) {
				return true
			}
		}
		return false
	}
	x.lazy = map[string]bool{}
	x.absDec = h.Flags["absdecode"] != ""
	x.longLists = h.Flags["longlists"] != ""
	listsOpaque = x.longLists
	for _, n := range strings.Split(h.Flags["lazy"], ",") {
		x.lazy[n] = true
	}
	if c := h.Flags["nosum"]; c != "" {
		for tgt, n := range P.sumNames {
			if n == c || strings.Contains(","+c+",", ","+n+",") {
				x.noSum[tgt] = true
			}
		}
	}
	for tgt, only := range P.sumFor {
		ok := only == ""
		for _, p := range h.Props {
			ok = ok || strings.Contains(","+only+",", ","+p+",")
		}
		if !ok {
			x.noSum[tgt] = true
		}
	}
	x.foreign = P.foreign[h.Pkg]
	outs := x.callBody(st, h.Fn, nil, nil)
	np := res.ob("no-panic")
	for _, o := range outs {
		res.Paths++
		np.Inst++
		if o.panic != "" && o.st.ctx.Feasible() {
			np.Status = "failed"
			if np.Why == "" {
				np.Why = o.panic + " at " + o.where + "\nunder:"
				for _, f := range o.st.ctx.Facts() {
					np.Why += "\n    " + f.String()
				}
			}
		}
	}
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc verify [-v] [-loop] pkg [harness...]")
		os.Exit(2)
	}
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		verifDir = d
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "one":
		os.Exit(cmdOne(os.Args[2]))
	case "verify":
		args := os.Args[2:]
		if pf := os.Getenv("GOVC_PROF"); pf != "" {
			w, _ := os.Create(pf)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		for len(args) > 0 && strings.HasPrefix(args[0], "-") {
			switch args[0] {
			case "-v":
				verbose++
			case "-loop":
				loopDebug = true
			}
			args = args[1:]
		}
		work := prepareWork()
		defer os.RemoveAll(work)
		t0 := time.Now()
		P, err := load(work, strings.Split(args[0], ","))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		for _, h := range P.hs {
			if len(args) > 1 {
				m := false
				for _, a := range args[1:] {
					if strings.Contains(h.Name, a) {
						m = true
					}
				}
				if !m {
					continue
				}
			}
			r := P.runHarness(h)
			printResult(r)
		}
	}
}

// cmdOne verifies one harness and prints the result as JSON.
func cmdOne(name string) int {
	work := prepareWork()
	defer os.RemoveAll(work)
	pkg := name[:strings.IndexByte(name, '.')]
	P, err := load(work, pkgDeps[pkg])
	if err != nil {
		fmt.Println("the contracts do not compile against the current source:\n" + err.Error())
		return 2
	}
	for _, h := range P.hs {
		if h.Name == name {
			r := P.runHarness(h)
			for _, o := range r.Oblig {
				if len(o.Why) > 20000 {
					o.Why = o.Why[:20000]
				}
			}
			b, _ := json.Marshal(r)
			fmt.Printf("RES %s\n", b)
			return 0
		}
	}
	fmt.Println("harness not found: " + name)
	return 2
}

// packages whose contracts are loaded to verify a package
var pkgDeps = map[string][]string{"sm3": {"sm3"}, "sm2": {"sm2", "sm3"}, "pkcs12": {"pkcs12"}, "x509": {"x509", "sm2", "sm3"}}

func printResult(r *HarnessResult) {
	fmt.Printf("== %s %v paths=%d %.2fs smt=%d/%.2fs steps=%d\n", r.Name, r.Props, r.Paths, r.Secs, r.Queries, r.SMTSecs, r.Steps)
	if r.Err != "" {
		fmt.Printf("   ERROR %s\n", r.Err)
	}
	for _, n := range r.Order {
		o := r.Oblig[n]
		fmt.Printf("   %-8s %s (%d paths)\n", o.Status, n, o.Inst)
		if o.Why != "" {
			w := o.Why
			if len(w) > 20000 {
				w = w[:20000]
			}
			fmt.Printf("      %s\n", w)
		}
	}
	if len(r.Bounded) > 0 {
		fmt.Println("   bounded:", r.Bounded)
	}
	if verbose > 0 {
		fmt.Println("   loops:", r.Loops, "used:", r.Used)
	}
}

// findVerif: the directory holding contracts/, from the location of the binary.
func findVerif() string {
	if e, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(e))
		if _, err := os.Stat(d + "/contracts/rt.go.txt"); err == nil {
			return d
		}
	}
	return "/verif"
}
