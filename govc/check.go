package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------- harness directory (textual, works even if a package does not compile) ----------

type hInfo struct {
	Pkg, Name, Fn string
	Props         []string
	Flags         map[string]string
	Contracts     []string
	Doc           string
}

var fnRe = regexp.MustCompile(`^func ([A-Za-z0-9_]+)\(\)`)

func scanHarnesses() []*hInfo {
	var out []*hInfo
	for _, p := range pkgNames {
		fs, _ := filepath.Glob(verifDir + "/contracts/" + p + "/*.go")
		sort.Strings(fs)
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if e := edited[repo+"/"+p+"/zz_govc_"+filepath.Base(f)]; e != nil {
				b = e
			}
			var h *hInfo
			for _, l := range strings.Split(string(b), "\n") {
				t := strings.TrimSpace(l)
				t = strings.Replace(t, "// @", "//@", 1)
				if strings.HasPrefix(t, "//@ harness") {
					h = &hInfo{Pkg: p, Flags: map[string]string{}}
					for _, w := range strings.Fields(t)[2:] {
						if i := strings.IndexByte(w, '='); i > 0 {
							h.Flags[w[:i]] = w[i+1:]
						} else if w[0] == 'C' || w[0] == 'T' {
							h.Props = append(h.Props, w)
						} else {
							h.Flags[w] = "1"
						}
					}
					continue
				}
				if h != nil && strings.HasPrefix(t, "//@ contract") {
					h.Contracts = append(h.Contracts, strings.Fields(t)[2:]...)
					continue
				}
				if m := fnRe.FindStringSubmatch(l); m != nil && h != nil {
					h.Fn = m[1]
					h.Name = p + "." + h.Fn
					out = append(out, h)
					h = nil
				}
			}
		}
	}
	return out
}

type racOut struct {
	Harness  string
	Evals    int
	Skipped  int
	Distinct int
	Sample   string
	Fail     *racFail
}
type racFail struct {
	Seed  int64
	What  string
	Trace string
}

type checkRun struct {
	prop, tier string
	seed       int64
	hs         []*hInfo
	start      time.Time
	res        map[string]*HarnessResult
	rac        map[string]*racOut
	racErr     map[string]string // package -> build error
	mu         sync.Mutex
	work       string
	noSum      []string // helper contracts that are not established: bodies inlined instead
}

func (h *hInfo) helper() bool { return h.Flags["helper"] != "" }

func jobs() int { return 8 }

func budget(tier string) (prove, racQuick, racFail time.Duration) {
	if tier == "thorough" {
		return 1500 * time.Second, 60 * time.Second, 180 * time.Second
	}
	return 420 * time.Second, 8 * time.Second, 45 * time.Second
}

func (c *checkRun) proveOne(h *hInfo, limit time.Duration) *HarnessResult {
	self, _ := os.Executable()
	cmd := exec.Command(self, "one", h.Name)
	cmd.Env = append(os.Environ(), "GOVC_EDIT="+c.work+"/edit.json", "GOVC_NOSUM="+strings.Join(c.noSum, ","), "GOGC=300", "GOMEMLIMIT=3GiB", "GOMAXPROCS=3")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	r := &HarnessResult{Name: h.Name, Props: h.Props, Oblig: map[string]*Oblig{}}
	if err := cmd.Start(); err != nil {
		r.Err = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		r.Err = fmt.Sprintf("verifier exceeded %s", limit)
		return r
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RES ") {
			x := &HarnessResult{}
			if json.Unmarshal([]byte(l[4:]), x) == nil {
				return x
			}
		}
	}
	t := strings.TrimSpace(so.String() + "\n" + se.String())
	if len(t) > 6000 {
		t = t[:6000]
	}
	r.Err = "verifier failed: " + t
	return r
}

// ---------- running the harnesses on the real code ----------

func racFiles(work, pkg string, hs []*hInfo) (string, error) {
	rep := map[string]string{}
	d := work + "/ov_" + pkg
	os.MkdirAll(d, 0755)
	i := 0
	for path, b := range overlay(pkgNames) {
		i++
		f := fmt.Sprintf("%s/f%d.go", d, i)
		if err := os.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		rep[path] = f
	}
	tpl, err := os.ReadFile(verifDir + "/contracts/rac_test.go.txt")
	if err != nil {
		return "", err
	}
	var m strings.Builder
	for _, h := range hs {
		if h.Pkg == pkg && h.Flags["norac"] == "" && !dropped[h.Name] {
			fmt.Fprintf(&m, "\t%q: %s,\n", h.Name, h.Fn)
		}
	}
	s := strings.Replace(string(tpl), "package rac", "package "+pkg, 1)
	s = strings.Replace(s, "/*HARNESSES*/", m.String(), 1)
	os.WriteFile(d+"/rac_test.go", []byte(s), 0644)
	rep[repo+"/"+pkg+"/zz_govc_rac_test.go"] = d + "/rac_test.go"
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(d+"/overlay.json", j, 0644)
	return d + "/overlay.json", nil
}

func buildRAC(work, pkg string, hs []*hInfo) (string, error) {
	ov, err := racFiles(work, pkg, hs)
	if err != nil {
		return "", err
	}
	bin := work + "/rac_" + pkg
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-gcflags=-e", "-overlay", ov, "-o", bin, "./"+pkg)
	cmd.Dir = repo
	cmd.Env = goEnv(work)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%s: %s", err, out)
	}
	return bin, nil
}

func runRAC(work, bin, harness string, seed int64, secs time.Duration, hints string, replay int64) (*racOut, error) {
	d, err := os.MkdirTemp(work, "rac")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	cmd := exec.Command(bin, "-test.run", "^TestGovcRAC$", "-test.timeout", "0")
	cmd.Dir = d
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOVC_HARNESS="+harness, fmt.Sprintf("GOVC_SEED=%d", seed), fmt.Sprintf("GOVC_MS=%d", secs.Milliseconds()), "GOVC_HINTS="+hints, fmt.Sprintf("GOVC_REPLAY=%d", replay), "TMPDIR="+d, "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	var so bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &so
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(secs + 60*time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if i := strings.Index(l, "RAC {"); i >= 0 {
			x := &racOut{}
			if json.Unmarshal([]byte(l[i+4:]), x) == nil {
				return x, nil
			}
		}
	}
	o := so.String()
	if len(o) > 4000 {
		o = o[len(o)-4000:]
	}
	// the process died (fatal error such as out of memory or stack overflow)
	return &racOut{Harness: harness, Fail: &racFail{Seed: -1, What: "test process died: " + o}}, nil
}

func parallel(n int, fs []func()) {
	ch := make(chan func(), len(fs))
	for _, f := range fs {
		ch <- f
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	wg.Wait()
}

type known struct{ prop, harness, oblig, text string }

func loadKnown() []known {
	b, _ := os.ReadFile(verifDir + "/known-findings.txt")
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN property=C01 harness=sm2.hX obligation="..." text
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		k := known{}
		rest := l[6:]
		re := regexp.MustCompile(`^property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)$`)
		if m := re.FindStringSubmatch(rest); m != nil {
			k.prop, k.harness, k.oblig, k.text = m[1], m[2], m[3], m[4]
			out = append(out, k)
		}
	}
	return out
}

func cmdCheck(args []string) int {
	c := &checkRun{start: time.Now(), tier: os.Getenv("VERIF_TIER"), seed: 1, res: map[string]*HarnessResult{}, rac: map[string]*racOut{}, racErr: map[string]string{}}
	if c.tier == "" {
		c.tier = "quick"
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.seed)
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-property":
			i++
			c.prop = args[i]
		case "-tier":
			i++
			c.tier = args[i]
		}
	}
	t0 := time.Now()
	c.work = prepareWork()
	defer os.RemoveAll(c.work)
	rebind(c.work)
	for _, h := range scanHarnesses() {
		for _, p := range h.Props {
			if p == c.prop {
				c.hs = append(c.hs, h)
			}
		}
	}
	if len(c.hs) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for property %s\n", c.prop)
		return 2
	}
	limP, limR, limF := budget(c.tier)

	var bins = map[string]string{}
	var fs []func()
	pk := map[string]bool{}
	for _, h := range c.hs {
		pk[h.Pkg] = true
	}
	// contract functions that do not compile against the current source are dropped
	for p := range pk {
		for round := 0; ; round++ {
			b, err := buildRAC(c.work, p, c.hs)
			if err == nil {
				bins[p] = b
				break
			}
			if round > 12 || !dropBroken(c.work, err.Error()) {
				c.racErr[p] = err.Error()
				break
			}
		}
	}
	// executable run of every harness on the real code (validates the
	// specifications, shows the preconditions satisfiable; decides bounded ones)
	rac := func(hs []*hInfo, secs time.Duration, seed int64) {
		var fs []func()
		for _, h := range hs {
			h := h
			if h.Flags["norac"] != "" || bins[h.Pkg] == "" {
				continue
			}
			fs = append(fs, func() {
				hints := ""
				if r := c.res[h.Name]; r != nil && len(r.Hints) > 0 {
					b, _ := json.Marshal(r.Hints)
					hints = string(b)
				}
				s := secs
				if h.Flags["bounded"] != "" && s < 20*time.Second {
					s = 20 * time.Second
				}
				r, err := runRAC(c.work, bins[h.Pkg], h.Name, seed, s, hints, -1)
				if err != nil {
					return
				}
				c.mu.Lock()
				defer c.mu.Unlock()
				if o := c.rac[h.Name]; o != nil {
					r.Evals += o.Evals
					r.Skipped += o.Skipped
					r.Distinct += o.Distinct
					if r.Fail == nil {
						r.Fail = o.Fail
					}
				}
				c.rac[h.Name] = r
			})
		}
		parallel(jobs(), fs)
	}
	if n := (len(c.hs) + jobs() - 1) / jobs(); limR*time.Duration(n) > 90*time.Second && c.tier == "quick" {
		limR = 90 * time.Second / time.Duration(n)
	}
	rac(c.hs, limR, c.seed)
	// a failing input decides the check: the proofs are then only there to
	// name the obligations, and get little time
	for _, h := range c.hs {
		if !h.helper() && c.rac[h.Name] != nil && c.rac[h.Name].Fail != nil && limP > 45*time.Second {
			limP = 45 * time.Second
		}
	}
	todo := map[string]bool{}
	for _, h := range c.hs {
		switch {
		case h.Flags["bounded"] != "":
		case dropped[h.Name]:
			c.res[h.Name] = &HarnessResult{Name: h.Name, Err: "does not compile against the current source: " + dropWhy[h.Name]}
		default:
			todo[h.Name] = true
		}
	}
	off := map[string]bool{}
	for _, h := range c.hs {
		if h.helper() && dropped[h.Name] {
			for _, k := range h.Contracts {
				off[h.Pkg+"."+k] = true
			}
		}
	}
	for len(todo) > 0 {
		c.noSum = nil
		for k := range off {
			c.noSum = append(c.noSum, k)
		}
		sort.Strings(c.noSum)
		fs = nil
		for _, h := range c.hs {
			h := h
			if todo[h.Name] {
				fs = append(fs, func() {
					lim := limP
					if left := 600*time.Second - time.Since(c.start); c.tier == "quick" && left < lim {
						if lim = left; lim < 20*time.Second {
							lim = 20 * time.Second
						}
					}
					r := c.proveOne(h, lim)
					c.mu.Lock()
					c.res[h.Name] = r
					c.mu.Unlock()
				})
			}
		}
		parallel(jobs(), fs)
		todo = map[string]bool{}
		more := false
		for _, h := range c.hs {
			r := c.res[h.Name]
			if h.helper() && r != nil && (r.Err != "" || r.failed() > 0) {
				for _, k := range h.Contracts {
					if !off[h.Pkg+"."+k] {
						off[h.Pkg+"."+k] = true
						more = true
					}
				}
			}
		}
		if more { // redo everything that may have used the contract
			for _, h := range c.hs {
				r := c.res[h.Name]
				if h.Flags["bounded"] != "" || dropped[h.Name] || h.helper() && (r.Err != "" || r.failed() > 0) {
					continue
				}
				for k := range off {
					i := strings.IndexByte(k, '.')
					if r.Err != "" || r.Used["SUM "+k[:i]+" "+k[i+1:]] > 0 {
						todo[h.Name] = true
					}
				}
			}
		}
	}
	// search harder when an obligation failed
	bad := func(h *hInfo) bool {
		if h.helper() {
			return false
		}
		r := c.res[h.Name]
		return r != nil && (r.Err != "" || r.failed() > 0)
	}
	anyBad, anyFail := false, false
	for _, h := range c.hs {
		anyBad = anyBad || bad(h)
		anyFail = anyFail || !h.helper() && c.rac[h.Name] != nil && c.rac[h.Name].Fail != nil
	}
	if anyBad && !anyFail {
		n := 0
		for _, h := range c.hs {
			if bad(h) {
				n++
			}
		}
		// failing harnesses first, then every harness of the property
		var sel []*hInfo
		for _, h := range c.hs {
			if bad(h) {
				sel = append(sel, h)
				for i := n; i < jobs()/2; i += n {
					sel = append(sel, h)
				}
			}
		}
		var fs2 []*hInfo
		fs2 = append(fs2, sel...)
		for _, h := range c.hs {
			if !bad(h) {
				fs2 = append(fs2, h)
			}
		}
		// distinct seeds for repeated entries
		var wg []func()
		for i, h := range fs2 {
			i, h := i, h
			wg = append(wg, func() { racSeeded(c, bins, h, limF, c.seed+1000+int64(i)) })
		}
		if len(wg) > 3*jobs() {
			wg = wg[:3*jobs()]
		}
		parallel(jobs(), wg)
	}
	return c.report(t0, bad)
}

func racSeeded(c *checkRun, bins map[string]string, h *hInfo, secs time.Duration, seed int64) {
	if h.Flags["norac"] != "" || bins[h.Pkg] == "" {
		return
	}
	hints := ""
	if r := c.res[h.Name]; r != nil && len(r.Hints) > 0 {
		b, _ := json.Marshal(r.Hints)
		hints = string(b)
	}
	r, err := runRAC(c.work, bins[h.Pkg], h.Name, seed, secs, hints, -1)
	if err != nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if o := c.rac[h.Name]; o != nil {
		r.Evals += o.Evals
		r.Skipped += o.Skipped
		r.Distinct += o.Distinct
		if r.Fail == nil {
			r.Fail = o.Fail
		}
	}
	c.rac[h.Name] = r
}

func (r *HarnessResult) failed() int {
	n := 0
	for _, o := range r.Oblig {
		if o.Status == "failed" {
			n++
		}
	}
	return n
}

func (c *checkRun) report(t0 time.Time, bad func(*hInfo) bool) int {
	kn := loadKnown()
	isKnown := func(h *hInfo, ob string) *known {
		for i := range kn {
			if kn[i].prop == c.prop && kn[i].harness == h.Name && kn[i].oblig == ob {
				return &kn[i]
			}
		}
		return nil
	}
	rdir := outDir() + "/out/replay/" + c.prop
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0755)
	viol := 0
	knownSeen := map[string]bool{}
	emit := func(h *hInfo, body string, input bool) {
		viol++
		f := rdir + "/" + h.Name + ".txt"
		os.WriteFile(f, []byte(body), 0644)
		suffix := ""
		if !input {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", c.prop, f, suffix)
	}
	tot, dis, smtQ := 0, 0, 0
	smtS := 0.0
	back := map[string]int{}
	contracts := map[string]bool{}
	used, bounded, loops := map[string]int{}, map[string]int{}, map[string]int{}
	inl := map[string]int{}
	var hl []map[string]interface{}
	evals, distinct := 0, 0
	var samples []string
	var boundedH []string
	notProved := 0
	for _, h := range c.hs {
		r := c.res[h.Name]
		ra := c.rac[h.Name]
		if ra != nil {
			evals += ra.Evals
			distinct += ra.Distinct
			if len(samples) < 3 && ra.Sample != "" {
				samples = append(samples, h.Name+": "+ra.Sample)
			}
		}
		hm := map[string]interface{}{"harness": h.Name, "contracts": h.Contracts}
		if ra != nil {
			hm["executed_inputs"] = ra.Evals
		}
		if r != nil {
			for _, o := range r.Oblig {
				tot += o.Inst
				if o.Status == "proved" {
					dis += o.Inst
				}
			}
			tot += r.Checks
			dis += r.Checks - r.ChecksFailed
			smtQ += r.Queries
			smtS += r.SMTSecs
			for k, v := range r.Backends {
				back[k] += v
			}
			for k, v := range r.Closed {
				back[k] += v
			}
			for k, v := range r.Used {
				used[k] += v
			}
			for k, v := range r.Bounded {
				bounded[k] += v
			}
			for k, v := range r.Loops {
				loops[k] += v
			}
			for k, v := range r.Inlined {
				inl[k] += v
			}
			if r.Err == "" && r.failed() == 0 {
				for _, k := range h.Contracts {
					contracts[h.Pkg+"."+k] = true
				}
			}
			hm["paths"] = r.Paths
			hm["seconds"] = r.Secs
			hm["error"] = r.Err
		} else if h.Flags["bounded"] != "" {
			boundedH = append(boundedH, h.Name)
			hm["bounded"] = true
		}
		hl = append(hl, hm)
		if r != nil && h.helper() && (r.Err != "" || r.failed() > 0) {
			hm["helper"] = "contract not established on this source; the callers are verified with the body inlined"
			continue
		}
		// violations
		var b strings.Builder
		fmt.Fprintf(&b, "property %s, harness %s (contracts/%s)\n\n", c.prop, h.Name, h.Pkg)
		var fails []string
		if r != nil {
			if r.Err != "" {
				fails = append(fails, "verifier")
				fmt.Fprintf(&b, "obligation set not discharged: %s\n\n", r.Err)
			}
			for _, n := range r.Order {
				if o := r.Oblig[n]; o.Status == "failed" {
					if k := isKnown(h, n); k != nil {
						s := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, k.text)
						if !knownSeen[s] {
							knownSeen[s] = true
							fmt.Println(s)
						}
						continue
					}
					fails = append(fails, n)
					fmt.Fprintf(&b, "failed obligation: %s\n%s\n\n", n, o.Why)
				}
			}
			if r.Err == "" && !r.Covered {
				fails = append(fails, "vacuity")
				fmt.Fprintf(&b, "vacuous: no obligation was generated\n\n")
			}
			if r.Err == "" && ra != nil && ra.Fail == nil && ra.Evals > 50 && ra.Evals == ra.Skipped && h.Flags["mayskip"] == "" {
				fails = append(fails, "vacuity")
				fmt.Fprintf(&b, "vacuous: no execution satisfied the assumptions\n\n")
			}
		}
		input := false
		if ra != nil && ra.Fail != nil {
			if k := isKnown(h, ra.Fail.What); k != nil {
				s := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, k.text)
				if !knownSeen[s] {
					knownSeen[s] = true
					fmt.Println(s)
				}
			} else {
				input = true
				fails = append(fails, "execution")
				fmt.Fprintf(&b, "FAILING INPUT on the real code: %s\n%s\nreplay: /verif/run.sh replay %s %d\n", ra.Fail.What, ra.Fail.Trace, h.Name, ra.Fail.Seed)
			}
		}
		if e := c.racErr[h.Pkg]; e != "" {
			fmt.Fprintf(&b, "harnesses could not be executed: %s\n", e)
			if r == nil { // bounded harness without any result
				fails = append(fails, "not executed")
			}
		}
		if len(fails) > 0 {
			notProved++
			emit(h, b.String(), input)
		}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": propLevel(c.prop), "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	cs, hav, tr := []string{}, []string{}, []string{}
	for k := range contracts {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for k := range used {
		if strings.HasPrefix(k, "HAVOC ") {
			hav = append(hav, k[6:])
		} else if strings.HasPrefix(k, "FOREIGN ") {
			tr = append(tr, k[8:])
		} else if !strings.Contains(k, modPath) && !strings.HasPrefix(k, "SUM ") {
			tr = append(tr, k)
		}
	}
	sort.Strings(hav)
	sort.Strings(tr)
	bl := []string{}
	for k, v := range bounded {
		if strings.HasPrefix(k, "bounded:") {
			bl = append(bl, fmt.Sprintf("%s (%d paths left out, not proved)", k, v))
			continue
		}
		bl = append(bl, fmt.Sprintf("%s: %d loop cut(s) after 4 iterations (bounded, not proved)", k, v))
	}
	for _, k := range boundedH {
		bl = append(bl, k+": executed on generated inputs only (bounded, not proved)")
	}
	sort.Strings(bl)
	tb := append([]string{}, trustedBase...)
	for _, k := range tr {
		tb = append(tb, "assumed contract of "+k)
	}
	as := []string{}
	for _, k := range hav {
		as = append(as, "unmodelled external function, any result and error allowed: "+k)
	}
	cov := map[string]interface{}{
		"obligations": tot, "discharged": dis, "checker_cmd": "./run.sh check -property " + c.prop + " -tier " + c.tier, "trusted_base": tb,
		"functions_under_contract": cs, "functions_inlined": len(inl), "inductive_loops": loops, "bounded_standins": bl,
		"solver_queries": smtQ, "solver_seconds": smtS, "discharged_by": back, "harnesses": hl,
		"executed_on_real_code": map[string]interface{}{"evaluations": evals, "distinct_nontrivial": distinct, "rule": "pseudo-random and boundary values per harness; non-trivial = all assumptions satisfied; distinct by drawn values", "samples": samples},
	}
	cov["evaluations"], cov["distinct_nontrivial"] = evals, distinct
	cov["rule"] = "each harness executed on pseudo-random and boundary values; non-trivial = all assumptions satisfied; distinct by drawn values"
	cov["samples"] = samples
	ev["coverage"] = cov
	ev["assumptions"] = as
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(outDir()+"/evidence", 0755)
	os.WriteFile(outDir()+"/evidence/"+c.prop+".json", append(j, '\n'), 0644)
	fmt.Printf("%s: %d harnesses, %d/%d obligations discharged, %d solver queries (%.1fs), %d executions on the real code, %.1fs\n", c.prop, len(c.hs), dis, tot, smtQ, smtS, evals, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

var trustedBase = []string{
	"govc: symbolic executor over go/ssa, term rewriter and loop-invariant synthesiser in /verif/govc (unverified)",
	"golang.org/x/tools/go/ssa translation of the Go source", "z3 (z3-new) and cvc5",
	"machine integers are modelled exactly (wrap-around); slice and string lengths are assumed below 2^48",
	"append beyond the capacity returns a fresh array whose capacity is arbitrary",
	"memory exhaustion and concurrent use of one object are outside the model",
}

func propLevel(p string) string {
	b, err := os.ReadFile(verifDir + "/MANIFEST.json")
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == p {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

// replay one failing input
func cmdReplay(args []string) int {
	work := prepareWork()
	defer os.RemoveAll(work)
	rebind(work)
	var h *hInfo
	for _, x := range scanHarnesses() {
		if x.Name == args[0] {
			h = x
		}
	}
	if h == nil {
		fmt.Println("no such harness")
		return 2
	}
	var seed int64
	fmt.Sscan(args[1], &seed)
	bin, err := buildRAC(work, h.Pkg, []*hInfo{h})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := runRAC(work, bin, h.Name, 0, time.Second, "", seed)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if r.Fail != nil {
		fmt.Printf("FAILS: %s\n%s", r.Fail.What, r.Fail.Trace)
		return 1
	}
	fmt.Println("passes")
	return 0
}

func outDir() string {
	if s := os.Getenv("GOVC_OUT"); s != "" {
		return s
	}
	return verifDir
}
