// Command symgo decides properties of go-addrs by symbolic execution of the
// SSA form of its Go source with an SMT solver.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fVerif    = flag.String("verif", "/verif", "verif directory")
	fOnly     = flag.String("only", "", "regexp of harness names to run")
	fBudget   = flag.Int("budget", 0, "exploration budget in seconds")
	fWorkers  = flag.Int("workers", 8, "parallel workers")
	fSmt      = flag.String("smtlog", "", "log solver traffic to this file (one worker)")
	fVerbose  = flag.Bool("v", false, "print statistics per harness")
	fWork     = flag.String("work", "", "scratch directory")
	fCross    = flag.Int("cross", 0, "cross-check every n-th query with cvc5")
	fReplay   = flag.String("replay", "", "re-run the counterexample in this file natively")
	fFailFast = flag.Bool("failfast", false, "stop at the first violation")
	fNoEv     = flag.Bool("noevidence", false, "do not write the evidence file")
)

type replayOut struct {
	Trace  []string `json:"trace"`
	Failed []string `json:"failed"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Err    string   `json:"err"`
	hang   bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	t0 := time.Now()
	hdir := filepath.Join(*fVerif, "harness")
	work := *fWork
	if work == "" {
		var err error
		if work, err = os.MkdirTemp("", "symgo"); err != nil {
			die("%v", err)
		}
		defer os.RemoveAll(work)
	}

	// concurrent harnesses need points in the code at which threads switch
	var overlay map[string][]byte
	var overlayFile string
	if usesThreads(filepath.Join(hdir, "h4"), *fProp) {
		var err error
		if overlay, err = instrument(hdir); err == nil {
			overlayFile, err = writeOverlay(overlay, work)
		}
		if err != nil {
			die("instrumenting: %v", err)
		}
	}
	replayBin := filepath.Join(work, "replay")
	built := make(chan error, 1)
	go func() {
		args := []string{"build", "-o", replayBin}
		if overlayFile != "" {
			args = append(args, "-overlay", overlayFile)
		}
		c := exec.Command("go", append(args, "./cmd/replay")...)
		c.Dir = hdir
		out, err := c.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("building the native replay: %v\n%s", err, out)
		}
		built <- err
	}()
	if *fReplay != "" {
		if err := <-built; err != nil {
			die("%v", err)
		}
		replayFile(&reporter{bin: replayBin, verif: *fVerif, prop: *fProp, hdir: hdir, work: work, overlay: overlayFile})
		return
	}
	prog, err := loadProgram(hdir, overlay)
	if err != nil {
		die("%v", err)
	}
	prog.crossEvery = *fCross
	hs := prog.harnesses(*fProp, *fTier, *fOnly)
	if len(hs) == 0 {
		die("no harness for property %s", *fProp)
	}
	budget := *fBudget
	if budget == 0 {
		budget = 240
		if *fTier == "thorough" {
			budget = 780
		}
	}
	ex := &Explorer{prog: prog, deadline: t0.Add(time.Duration(budget) * time.Second)}
	if *fSmt != "" {
		*fWorkers = 1
	}
	ex.Explore(hs, *fWorkers)
	if err := <-built; err != nil {
		die("%v", err)
	}

	known, err := loadKnown(filepath.Join(*fVerif, "known_findings.txt"), *fProp)
	if err != nil {
		die("%v", err)
	}

	rep := &reporter{bin: replayBin, verif: *fVerif, prop: *fProp, hdir: hdir, work: work, overlay: overlayFile}
	var errs []string
	undecided := 0
	notEnc := map[string]int{}
	validated := 0
	var violations []string
	knownSeen := map[string]bool{}
	var perH []map[string]interface{}
	var samples []interface{}
	tot := struct{ paths, aborted, asserts, disch, triv, dec, undec int }{}
	var steps int64
	for _, h := range hs {
		for _, e := range h.Errors {
			errs = append(errs, h.Short+": "+e)
		}
		undecided += h.Undecided
		for k, n := range h.Unsup {
			notEnc[k] += n
		}
		tot.paths += h.Paths
		tot.aborted += h.Aborted
		tot.asserts += h.Asserts
		tot.disch += h.Discharged
		tot.triv += h.Trivial
		tot.dec += h.Decisions
		steps += h.Steps
		newViol := false
		for _, v := range h.Viol {
			if v.Known != "" && known[v.Known] != "" {
				if knownSeen[v.Known] {
					continue
				}
				if ok, _ := rep.confirm(v); ok {
					knownSeen[v.Known] = true
				} else {
					errs = append(errs, fmt.Sprintf("%s: witness of %s does not reproduce natively", h.Short, v.Known))
				}
				continue
			}
			newViol = true
			ok, why := rep.confirm(v)
			if !ok && (v.Race || v.Hang) {
				undecided++
				what := "data race"
				if v.Hang {
					what = "does not end"
				}
				fmt.Printf("NOT-CONFIRMED property=%s %s: %s: %s (%s)\n", *fProp, h.Short, what, v.Msg, why)
				continue
			}
			if !ok {
				errs = append(errs, fmt.Sprintf("%s: counterexample for %q does not reproduce natively (%s): %v %s", h.Short, v.Label, why, v.Wit.Vals, v.Msg))
				continue
			}
			if len(violations) < 5 {
				violations = append(violations, rep.save(v, len(violations)))
			}
		}
		// translator validation: the predicted trace of every sampled path is
		// compared with the compiled code
		n, bad := rep.validate(h)
		validated += n
		if bad != "" {
			errs = append(errs, h.Short+": "+bad)
		}
		if !newViol && len(h.Errors) == 0 && h.Undecided == 0 {
			for _, l := range prog.expectedLabels(h.fn) {
				if h.Labels[l] == 0 {
					errs = append(errs, fmt.Sprintf("%s: vacuous: %q is never reached", h.Short, l))
				}
			}
			if h.Paths == 0 && len(h.Unsup) == 0 {
				errs = append(errs, h.Short+": vacuous: no path completes")
			}
		}
		perH = append(perH, map[string]interface{}{
			"harness": h.Short, "bounds": h.Doc, "paths": h.Paths, "paths_cut_by_assumption": h.Aborted,
			"assertions": h.Asserts, "assertions_by_solver": h.Discharged, "assertions_folded": h.Trivial,
			"branch_decisions": h.Decisions, "undecided": h.Undecided, "seconds": round(h.dur.Seconds()),
			"lemmas_not_proved": h.LemmaMiss,
		})
		if len(h.wit) > 0 && len(samples) < 6 {
			w := h.wit[len(h.wit)/2]
			samples = append(samples, map[string]interface{}{"harness": h.Short, "input": w.Vals, "trace": clip(w.Trace, 12)})
		}
		if *fVerbose {
			fmt.Printf("%-34s paths=%d cut=%d asserts=%d/%d trivial=%d decisions=%d undecided=%d steps=%d viol=%d %.1fs\n",
				h.Short, h.Paths, h.Aborted, h.Discharged, h.Asserts, h.Trivial, h.Decisions, h.Undecided, h.Steps, len(h.Viol), h.dur.Seconds())
		}
	}
	if tot.paths == 0 {
		errs = append(errs, "vacuous: no path of any harness completes")
	}
	q := struct{ q, sat, unsat, unk, fb, cross int }{}
	var st time.Duration
	for _, m := range ex.machines {
		q.q += m.sol.Queries
		q.sat += m.sol.Sat
		q.unsat += m.sol.Unsat
		q.unk += m.sol.Unknown
		q.fb += m.sol.Fallback
		q.cross += m.sol.CrossChecked
		st += m.sol.Time
	}
	if *fVerbose {
		fmt.Printf("queries=%d sat=%d unsat=%d unknown=%d fallback=%d solver=%.1fs wall=%.1fs validated=%d\n", q.q, q.sat, q.unsat, q.unk, q.fb, st.Seconds(), time.Since(t0).Seconds(), validated)
	}
	if len(samples) == 0 {
		for _, h := range hs {
			for _, v := range h.Viol {
				samples = append(samples, map[string]interface{}{"harness": h.Short, "input": v.Wit.Vals, "violates": v.Label})
			}
		}
	}
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        tot.paths + tot.aborted,
			"transitions":                   tot.dec,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    undecided == 0 && len(errs) == 0,
			"explanation": "states = symbolic paths explored to completion or to a failed assumption (each stands for all inputs that take it); " +
				"transitions = branch decisions settled by the solver, a witness or exhaustive splitting; every assertion on every path was " +
				"checked by the solver for all inputs of that path within the bounds listed per harness",
			"harnesses":              perH,
			"functions_encoded":      prog.usedRepo(),
			"functions_encoded_n":    len(prog.usedRepo()),
			"ssa_steps":              steps,
			"solver_queries":         q.q,
			"solver_sat":             q.sat,
			"solver_unsat":           q.unsat,
			"solver_unknown":         q.unk,
			"solver_fallbacks":       q.fb,
			"solver_cross_checked":   q.cross,
			"solver_seconds":         round(st.Seconds()),
			"undecided_obligations":  undecided,
			"not_encoded":            notEnc,
			"assertions_checked":     tot.asserts,
			"assertions_by_solver":   tot.disch,
			"solver":                 "z3-new (fallback z3 4.8.12, cvc5 1.1.2)",
			"known_findings_present": keys(knownSeen),
		},
		"assumptions": []string{
			"bounds as listed per harness; inputs outside them are not covered",
			"fmt.Errorf is modelled as an arbitrary non-nil error; error texts are not checked",
			"math/bits, math.Pow(2,n), fmt.Sprintf, strings.Builder, strings.Contains, sync/atomic and unique.Make are modelled; all other code is executed from its Go SSA",
			"the SMT solvers and golang.org/x/tools/go/ssa are trusted; sampled paths are re-run natively and compared",
		},
		"wall_s":     round(time.Since(t0).Seconds()),
		"violations": len(violations),
	}
	if !*fNoEv {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	for _, id := range keys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, known[id])
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "symgo: "+e)
	}
	if len(violations) > 0 {
		for _, p := range violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, p)
		}
		os.Exit(1)
	}
	if len(errs) > 0 {
		os.Exit(2)
	}
	for k, n := range notEnc {
		fmt.Printf("NOT-ENCODED property=%s paths=%d %s\n", *fProp, n, k)
	}
	state := "exhaustive within the stated bounds"
	if undecided > 0 {
		state = fmt.Sprintf("NOT exhaustive: %d obligations left undecided", undecided)
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d validated=%d wall=%.1fs (%s)\n",
		*fProp, *fTier, len(hs), tot.paths, tot.asserts, q.q, validated, time.Since(t0).Seconds(), state)
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), "…")
	}
	return s
}

// harnesses selects the entry points of a property.
func (p *Program) harnesses(prop, tier, only string) []*Harness {
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	var out []*Harness
	for _, pk := range p.pkgs {
		for name, mem := range pk.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			q := strings.HasPrefix(name, "Q_"+prop+"_")
			t := strings.HasPrefix(name, "T_"+prop+"_")
			if !q && !(t && tier == "thorough") {
				continue
			}
			short := pk.Pkg.Name() + "." + name
			if re != nil && !re.MatchString(short) {
				continue
			}
			doc := p.docs[pk.Pkg.Path()+"."+name]
			out = append(out, &Harness{Name: short, Short: short, Doc: doc, fn: fn, Labels: map[string]int{}})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		// quick harnesses first, then by name
		if out[i].Short[3] != out[j].Short[3] {
			return out[i].Short[3] < out[j].Short[3]
		}
		return out[i].Short < out[j].Short
	})
	return out
}

// expectedLabels lists the assertion labels that occur in the code a harness
// calls within its own package.
func (p *Program) expectedLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == fn.Pkg {
						visit(g)
					}
				}
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				if strings.HasPrefix(g.String(), symPkg) {
					switch g.Name() {
					case "Reach":
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							labels["reach "+trimQ(k)] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
	return keys(labels)
}

func trimQ(c *ssa.Const) string {
	s := c.Value.ExactString()
	var out string
	if json.Unmarshal([]byte(s), &out) == nil {
		return out
	}
	return s
}

// ---- native replay

type reporter struct {
	bin, verif, prop    string
	hdir, work, overlay string
	race                string // replay built with the race detector
}

func (rp *reporter) run(ws []Witness, timeout time.Duration) ([]replayOut, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, rp.bin)
	cmd.WaitDelay = time.Second
	var in bytes.Buffer
	for _, w := range ws {
		b, _ := json.Marshal(w)
		in.Write(b)
		in.WriteByte('\n')
	}
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1")
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	var stderr bytes.Buffer
	cmd.Stderr = &limited{w: &stderr, n: 4096}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	var res []replayOut
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var o replayOut
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			return res, err
		}
		res = append(res, o)
	}
	werr := cmd.Wait()
	if len(res) < len(ws) {
		if ctx.Err() != nil {
			return append(res, replayOut{hang: true}), nil
		}
		// the process died (stack overflow, out of memory)
		return append(res, replayOut{Panic: fmt.Sprintf("process died: %v: %s", werr, firstLine(stderr.String()))}), nil
	}
	return res, nil
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		k := min(l.n, len(p))
		l.w.Write(p[:k])
		l.n -= k
	}
	return len(p), nil
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(strings.TrimLeft(s, "=\n"), "\n")
	return l
}

// confirm re-runs a counterexample against the compiled code.
func (rp *reporter) confirm(v *Violation) (bool, string) {
	if v.Race {
		return rp.confirmRace(v)
	}
	to := 60 * time.Second
	if v.Hang {
		to = 20 * time.Second
	}
	out, err := rp.run([]Witness{v.Wit}, to)
	if err != nil || len(out) == 0 {
		return false, fmt.Sprint(err)
	}
	o := out[0]
	switch {
	case o.Err != "":
		return false, o.Err
	case o.hang:
		v.Msg += " (native run does not terminate within " + to.String() + ")"
		return true, ""
	case o.Panic != "":
		v.Msg += " (native: panic " + o.Panic + ")"
		return true, ""
	case len(o.Failed) > 0:
		v.Msg += " (native: failed " + strings.Join(o.Failed, "; ") + ")"
		return true, ""
	case o.Assume:
		return false, "assumption fails"
	}
	return false, "all assertions hold"
}

func (rp *reporter) save(v *Violation, n int) string {
	dir := filepath.Join(rp.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s_%d.json", rp.prop, n))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"h": v.Wit.Harness, "vals": v.Wit.Vals, "violates": v.Label, "detail": v.Msg,
		"rerun": "/verif/check " + rp.prop + " replay FILE", "race": v.Race,
	}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("violated: %s: %s %s\n", v.Wit.Harness, v.Label, v.Msg)
	return p
}

func (rp *reporter) validate(h *Harness) (int, string) {
	if len(h.wit) == 0 || h.newViol() {
		return 0, ""
	}
	out, err := rp.run(h.wit, 120*time.Second)
	if err != nil {
		return 0, err.Error()
	}
	for i, o := range out {
		w := h.wit[i]
		switch {
		case o.Err != "":
			return i, o.Err
		case o.hang:
			return i, fmt.Sprintf("native replay of %v hangs", w.Vals)
		case o.Panic != "":
			return i, fmt.Sprintf("native replay of %v panics: %s", w.Vals, o.Panic)
		case o.Assume:
			return i, fmt.Sprintf("native replay of %v fails an assumption", w.Vals)
		}
		if len(o.Trace) != len(w.Trace) {
			return i, fmt.Sprintf("trace length differs from native replay on %v:\n%v\n%v", w.Vals, w.Trace, o.Trace)
		}
		for k := range o.Trace {
			if o.Trace[k] != w.Trace[k] {
				return i, fmt.Sprintf("native replay of %v observed %q, engine predicted %q", w.Vals, o.Trace[k], w.Trace[k])
			}
		}
	}
	return len(out), ""
}

// ---- known findings

// loadKnown reads lines "finding: property=C21 id=F01 <text>".
func loadKnown(path, prop string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`^finding: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]] = m[2] + ": " + m[3]
		}
	}
	return out, nil
}

// replayFile re-runs a saved counterexample against the compiled code.
func replayFile(rp *reporter) {
	var in struct {
		H    string            `json:"h"`
		Vals map[string]uint64 `json:"vals"`
		Race bool              `json:"race"`
	}
	b, err := os.ReadFile(*fReplay)
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		die("%v", err)
	}
	v := &Violation{Wit: Witness{Harness: in.H, Vals: in.Vals}, Race: in.Race}
	ok, why := rp.confirm(v)
	if ok {
		fmt.Printf("fails: %s:%s\n", in.H, v.Msg)
		os.Exit(1)
	}
	fmt.Printf("passes: %s (%s)\n", in.H, why)
}
