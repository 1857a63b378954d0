// Command vc runs, replays and shrinks the properties of this framework.
//
//	vc check  -prop C01 [-tier quick] [-seed 1] -verif DIR   run a property, write evidence, report
//	vc replay FILE                                           re-execute one recorded case
//	vc list                                                  ids
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/harness/pbt"
	"verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vc check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props.All() {
			fmt.Printf("%s race=%v quick=%d thorough=%d\n", p.ID, p.Race, p.Quick, p.Thorough)
		}
	case "israce":
		if props.Get(os.Args[2]).Race {
			fmt.Println("1")
		} else {
			fmt.Println("0")
		}
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func tierOf(s string) pbt.Tier {
	if s == "thorough" {
		return pbt.Thorough
	}
	return pbt.Quick
}

// worker runs cases in this process and writes a Result.
func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	cases := fs.Int("cases", 0, "")
	budget := fs.Duration("budget", 0, "")
	journal := fs.String("journal", "", "")
	out := fs.String("out", "", "")
	only := fs.String("only", "", "")
	_ = fs.Parse(args)
	p := props.Get(*prop)
	o := pbt.RunOpts{Seed: *seed, Tier: tierOf(*tier), Cases: *cases, Budget: *budget, Journal: *journal}
	if *only != "" {
		for _, s := range strings.Split(*only, ",") {
			n, _ := strconv.Atoi(s)
			o.Only = append(o.Only, n)
		}
	}
	var res *pbt.Result
	onceSub := 0
	if p.Once != nil && o.Only == nil {
		q := *p
		q.Run = p.Once
		oc := pbt.ReplayIndex(&q, *seed, 0, o.Tier, "")
		for try := 0; try < 2 && oc.Fail != nil && oc.Fail.Timeout; try++ { // confirm
			oc = pbt.ReplayScaled(&q, pbt.ChoicesOf(oc), o.Tier, 3)
		}
		onceSub = pbt.SubsOf(oc)
		if oc.Fail != nil {
			res = &pbt.Result{Evaluations: 1, Failure: &pbt.FailRecord{Property: p.ID, Tier: *tier, Seed: *seed, Case: -1,
				Message: oc.Fail.Msg, Notes: pbt.NotesOf(oc), Choices: nil, Once: true, Repro: "the case that runs first in the process"}}
		}
	}
	if res == nil {
		res = pbt.RunAll(p, o)
		res.Sub += onceSub
	}
	props.Finish()
	if err := pbt.WriteJSON(*out, res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type oneOut struct {
	Failed  bool
	Msg     string
	Choices []uint64
	Notes   []string
	Inconcl string
}

// one runs a single choice sequence, for crash isolation.
func one(args []string) {
	p := props.Get(args[0])
	var rec pbt.FailRecord
	b, err := os.ReadFile(args[1])
	if err == nil {
		err = json.Unmarshal(b, &rec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var o pbt.Outcome
	tee := args[2] + ".tee"
	if rec.Choices == nil && rec.Case >= 0 {
		o = pbt.ReplayIndex(p, rec.Seed, rec.Case, tierOf(rec.Tier), tee)
	} else {
		o = pbt.Replay(p, rec.Choices, tierOf(rec.Tier))
	}
	r := oneOut{Choices: pbt.ChoicesOf(o), Notes: pbt.NotesOf(o), Inconcl: o.Inconcl}
	if o.Fail != nil {
		r.Failed, r.Msg = true, o.Fail.Msg
	}
	_ = pbt.WriteJSON(args[2], r)
}

func replay(args []string) {
	var rec pbt.FailRecord
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &rec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props.Get(rec.Property)
	if rec.Once {
		q := *p
		q.Run = p.Once
		rec.Case, rec.Choices = 0, nil
		p = &q
	}
	if rec.Case < 0 && rec.Choices == nil {
		fmt.Println("this finding belongs to the run, not to one case: re-run the check with VERIF_SEED=", rec.Seed)
		os.Exit(2)
	}
	var o pbt.Outcome
	tee := ""
	for i := 0; i < 5 && o.Fail == nil; i++ {
		if rec.Choices == nil {
			o = pbt.ReplayIndex(p, rec.Seed, rec.Case, tierOf(rec.Tier), tee)
		} else {
			o = pbt.Replay(p, rec.Choices, tierOf(rec.Tier))
		}
	}
	props.ReleaseStdout()
	fmt.Println(strings.Join(pbt.NotesOf(o), "\n"))
	if o.Fail != nil {
		fmt.Println("FAILED:", o.Fail.Msg)
		os.Exit(1)
	}
	fmt.Println("passes", o.Inconcl)
}

type proc struct {
	code   int
	stderr string
}

func run(self string, env []string, timeout time.Duration, args ...string) proc {
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), env...)
	var se bytes.Buffer
	cmd.Stderr = &limited{b: &se, max: 1 << 20}
	if err := cmd.Start(); err != nil {
		return proc{-1, err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
		return proc{-2, "worker overran its time limit\n" + se.String()}
	}
	return proc{cmd.ProcessState.ExitCode(), se.String()}
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func isLibCrash(pr proc) bool {
	if pr.code != 2 {
		return false
	}
	if strings.Contains(pr.stderr, "out of memory") || strings.Contains(pr.stderr, "cannot allocate memory") {
		return false
	}
	return (strings.Contains(pr.stderr, "panic:") || strings.Contains(pr.stderr, "fatal error:")) && pbt.MentionsLib(pr.stderr)
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	cases := fs.Int("cases", 0, "override the number of cases")
	_ = fs.Parse(args)
	p := props.Get(*prop)
	n, budget := p.Quick, 240*time.Second
	if *tier == "thorough" {
		n, budget = p.Thorough, 1200*time.Second
	}
	if *cases > 0 {
		n = *cases
	}
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	tmp, err := os.MkdirTemp("", "vc-"+p.ID+"-")
	if err != nil {
		die(err)
	}
	cleanup := func() { _ = os.RemoveAll(tmp) }
	start := time.Now()
	out, journal := filepath.Join(tmp, "res.json"), filepath.Join(tmp, "journal")
	var env []string
	if p.Race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(tmp, "race"))
	}
	pr := run(self, env, budget*2+120*time.Second, "worker", "-prop", p.ID, "-tier", *tier,
		"-seed", fmt.Sprint(*seed), "-cases", fmt.Sprint(n), "-budget", budget.String(), "-journal", journal, "-out", out)
	var res pbt.Result
	switch {
	case pr.code == 0:
		b, err := os.ReadFile(out)
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err != nil {
			cleanup()
			die(err)
		}
	case isLibCrash(pr):
		res.Classes = map[string]int{}
		res.Failure = crashed(p, self, env, tmp, *tier, *seed, journal, pr)
		res.Evaluations = 1
	default:
		fmt.Fprintf(os.Stderr, "worker failed: exit %d\n%s\n", pr.code, tail(pr.stderr, 6000))
		cleanup()
		os.Exit(2)
	}
	if p.Race && res.Failure == nil {
		if rep := raceReport(tmp); rep != "" {
			res.Failure = &pbt.FailRecord{Property: p.ID, Tier: *tier, Seed: *seed, Case: -1,
				Message: "the race detector reported unsynchronised accesses inside the library", Log: rep,
				Repro: "re-run the check with the same VERIF_SEED"}
		}
	}
	cleanup()

	viol := 0
	if res.Failure != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         res.Evaluations,
			"distinct_nontrivial": res.Distinct,
			"rule":                p.Rule,
			"samples":             res.Samples,
			"inner_operations":    res.Sub,
			"classes":             res.Classes,
			"inconclusive_cases":  res.Inconclusive,
			"unconfirmed_waits":   res.Unconfirmed,
			"budget_hit":          res.BudgetHit,
			"race_detector":       p.Race,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if res.Samples == nil {
		ev["coverage"].(map[string]any)["samples"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := pbt.WriteJSON(filepath.Join(*verif, "evidence", p.ID+".json"), ev); err != nil {
		die(err)
	}
	if res.Failure != nil {
		dir := filepath.Join(*verif, "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", p.ID, *tier, *seed))
		if err := pbt.WriteJSON(path, res.Failure); err != nil {
			die(err)
		}
		fmt.Println(tail(strings.Join(res.Failure.Notes, "\n"), 3000))
		fmt.Println("FAILED:", head(res.Failure.Message, 3000))
		if res.Failure.Log != "" {
			fmt.Println(head(res.Failure.Log, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}
	if res.Evaluations == 0 || res.Inconclusive*4 > res.Evaluations || res.Unconfirmed*4 > res.Evaluations {
		fmt.Fprintf(os.Stderr, "inconclusive: %d cases ran, %d could not (%s), %d waits unconfirmed\n",
			res.Evaluations, res.Inconclusive, res.InconMsg, res.Unconfirmed)
		os.Exit(2)
	}
	fmt.Printf("%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d inner operations), %.1fs\n",
		p.ID, *tier, *seed, res.Evaluations, res.Distinct, res.Sub, time.Since(start).Seconds())
}

func raceReport(tmp string) string {
	fs, _ := filepath.Glob(filepath.Join(tmp, "race.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") && libRace(rep) {
				return head(rep, 8000)
			}
		}
	}
	return ""
}

// libRace tells whether one of the two accesses happened in library code: the
// first frame below each access that is not the Go runtime or standard library.
func libRace(rep string) bool {
	n := 0
	for _, blk := range strings.Split(rep, "\n\n") {
		l := strings.Split(blk, "\n")
		acc := false
		for _, s := range l {
			if strings.Contains(s, " at 0x") && strings.Contains(s, " by ") {
				acc = true
				continue
			}
			if !acc || !strings.HasPrefix(s, "  ") || strings.HasPrefix(s, "      ") {
				continue
			}
			fn := strings.TrimSpace(s)
			if strings.Contains(fn, "github.com/things-go/go-modbus.") {
				n++
				break
			}
			if strings.HasPrefix(fn, "verif/") || strings.HasPrefix(fn, "main.") {
				break
			}
		}
	}
	return n >= 1
}

// crashed isolates and shrinks a case that takes the whole process down.
func crashed(p *pbt.Property, self string, env []string, tmp, tier string, seed uint64, journal string, first proc) *pbt.FailRecord {
	rec := &pbt.FailRecord{Property: p.ID, Tier: tier, Seed: seed, Case: -1,
		Message: "the process running the library died:\n" + crashText(first.stderr)}
	var cand []int
	if b, err := os.ReadFile(journal); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			if v := binary.LittleEndian.Uint64(b[i:]); v > 0 {
				cand = append(cand, int(v)-1)
			}
		}
	}
	in, outp := filepath.Join(tmp, "one.json"), filepath.Join(tmp, "one.out")
	deadline := time.Now().Add(90 * time.Second)
	exec1 := func(r *pbt.FailRecord) (proc, *oneOut) {
		_ = os.Remove(outp)
		_ = pbt.WriteJSON(in, r)
		pr := run(self, env, 60*time.Second, "one", p.ID, in, outp)
		var o oneOut
		if b, err := os.ReadFile(outp); err == nil && json.Unmarshal(b, &o) == nil {
			return pr, &o
		}
		return pr, nil
	}
	for _, c := range cand {
		for try := 0; try < 2 && time.Now().Before(deadline); try++ {
			pr, _ := exec1(&pbt.FailRecord{Property: p.ID, Tier: tier, Seed: seed, Case: c})
			if !isLibCrash(pr) {
				continue
			}
			rec.Case = c
			rec.Message = "the process running the library died:\n" + crashText(pr.stderr)
			rec.Repro = "crashes again in a fresh process"
			var ch []uint64
			if b, err := os.ReadFile(outp + ".tee"); err == nil {
				for i := 0; i+8 <= len(b); i += 8 {
					ch = append(ch, binary.LittleEndian.Uint64(b[i:]))
				}
			}
			if ch == nil {
				return rec
			}
			r := *rec
			r.Choices = ch
			if pr, _ := exec1(&r); !isLibCrash(pr) {
				return rec
			}
			rec.Choices = pbt.Shrink(ch, nil, func(x []uint64) ([]uint64, []pbt.Span, bool) {
				r.Choices = x
				if len(x) == 0 {
					return nil, nil, false
				}
				pr, _ := exec1(&r)
				if !isLibCrash(pr) {
					return nil, nil, false
				}
				rec.Message = "the process running the library died:\n" + crashText(pr.stderr)
				return append([]uint64(nil), x...), nil, true
			}, 400, deadline)
			rec.Shrunk = true
			return rec
		}
	}
	rec.Repro = fmt.Sprintf("cases in flight: %v; not reproduced alone", cand)
	rec.Log = tail(first.stderr, 6000)
	return rec
}

func crashText(s string) string {
	for _, k := range []string{"panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			return head(s[i:], 1800)
		}
	}
	return head(s, 1500)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "vc:", err)
	os.Exit(2)
}
