package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Property is one executable property.
type Property struct {
	ID       string
	Rule     string // how cases are made, what makes one non-trivial
	Quick    int    // cases in the quick tier
	Thorough int
	Workers  int           // cases run in parallel (default 8)
	CaseMax  time.Duration // watchdog per case (default 60s)
	Race     bool          // needs the race-detector build
	Run      func(t *T)
	// Once, if set, runs first in the worker process, before any case.
	Once   func(t *T)
	Assume []string
}

// Outcome of one case.
type Outcome struct {
	Fail    *Failure
	Inconcl string
	T       *T
}

var libMarker = "github.com/things-go/go-modbus."

// MentionsLib tells whether a stack trace passes through the code under test.
func MentionsLib(s string) bool { return strings.Contains(s, libMarker) }

// Exec runs one case to its end (or its watchdog).
func Exec(p *Property, t *T) (o Outcome) {
	max := p.CaseMax
	if max == 0 {
		max = 60 * time.Second
	}
	max *= time.Duration(t.Scale)
	done := make(chan Outcome, 1)
	go func() {
		var o Outcome
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case Failure:
					o.Fail = &v
				case Inconclusive:
					o.Inconcl = v.Msg
				default:
					st := string(debug.Stack())
					if MentionsLib(st) {
						o.Fail = &Failure{Msg: fmt.Sprintf("panic in the code under test: %v\n%s", r, trimStack(st))}
					} else {
						fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, st)
						os.Exit(3)
					}
				}
			}
			for i := len(t.cleanup) - 1; i >= 0; i-- {
				t.cleanup[i]()
			}
			o.T = t
			done <- o
		}()
		p.Run(t)
	}()
	tm := time.NewTimer(max)
	defer tm.Stop()
	select {
	case o = <-done:
		return o
	case <-tm.C:
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		return Outcome{T: t, Fail: &Failure{Timeout: true,
			Msg: fmt.Sprintf("case still running after %v; goroutines inside the library:\n%s", max, libStacks(string(buf)))}}
	}
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(l); i++ {
		if strings.Contains(l[i], libMarker) {
			out = append(out, l[i], l[i+1])
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func libStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, libMarker) {
			out = append(out, trimStack(g))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n--\n")
}

// Result is what a worker process reports.
type Result struct {
	Evaluations  int            `json:"evaluations"`
	Sub          int            `json:"sub"`
	Distinct     int            `json:"distinct"`
	Classes      map[string]int `json:"classes"`
	Samples      []string       `json:"samples"`
	Inconclusive int            `json:"inconclusive"`
	InconMsg     string         `json:"inconclusive_msg"`
	Unconfirmed  int            `json:"unconfirmed_timeouts"`
	BudgetHit    bool           `json:"budget_hit"`
	Failure      *FailRecord    `json:"failure"`
}

// FailRecord is a replay file.
type FailRecord struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Notes    []string `json:"notes"`
	Choices  []uint64 `json:"choices"`
	Once     bool     `json:"once,omitempty"` // the case that runs first in the process
	Shrunk   bool     `json:"shrunk"`
	Repro    string   `json:"reproduced"`
	Log      string   `json:"log,omitempty"`
}

// RunOpts of a worker.
type RunOpts struct {
	Seed    uint64
	Tier    Tier
	Cases   int
	Budget  time.Duration
	Journal string // file of 8-byte slots, one per worker: the case in flight + 1
	Only    []int  // run only these
}

// TierName is the name of a tier.
func TierName(t Tier) string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// RunAll runs the cases of a property in this process.
func RunAll(p *Property, o RunOpts) *Result {
	workers := p.Workers
	if workers == 0 {
		workers = 8
	}
	res := &Result{Classes: map[string]int{}}
	var jf *os.File
	if o.Journal != "" {
		f, err := os.OpenFile(o.Journal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			panic(err)
		}
		_ = f.Truncate(int64(8 * workers))
		jf = f
		defer f.Close()
	}
	seen := map[uint64]bool{}
	var mu sync.Mutex
	var next, stop int64
	start := time.Now()
	var firstFail *Outcome
	firstIdx := -1
	finished := false
	n := o.Cases
	if o.Only != nil {
		n = len(o.Only)
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1)) - 1
				if k >= n || atomic.LoadInt64(&stop) != 0 {
					return
				}
				if o.Budget > 0 && time.Since(start) > o.Budget {
					mu.Lock()
					if !finished {
						res.BudgetHit = true
					}
					mu.Unlock()
					return
				}
				i := k
				if o.Only != nil {
					i = o.Only[k]
				}
				if jf != nil {
					var b [8]byte
					binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
					_, _ = jf.WriteAt(b[:], int64(8*w))
				}
				t := newT(i, CaseSeed(o.Seed, p.ID, i), o.Tier)
				out := Exec(p, t)
				if atomic.LoadInt64(&stop) != 0 {
					return // another case has failed already
				}
				if out.Fail != nil && out.Fail.Timeout {
					// confirm with a longer budget before believing it
					confirmed := false
					for try := 0; try < 2; try++ {
						if atomic.LoadInt64(&stop) != 0 {
							return
						}
						t2 := newReplay(append([]uint64(nil), t.rec...), o.Tier)
						t2.Scale = 3
						o2 := Exec(p, t2)
						if o2.Fail == nil {
							confirmed = false
							break
						}
						confirmed = true
						if atomic.LoadInt64(&stop) != 0 {
							return
						}
						if !o2.Fail.Timeout {
							out.Fail = o2.Fail
							break
						}
					}
					if !confirmed {
						mu.Lock()
						if !finished {
							res.Unconfirmed++
						}
						mu.Unlock()
						continue
					}
				}
				if jf != nil {
					var b [8]byte
					_, _ = jf.WriteAt(b[:], int64(8*w))
				}
				mu.Lock()
				if finished {
					mu.Unlock()
					return
				}
				if out.Inconcl != "" {
					res.Inconclusive++
					res.InconMsg = out.Inconcl
				} else {
					t.mu.Lock()
					res.Evaluations++
					res.Sub += t.subEvals
					for c, k := range t.classes {
						res.Classes[c] += k
					}
					if t.nontrivial {
						h := fnv.New64a()
						var b [8]byte
						for _, c := range t.rec {
							binary.LittleEndian.PutUint64(b[:], c)
							h.Write(b[:])
						}
						seen[h.Sum64()] = true
						if len(res.Samples) < 4 {
							s := t.text()
							if len(s) > 1500 {
								s = s[:1500] + "..."
							}
							res.Samples = append(res.Samples, s)
						}
					}
					t.mu.Unlock()
				}
				if out.Fail != nil {
					atomic.StoreInt64(&stop, 1)
					if firstIdx < 0 || i < firstIdx {
						c := out
						firstFail, firstIdx = &c, i
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	for over := false; !over; {
		select {
		case <-all:
			over = true
		case <-time.After(time.Second):
			if atomic.LoadInt64(&stop) != 0 { // a failure: do not wait long for the others
				select {
				case <-all:
				case <-time.After(5 * time.Second):
				}
				over = true
			}
		}
	}
	mu.Lock()
	finished = true
	mu.Unlock()
	res.Distinct = len(seen)
	if firstFail != nil {
		res.Failure = shrinkInProcess(p, o, firstFail, firstIdx)
	}
	return res
}

func record(p *Property, o RunOpts, out *Outcome, idx int) *FailRecord {
	return &FailRecord{Property: p.ID, Tier: TierName(o.Tier), Seed: o.Seed, Case: idx,
		Message: out.Fail.Msg, Notes: append([]string(nil), out.T.notes...), Choices: append([]uint64(nil), out.T.rec...)}
}

func shrinkInProcess(p *Property, o RunOpts, out *Outcome, idx int) *FailRecord {
	best := record(p, o, out, idx)
	run := func(ch []uint64) *Outcome {
		t := newReplay(ch, o.Tier)
		r := Exec(p, t)
		return &r
	}
	// does it reproduce at all?
	rep := 0
	var again *Outcome
	for i := 0; i < 5; i++ {
		r := run(best.Choices)
		if r.Fail != nil {
			rep++
			again = r
			if out.Fail.Timeout || rep >= 2 {
				break
			}
		}
	}
	best.Repro = fmt.Sprintf("%d re-executions failed", rep)
	if again == nil {
		best.Repro = "not reproduced in 5 re-executions (depends on the schedule); the oracle's finding above stands"
		return best
	}
	if again.Fail.Timeout && p.CaseMax > 20*time.Second {
		q := *p
		q.CaseMax = 20 * time.Second
		p = &q
	}
	deadline := time.Now().Add(25 * time.Second)
	sh := Shrink(best.Choices, spansOf(again), func(ch []uint64) ([]uint64, []Span, bool) {
		r := run(ch)
		if r.Fail == nil {
			return nil, nil, false
		}
		best.Message = r.Fail.Msg
		best.Notes = append([]string(nil), r.T.notes...)
		return append([]uint64(nil), r.T.rec...), spansOf(r), true
	}, 1500, deadline)
	best.Choices = sh
	best.Shrunk = true
	return best
}

// Span of choices belonging to one list element.
type Span struct{ From, To int }

func spansOf(o *Outcome) []Span {
	s := make([]Span, 0, len(o.T.spans))
	for _, x := range o.T.spans {
		s = append(s, Span{x.from, x.to})
	}
	return s
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Shrink minimises a failing choice sequence. try runs a candidate and, if it
// still fails, returns the sequence actually consumed.
func Shrink(cur []uint64, spans []Span, try func([]uint64) ([]uint64, []Span, bool), maxExec int, deadline time.Time) []uint64 {
	execs := 0
	attempt := func(c []uint64) bool {
		if execs >= maxExec || time.Now().After(deadline) {
			return false
		}
		execs++
		got, sp, ok := try(c)
		if !ok || !less(got, cur) {
			return false
		}
		cur, spans = got, sp
		return true
	}
	without := func(from, to int) []uint64 {
		c := append([]uint64(nil), cur[:from]...)
		return append(c, cur[to:]...)
	}
	for improved := true; improved && execs < maxExec && time.Now().Before(deadline); {
		improved = false
		// delete spans, last first (later elements are usually irrelevant)
		for i := len(spans) - 1; i >= 0; i-- {
			if i >= len(spans) {
				i = len(spans)
				continue
			}
			s := spans[i]
			if s.To <= len(cur) && s.From < s.To && attempt(without(s.From, s.To)) {
				improved = true
			}
		}
		// delete chunks
		for _, k := range []int{32, 8, 4, 2, 1} {
			for i := len(cur) - k; i >= 0; i -= k {
				if i+k <= len(cur) && attempt(without(i, i+k)) {
					improved = true
				}
			}
		}
		// zero chunks
		for _, k := range []int{32, 8} {
			for i := 0; i+k <= len(cur); i += k {
				z := true
				for _, v := range cur[i : i+k] {
					if v != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint64(nil), cur...)
				for j := i; j < i+k; j++ {
					c[j] = 0
				}
				if attempt(c) {
					improved = true
				}
			}
		}
		// minimise single choices
		for i := 0; i < len(cur); i++ {
			if cur[i] == 0 {
				continue
			}
			set := func(v uint64) bool {
				if i >= len(cur) || v >= cur[i] {
					return false
				}
				c := append([]uint64(nil), cur...)
				c[i] = v
				return attempt(c)
			}
			if set(0) {
				improved = true
				continue
			}
			lo := uint64(0) // passes
			for i < len(cur) && cur[i] > lo+1 {
				mid := lo + (cur[i]-lo)/2
				if set(mid) {
					improved = true
				} else {
					lo = mid
				}
				if execs >= maxExec || time.Now().After(deadline) {
					break
				}
			}
			if i < len(cur) && cur[i] > 0 && set(cur[i]-1) {
				improved = true
			}
		}
	}
	return cur
}

// Replay runs one recorded case.
func Replay(p *Property, choices []uint64, tier Tier) Outcome {
	t := newReplay(choices, tier)
	return Exec(p, t)
}

// ReplayScaled runs one recorded case with longer wait budgets.
func ReplayScaled(p *Property, choices []uint64, tier Tier, scale int) Outcome {
	t := newReplay(choices, tier)
	t.Scale = scale
	return Exec(p, t)
}

// SubsOf returns the number of inner operations of a case.
func SubsOf(o Outcome) int { return o.T.subEvals }

// ReplayIndex runs a case given by seed and index; if tee is not empty, its
// choices are written to that file while they are made.
func ReplayIndex(p *Property, seed uint64, idx int, tier Tier, tee string) Outcome {
	t := newT(idx, CaseSeed(seed, p.ID, idx), tier)
	if tee != "" {
		if f, err := os.Create(tee); err == nil {
			t.tee = f
		}
	}
	return Exec(p, t)
}

// NotesOf returns the description of a case.
func NotesOf(o Outcome) []string { return append([]string(nil), o.T.notes...) }

// ChoicesOf returns the choices of a case.
func ChoicesOf(o Outcome) []uint64 { return append([]uint64(nil), o.T.rec...) }

// WriteJSON writes v to path.
func WriteJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
