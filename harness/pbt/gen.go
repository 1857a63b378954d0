// Package pbt is a small property-based-testing engine: every random decision
// of a case is one bounded integer in a recorded choice sequence, so a case is
// a pure function of that sequence. Shrinking and replay both work on the
// sequence (shorter and smaller = simpler), never on generated values.
package pbt

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"sync"
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 { // splitmix64
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// CaseSeed derives the seed of case i of a property from the run seed.
func CaseSeed(runSeed uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", runSeed, prop, i)
	return h.Sum64()
}

type span struct{ from, to int }

// T is one running case.
type T struct {
	Index  int  // case index in the run; -1 in a replay
	Scale  int  // multiplier for wait budgets (raised when a timeout is being confirmed)
	Tier   Tier // sizes may depend on it
	replay []uint64
	isRep  bool
	r      rng
	rec    []uint64
	pos    int
	spans  []span

	mu         sync.Mutex
	notes      []string
	classes    map[string]int
	nontrivial bool
	key        string
	cleanup    []func()
	tee        *os.File // choices are written here as they are made (crash isolation)
	subEvals   int
}

// Tier of a run.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

func newT(i int, seed uint64, tier Tier) *T {
	return &T{Index: i, Scale: 1, r: rng{seed}, classes: map[string]int{}, Tier: tier}
}

func newReplay(choices []uint64, tier Tier) *T {
	return &T{Index: -1, Scale: 1, replay: choices, isRep: true, classes: map[string]int{}, Tier: tier}
}

// draw returns a value in [0,n). 0 is the simplest choice.
func (t *T) draw(n uint64) uint64 {
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if v >= n {
				v = n - 1
			}
		}
		t.pos++
	} else {
		v = t.r.next() % n
	}
	t.push(v)
	if len(t.rec) > 2_000_000 {
		panic("pbt: runaway generator")
	}
	return v
}

func (t *T) push(v uint64) {
	t.rec = append(t.rec, v)
	if t.tee != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		_, _ = t.tee.Write(b[:])
	}
}

// Intn draws from [0,n).
func (t *T) Intn(n int) int { return int(t.draw(uint64(n))) }

// Range draws from [lo,hi].
func (t *T) Range(lo, hi int) int {
	if hi < lo {
		panic(fmt.Sprintf("pbt: bad range %d..%d", lo, hi))
	}
	return lo + t.Intn(hi-lo+1)
}

// Bool draws a coin; false is simplest.
func (t *T) Bool() bool { return t.draw(2) == 1 }

// Chance is true with probability num/den; false is simplest.
func (t *T) Chance(num, den int) bool { return int(t.draw(uint64(den))) >= den-num }

// Byte draws a byte.
func (t *T) Byte() byte { return byte(t.draw(256)) }

// U16 draws a uniform 16-bit value.
func (t *T) U16() uint16 { return uint16(t.draw(65536)) }

// Bytes draws n bytes, sometimes with a regular pattern.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch t.Intn(8) {
	case 6: // all the same
		v := t.Byte()
		for i := range b {
			b[i] = v
		}
	case 7: // counting
		v := t.Byte()
		for i := range b {
			b[i] = v + byte(i)
		}
	default:
		for i := range b {
			b[i] = t.Byte()
		}
	}
	return b
}

// OneOf draws one of the given ints.
func (t *T) OneOf(v ...int) int { return v[t.Intn(len(v))] }

// Freq draws an index with the given weights; index 0 is simplest.
func (t *T) Freq(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	k := t.Intn(sum)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

// Repeat calls f between min and max times; each iteration is one span that
// the shrinker can delete as a whole.
func (t *T) Repeat(min, max int, f func(i int)) int {
	n := 0
	// expected length around (min+max)/2 but geometric-ish: keep going with p
	target := max
	if max > min {
		target = t.Range(min, max) // draws the intended upper bound first
	}
	for n < target {
		from := len(t.rec)
		if n >= min && !t.more() {
			t.spans = append(t.spans, span{from, len(t.rec)})
			break
		}
		f(n)
		t.spans = append(t.spans, span{from, len(t.rec)})
		n++
	}
	return n
}

// more is a list-continuation flag: always 1 when generating, so that lengths
// follow the drawn target; the shrinker ends a list by zeroing or deleting it.
func (t *T) more() bool {
	if t.isRep {
		return t.draw(2) == 1
	}
	t.push(1)
	return true
}

// Enum draws from [0,n), but the first n cases of a run enumerate it.
func (t *T) Enum(n int) int {
	if !t.isRep && t.Index < n {
		t.push(uint64(t.Index))
		return t.Index
	}
	return t.Intn(n)
}

// Note adds a line to the human-readable description of the case.
func (t *T) Note(format string, a ...any) {
	t.mu.Lock()
	if len(t.notes) < 400 {
		t.notes = append(t.notes, fmt.Sprintf(format, a...))
	}
	t.mu.Unlock()
}

// Class counts a label for the distribution in the evidence.
func (t *T) Class(label string) {
	t.mu.Lock()
	t.classes[label]++
	t.mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (t *T) NonTrivial() { t.mu.Lock(); t.nontrivial = true; t.mu.Unlock() }

// Sub counts an inner evaluation (one request, one call) of this case.
func (t *T) Sub(n int) { t.mu.Lock(); t.subEvals += n; t.mu.Unlock() }

// Cleanup registers f to run when the case is over (last first).
func (t *T) Cleanup(f func()) { t.mu.Lock(); t.cleanup = append(t.cleanup, f); t.mu.Unlock() }

// Failure is what a violated oracle panics with.
type Failure struct {
	Msg     string
	Timeout bool // rests on a wait budget: must be confirmed with longer budgets
}

// Inconclusive is what a case panics with if the environment let it down.
type Inconclusive struct{ Msg string }

// Failf reports a violated oracle.
func (t *T) Failf(format string, a ...any) { panic(Failure{Msg: fmt.Sprintf(format, a...)}) }

// FailTimeoutf reports that something demanded did not happen within its budget.
func (t *T) FailTimeoutf(format string, a ...any) {
	panic(Failure{Msg: fmt.Sprintf(format, a...), Timeout: true})
}

// Envf reports a failure of the environment (not of the code under test).
func (t *T) Envf(format string, a ...any) { panic(Inconclusive{fmt.Sprintf(format, a...)}) }

func (t *T) text() string { return strings.Join(t.notes, "\n") }
