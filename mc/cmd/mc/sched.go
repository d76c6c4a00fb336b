//go:build vsched

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/zzvsched"

	"verif/mc/core"
)

type exec = zzvsched.Exec

var full = zzvsched.Space{Mode: zzvsched.Full}

func preempt(n int) zzvsched.Space { return zzvsched.Space{Mode: zzvsched.Preempt, Bound: n} }
func delay(n int) zzvsched.Space   { return zzvsched.Space{Mode: zzvsched.Delay, Bound: n} }

// schedCtx prepares a process for controlled schedules: threads hand over to
// each other, one processor is enough (and fastest).
func schedCtx() { runtime.GOMAXPROCS(1) }

// explore runs all schedules of a space. setup makes the bodies of an
// execution, check judges it after all its goroutines ended and describes what
// is wrong. Panics of the bodies are violations unless panics is set.
func explore(u *Unit, sp zzvsched.Space, what func() string, setup func() []func(), panics bool, check func(e *exec) string) {
	u.Case(func() string { return what() + "\nschedule (thread of each step): " + zzvsched.Trace() })
	if sp.Max == 0 {
		sp.Max = 2_000_000
	}
	if os.Getenv("PLAIN") != "" {
		zzvsched.Plain = true
		defer func() { zzvsched.Plain = false }()
	}
	st := zzvsched.Explore(sp, setup, func(e *exec) {
		u.Evals++
		u.Tick()
		if e.Fail != "" {
			u.Failf("%s", e.Fail)
		}
		if !panics {
			for i, p := range e.Panics {
				if d, is := core.Failure(p); is {
					u.Failf("goroutine %d: %s", i, d)
				}
				if p != nil {
					u.Failf("caller %d panicked: %v\n%s", i, p, e.Stacks[i])
				}
			}
		}
		if d := check(e); d != "" {
			u.Failf("%s", d)
		}
	})
	u.Traces += st.Schedules
	u.Trans += st.Steps
	u.States++
	u.Cover("schedules explored", st.Schedules)
	u.Cover("of these equivalent to another", st.Redundant)
	if sp.Mode == zzvsched.Full {
		u.Cover("classes of schedules", st.Schedules-st.Redundant)
	}
	u.Cover("max goroutines in one execution", 0)
	u.Cov["max goroutines in one execution"] = max(u.Cov["max goroutines in one execution"], int64(st.MaxThread))
	if st.MaxThread > 1 {
		u.Cover("cases with several goroutines", 1)
	}
	if st.Capped != "" {
		u.Capped(st.Capped + " in: " + what())
	}
}

// digestSet shows the contents as far as the elements are in the universe.
func digestSet(un core.Univ[E], s frozen.Set[E]) string {
	var m uint32
	n := 0
	odd := ""
	for r := s.Range(); r.Next(); n++ {
		e := r.Value()
		if e.ID < 0 || int(e.ID) >= len(un.El) {
			odd += fmt.Sprintf(" stray %v", e)
			continue
		}
		if m>>uint(e.ID)&1 != 0 {
			odd += fmt.Sprintf(" twice %v", e)
		}
		m |= 1 << uint(e.ID)
	}
	for i, e := range un.El {
		if s.Has(e) != (m>>uint(i)&1 != 0) {
			odd += fmt.Sprintf(" Has(%v)=%v", e, s.Has(e))
		}
	}
	if s.Count() != n || s.IsEmpty() != (n == 0) {
		odd += fmt.Sprintf(" Count=%d IsEmpty=%v n=%d", s.Count(), s.IsEmpty(), n)
	}
	return core.MaskString(m) + odd
}

func digestMap(un core.Univ[E], m frozen.Map[E, int]) string {
	vals := make([]string, len(un.El))
	odd := ""
	n := 0
	for r := m.Range(); r.Next(); n++ {
		k, v := r.Entry()
		if int(k.ID) >= len(vals) || vals[k.ID] != "" {
			odd += fmt.Sprintf(" stray or repeated %v:%v", k, v)
			continue
		}
		vals[k.ID] = fmt.Sprint(v)
	}
	for i, e := range un.El {
		v, has := m.Get(e)
		if has != (vals[i] != "") || has && fmt.Sprint(v) != vals[i] {
			odd += fmt.Sprintf(" Get(%v)=%v,%v", e, v, has)
		}
		if vals[i] == "" {
			vals[i] = "-"
		}
	}
	if m.Count() != n {
		odd += fmt.Sprintf(" Count=%d n=%d", m.Count(), n)
	}
	return strings.Join(vals, ",") + odd
}

// verifier caches the results already found right, by their structure.
type verifier struct {
	ok  map[string]bool
	buf []byte
}

func newVerifier() *verifier { return &verifier{ok: map[string]bool{}} }

func (v *verifier) check(x any, want string, digest func() string) string {
	v.buf = append(v.buf[:0], want...)
	v.buf = core.Dump(v.buf, x)
	if v.ok[string(v.buf)] {
		return ""
	}
	if got := digest(); got != want {
		return fmt.Sprintf("result %s, want %s", got, want)
	}
	v.ok[string(v.buf)] = true
	return ""
}

// rooted says whether the universe has elements in different slots of the root.
func rooted(s core.Shape, g core.HashGeom) bool {
	for _, h := range s.H {
		if h>>uint(64-g.Bits) != s.H[0]>>uint(64-g.Bits) {
			return true
		}
	}
	return false
}

func subset(un core.Univ[E], m uint32) frozen.Set[E] {
	return frozen.NewSet(maskElems(un, m)...)
}
