//go:build vsched && (!sel || c14)

package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/arr-ai/frozen/zzvsched"
	"github.com/arr-ai/frozen/zzvsched/zzatomic"
	"github.com/arr-ai/frozen/zzvsched/zzsync"
)

// The explorer itself is checked: on every small program over an alphabet of
// synchronisation operations, partial-order reduction must reach exactly the
// outcomes that all schedules have, and exactly one execution per class.

type toyState struct {
	x, y    zzatomic.Int64
	m, m2   zzsync.Mutex
	rw      zzsync.RWMutex
	wg      zzsync.WaitGroup
	once    zzsync.Once
	cond    *zzsync.Cond
	set     bool
	buf     chan int
	sync    chan int
	seen    [3]strings.Builder // what a thread observed
	spawned atomic.Int32
}

// toyOp is one letter of the programs; t is the thread.
type toyOp struct {
	name string
	do   func(s *toyState, t int)
}

func see(s *toyState, t int, v any) { fmt.Fprintf(&s.seen[t], "%v ", v) }

var toyOps = []toyOp{
	{"x:=load", func(s *toyState, t int) { see(s, t, s.x.Load()) }},
	{"store x", func(s *toyState, t int) { s.x.Store(int64(t + 1)) }},
	{"x+=", func(s *toyState, t int) { see(s, t, s.x.Add(int64(10*t+10))) }},
	{"lost update of x", func(s *toyState, t int) { s.x.Store(2*s.x.Load() + int64(t)) }},
	{"y:=load", func(s *toyState, t int) { see(s, t, s.y.Load()) }},
	{"store y", func(s *toyState, t int) { s.y.Store(int64(t + 1)) }},
	{"{m x}", func(s *toyState, t int) { s.m.Lock(); s.x.Store(2*s.x.Load() + int64(t)); s.m.Unlock() }},
	{"{m {m2}}", func(s *toyState, t int) { s.m.Lock(); s.m2.Lock(); s.m2.Unlock(); s.m.Unlock() }},
	{"{m2 {m}}", func(s *toyState, t int) { s.m2.Lock(); s.m.Lock(); s.m.Unlock(); s.m2.Unlock() }},
	{"try m", func(s *toyState, t int) {
		ok := s.m.TryLock()
		see(s, t, ok)
		if ok {
			s.x.Add(1)
			s.m.Unlock()
		}
	}},
	{"read {rw x}", func(s *toyState, t int) { s.rw.RLock(); see(s, t, s.x.Load()); s.rw.RUnlock() }},
	{"write {rw x}", func(s *toyState, t int) { s.rw.Lock(); s.x.Store(2*s.x.Load() + int64(t)); s.rw.Unlock() }},
	{"buf<-", func(s *toyState, t int) { zzvsched.Send(s.buf, t) }},
	{"<-buf", func(s *toyState, t int) { see(s, t, zzvsched.Recv(s.buf)) }},
	{"sync<-", func(s *toyState, t int) { zzvsched.Send(s.sync, t) }},
	{"<-sync", func(s *toyState, t int) { see(s, t, zzvsched.Recv(s.sync)) }},
	{"close buf", func(s *toyState, t int) {
		if s.spawned.Add(1) == 1 {
			zzvsched.Close(s.buf)
		}
	}},
	{"select", func(s *toyState, t int) {
		r := zzvsched.Select(false, zzvsched.CaseRecv(s.buf), zzvsched.CaseRecv(s.sync), zzvsched.CaseSend(s.buf, t))
		see(s, t, r.I)
	}},
	{"select or", func(s *toyState, t int) {
		r := zzvsched.Select(true, zzvsched.CaseRecv(s.buf), zzvsched.CaseSend(s.buf, t))
		see(s, t, r.I)
	}},
	{"go", func(s *toyState, t int) {
		s.wg.Add(1)
		zzvsched.Go(func() { s.x.Add(100); s.wg.Done() })
	}},
	{"wait", func(s *toyState, t int) { s.wg.Wait(); see(s, t, s.x.Load()) }},
	{"once", func(s *toyState, t int) { s.once.Do(func() { s.y.Add(int64(t + 1)) }) }},
	{"signal", func(s *toyState, t int) { s.m.Lock(); s.set = true; s.m.Unlock(); s.cond.Signal() }},
	{"await", func(s *toyState, t int) {
		s.m.Lock()
		for !s.set {
			s.cond.Wait()
		}
		s.m.Unlock()
		see(s, t, s.x.Load())
	}},
}

// toyRun explores a program (per thread, its letters) and returns the outcomes.
func toyRun(u *Unit, sp zzvsched.Space, prog [][]int) (outs string, st zzvsched.Stats) {
	var s *toyState
	seen := map[string]bool{}
	st = zzvsched.Explore(sp, func() []func() {
		s = &toyState{buf: make(chan int, 1), sync: make(chan int)}
		s.cond = zzsync.NewCond(&s.m)
		var fs []func()
		for t, p := range prog {
			fs = append(fs, func() {
				for _, o := range p {
					toyOps[o].do(s, t)
				}
				s.seen[t].WriteString("end")
			})
		}
		return fs
	}, func(e *zzvsched.Exec) {
		u.Evals++
		o := fmt.Sprintf("x=%d y=%d", s.x.Load(), s.y.Load())
		for t := range prog {
			o += " | " + s.seen[t].String()
			if p := e.Panics[t]; p != nil {
				o += fmt.Sprint(" panic ", p)
			}
		}
		if strings.Contains(e.Fail, "for ever") {
			o += " deadlock"
		} else if e.Fail != "" {
			o += " ended"
		}
		seen[o] = true
	})
	u.Tick()
	l := make([]string, 0, len(seen))
	for o := range seen {
		l = append(l, o)
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), st
}

func toyCheck(u *Unit, prog [][]int) {
	u.Case(func() string {
		s := "a program for the explorer itself:"
		for _, p := range prog {
			s += " ["
			for _, o := range p {
				s += toyOps[o].name + "; "
			}
			s += "]"
		}
		return s
	})
	sp := preempt(1000)
	sp.Max = 20_000
	brute, st := toyRun(u, sp, prog)
	red, rst := toyRun(u, full, prog)
	zzvsched.Plain = true
	slow, sst := toyRun(u, full, prog)
	zzvsched.Plain = false
	if rst.Capped != "" || sst.Capped != "" {
		u.Failf("not explored: %s %s", rst.Capped, sst.Capped)
	}
	if st.Capped != "" { // too many to run all: sleep sets are the reference
		brute = slow
		u.Cover("explorer: programs compared with sleep sets only", 1)
	}
	if red != brute || slow != brute {
		u.Failf("outcomes of all schedules:\n%s\nwith partial-order reduction:\n%s\nwith sleep sets only:\n%s", brute, red, slow)
	}
	if a, b := rst.Schedules-rst.Redundant, sst.Schedules-sst.Redundant; a != b {
		u.Failf("%d classes with partial-order reduction, %d with sleep sets", a, b)
	}
	if st.Capped == "" && rst.Schedules-rst.Redundant > st.Schedules {
		u.Failf("%d classes of %d schedules", rst.Schedules-rst.Redundant, st.Schedules)
	}
	u.Traces += st.Schedules + rst.Schedules + sst.Schedules
	u.Trans += st.Steps + rst.Steps + sst.Steps
	u.States++
	u.Cover("explorer: programs", 1)
	u.Cover("explorer: schedules of these", st.Schedules)
	u.Cover("explorer: classes of these", rst.Schedules-rst.Redundant)
}

func c14explorer(c *Ctx) {
	words := func(n int, letters []int, f func([]int)) {
		w := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(append([]int(nil), w...))
				return
			}
			for _, l := range letters {
				w[i] = l
				rec(i + 1)
			}
		}
		rec(0)
	}
	var all []int
	for i := range toyOps {
		all = append(all, i)
	}
	unit := func(name string, f func(u *Unit)) {
		c.Unit("C14/explorer/"+name, func(u *Unit) {
			zzvsched.Reap = true
			defer func() { zzvsched.Reap = false }()
			f(u)
			u.Sample("%d programs, %d schedules", u.States, u.Traces)
		})
	}
	for _, first := range all {
		// one thread starts with this letter
		unit("2 threads of 1 and 2/"+toyOps[first].name, func(u *Unit) {
			words(2, all, func(w []int) { toyCheck(u, [][]int{{first}, w}) })
		})
		unit("3 threads of 1/"+toyOps[first].name, func(u *Unit) {
			words(2, all, func(w []int) {
				if first <= w[0] && w[0] <= w[1] {
					toyCheck(u, [][]int{{first}, {w[0]}, {w[1]}})
				}
			})
		})
		if !c.Thorough() {
			continue
		}
		unit("2 threads of 2/"+toyOps[first].name, func(u *Unit) {
			words(3, all, func(w []int) {
				if first <= w[1] {
					toyCheck(u, [][]int{{first, w[0]}, {w[1], w[2]}})
				}
			})
		})
	}
	// known numbers of classes
	for k := 1; k <= 4; k++ {
		unit(fmt.Sprintf("counting/%d", k), func(u *Unit) {
			rep := func(o int) (w []int) {
				for i := 0; i < k; i++ {
					w = append(w, o)
				}
				return w
			}
			want := func(n int64, prog [][]int) {
				toyCheck(u, prog)
				_, st := toyRun(u, full, prog)
				if got := st.Schedules - st.Redundant; got != n {
					u.Failf("%d classes, want %d", got, n)
				}
			}
			binom := int64(1) // C(2k, k)
			for i := 1; i <= k; i++ {
				binom = binom * int64(k+i) / int64(i)
			}
			want(binom, [][]int{rep(2), rep(2)})
			want(1, [][]int{rep(0), rep(0)})
			want(1, [][]int{rep(1), rep(5)})
			if k <= 2 {
				want([]int64{0, 6, 90}[k], [][]int{rep(2), rep(2), rep(2)})
			}
			want(1, [][]int{append(rep(0), rep(4)...), rep(5)}[:1])
		})
	}
}
