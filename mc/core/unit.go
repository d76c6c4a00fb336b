package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Unit is one self-contained, deterministic exploration. Units run in
// parallel; a violation names its unit and is replayed by running it alone.
type Unit struct {
	Name string

	States int64 // distinct implementation states stored
	Trans  int64 // operations executed on the implementation and compared with the model
	Traces int64 // complete histories replayed from scratch and compared
	Evals  int64 // individual comparisons with the oracle
	Cov    map[string]int64

	Samples []string

	cur    atomic.Pointer[func() string]
	tick   atomic.Int64
	done   atomic.Bool
	capped string
	fail   *Violation
	ctx    *Ctx
	known  []*Violation
}

// Violation describes one violated expectation.
type Violation struct {
	Unit string `json:"unit"`
	Case string `json:"case"`
	Desc string `json:"desc"`
	Kind string `json:"kind"`
	// Key identifies the failing input for the known-findings file.
	Key string `json:"key,omitempty"`
}

type unitFail struct{ v *Violation }

// Case announces what is about to be executed (for panics and hangs).
func (u *Unit) Case(f func() string) {
	u.cur.Store(&f)
	u.tick.Add(1)
}

// Tick reports progress without changing the current case.
func (u *Unit) Tick() { u.tick.Add(1) }

func (u *Unit) curCase() string {
	if f := u.cur.Load(); f != nil {
		return (*f)()
	}
	return ""
}

// Failf reports a violation and ends the unit.
func (u *Unit) Failf(format string, args ...any) {
	panic(unitFail{&Violation{Unit: u.Name, Case: u.curCase(), Desc: fmt.Sprintf(format, args...), Kind: "mismatch"}})
}

// Failure tells whether a recovered value is that of a failed check, and which.
func Failure(r any) (string, bool) {
	if f, is := r.(unitFail); is {
		return f.v.Desc, true
	}
	return "", false
}

// Finding is Failf for a failing input identified by key: if the committed
// known-findings file lists it, it is noted and the exploration goes on.
func (u *Unit) Finding(key, format string, args ...any) {
	v := &Violation{Unit: u.Name, Case: u.curCase(), Desc: fmt.Sprintf(format, args...), Kind: "mismatch", Key: key}
	if u.ctx == nil || !u.ctx.Known[key] {
		panic(unitFail{v})
	}
	for _, k := range u.known {
		if k.Key == key {
			return
		}
	}
	u.known = append(u.known, v)
}

// NoPanic runs f and reports a panic as a violation of the current case.
func (u *Unit) Panics(f func()) (r any) {
	defer func() {
		r = recover()
		if uf, is := r.(unitFail); is {
			panic(uf)
		}
	}()
	f()
	return nil
}

// Check is Failf if !ok.
func (u *Unit) Check(ok bool, format string, args ...any) {
	u.Evals++
	if !ok {
		u.Failf(format, args...)
	}
}

// Cover counts a named coverage item.
func (u *Unit) Cover(name string, n int64) {
	if u.Cov == nil {
		u.Cov = map[string]int64{}
	}
	u.Cov[name] += n
}

// Sample records an executed case for the evidence file.
func (u *Unit) Sample(format string, args ...any) {
	if len(u.Samples) < 2 {
		u.Samples = append(u.Samples, u.Name+": "+fmt.Sprintf(format, args...))
	}
}

// Capped says that the unit stopped before exhausting its space.
func (u *Unit) Capped(why string) { u.capped = why }

// Ctx is a run of one check in one configuration.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Config   string
	Only     string          // run only units whose name equals this
	Known    map[string]bool // keys of known findings
	Trace    bool            // announce units on stderr
	Deadline time.Time
	// units whose number is Shard modulo Shards are run
	Shard, Shards int
	nUnits        int

	units []func(*Unit)
	names []string
}

// Thorough says whether the thorough tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Unit registers a unit.
func (c *Ctx) Unit(name string, f func(u *Unit)) {
	if c.Only != "" && c.Only != name {
		return
	}
	c.nUnits++
	if c.Shards > 1 && (c.nUnits-1)%c.Shards != c.Shard {
		return
	}
	c.names = append(c.names, name)
	c.units = append(c.units, f)
}

// Fragment is the result of one child run.
type Fragment struct {
	Config     string           `json:"config"`
	Units      int              `json:"units"`
	UnitsDone  int              `json:"units_done"`
	States     int64            `json:"states"`
	Trans      int64            `json:"transitions"`
	Traces     int64            `json:"traces"`
	Evals      int64            `json:"evaluations"`
	Cov        map[string]int64 `json:"cov,omitempty"`
	Samples    []string         `json:"samples"`
	Capped     []string         `json:"capped,omitempty"`
	Violations []*Violation     `json:"violations"`
	Known      []*Violation     `json:"known,omitempty"`
	WallS      float64          `json:"wall_s"`
}

const stallLimit = 150 * time.Second

// Run executes the registered units on all processors and writes the fragment
// after every state change that matters, so that a crash leaves a trace.
func (c *Ctx) Run(outPath string, workers int) *Fragment {
	start := time.Now()
	fr := &Fragment{Config: c.Config, Units: len(c.units), Cov: map[string]int64{}}
	var mu sync.Mutex
	var next atomic.Int64
	active := make([]atomic.Pointer[Unit], workers)
	var stop atomic.Bool

	write := func() {
		fr.WallS = time.Since(start).Seconds()
		data, err := json.Marshal(fr)
		if err == nil {
			_ = os.WriteFile(outPath+".tmp", data, 0o644)
			_ = os.Rename(outPath+".tmp", outPath)
		}
	}

	// watchdog: a single case that makes no progress for minutes does not
	// terminate (cases normally take microseconds); runaway memory likewise
	go func() {
		last := make([]int64, workers)
		lastAt := make([]time.Time, workers)
		lastU := make([]*Unit, workers)
		for {
			time.Sleep(time.Second)
			if time.Since(c.Deadline) > 20*time.Second {
				mu.Lock()
				for i := range active {
					if u := active[i].Load(); u != nil {
						fr.Capped = append(fr.Capped, "stopped at the deadline: "+u.Name)
					}
				}
				write()
				if len(fr.Violations) > 0 {
					os.Exit(1)
				}
				os.Exit(0)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for i := range active {
				u := active[i].Load()
				if u == nil {
					continue
				}
				t := u.tick.Load()
				if u != lastU[i] || t != last[i] {
					lastU[i], last[i], lastAt[i] = u, t, time.Now()
					continue
				}
				stalled := time.Since(lastAt[i]) > stallLimit
				runaway := ms.HeapAlloc > 8<<30 && time.Since(lastAt[i]) > 4*time.Second
				if stalled || runaway {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					mu.Lock()
					fr.Violations = append(fr.Violations, &Violation{
						Unit: u.Name, Case: u.curCase(), Kind: "hang",
						Desc: fmt.Sprintf("the call did not return (no progress for %v, heap %d MB)\n%s",
							time.Since(lastAt[i]).Round(time.Second), ms.HeapAlloc>>20, buf),
					})
					write()
					os.Exit(1)
				}
			}
		}
	}()

	runOne := func(w, i int) {
		u := &Unit{Name: c.names[i], ctx: c}
		if c.Trace {
			fmt.Fprintf(os.Stderr, "UNIT %s\n", u.Name)
		}
		active[w].Store(u)
		t0 := time.Now()
		defer active[w].Store(nil)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, is := r.(unitFail); is {
						u.fail = f.v
						return
					}
					u.fail = &Violation{
						Unit: u.Name, Case: u.curCase(), Kind: "panic",
						Desc: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())),
					}
				}
			}()
			c.units[i](u)
		}()
		mu.Lock()
		defer mu.Unlock()
		if os.Getenv("MC_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "TIME %8.3f %s states=%d trans=%d\n", time.Since(t0).Seconds(), u.Name, u.States, u.Trans)
		}
		fr.UnitsDone++
		fr.States += u.States
		fr.Trans += u.Trans
		fr.Traces += u.Traces
		fr.Evals += u.Evals
		for k, v := range u.Cov {
			if strings.HasPrefix(k, "max ") {
				fr.Cov[k] = max(fr.Cov[k], v)
			} else {
				fr.Cov[k] += v
			}
		}
		if u.capped != "" {
			fr.Capped = append(fr.Capped, u.Name+": "+u.capped)
		}
		fr.Samples = append(fr.Samples, u.Samples...)
		fr.Known = append(fr.Known, u.known...)
		if u.fail != nil {
			fr.Violations = append(fr.Violations, u.fail)
			if len(fr.Violations) >= 5 {
				stop.Store(true)
			}
			write()
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= len(c.units) {
					return
				}
				if time.Now().After(c.Deadline) {
					mu.Lock()
					fr.Capped = append(fr.Capped, "not run before the deadline: "+c.names[i])
					mu.Unlock()
					continue
				}
				runOne(w, i)
			}
		}()
	}
	wg.Wait()
	sort.Strings(fr.Samples)
	if len(fr.Samples) > 12 {
		step := len(fr.Samples) / 12
		var s []string
		for i := 0; i < len(fr.Samples) && len(s) < 12; i += step {
			s = append(s, fr.Samples[i])
		}
		fr.Samples = s
	}
	write()
	return fr
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Names lists the registered units.
func (c *Ctx) Names() []string { return c.names }
