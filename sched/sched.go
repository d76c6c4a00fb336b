// Package zzvsched is a controlled scheduler. It is compiled into the build of
// arr-ai/frozen by an overlay only; go statements, channel operations and uses
// of sync and sync/atomic in the working tree are rewritten to call it.
//
// During a session exactly one thread runs at a time. Before every operation on
// a synchronisation object a thread offers the scheduler the choice of who goes
// on. The hand-over between threads is hidden from the race detector, so that
// only the program's own synchronisation orders accesses.
package zzvsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	maxThreads = 128
	maxSteps   = 1 << 13
	maxClosed  = 256
	maxOffers  = 64
)

type mask [maxThreads / 64]uint64

//go:norace
func (m *mask) has(i int) bool { return m[i>>6]>>(uint(i)&63)&1 != 0 }

//go:norace
func (m *mask) set(i int) { m[i>>6] |= 1 << (uint(i) & 63) }

const (
	opStep  = iota // always enabled
	opSend         // buffered channel: room or closed
	opRecv         // buffered channel: element or closed
	opRecvU        // unbuffered channel: offer or closed
	opZero         // *int32 is zero
	opAny          // one of several
)

type op struct {
	kind uint8
	ro   bool
	obj  uintptr
	ptr  unsafe.Pointer
	alts *[maxAlts]op
	n    int
	def  bool
}

const maxAlts = 16

type thread struct {
	id     int
	wake   chan struct{}
	op     op
	done   bool
	client bool
	killed bool
	panic_ any
	stack  string
}

type offer struct {
	ch      uintptr
	payload any
	pending int32
	live    bool
}

// node is one step of an execution.
type node struct {
	enabled mask
	sleep   mask
	tried   mask
	back    mask // Full: threads to choose here
	chosen  int16
	cur     int16 // thread that was running, -1 if it ended
	curOn   bool  // it could have gone on
	pre     int16 // cost so far
	data    bool  // not a thread is chosen but the outcome of a select statement
	who     int16 // the thread that takes the step
	op      op
}

var (
	active   bool
	cur      *thread
	threads  [maxThreads]*thread
	nThreads int
	hwake    chan struct{}
	closed   [maxClosed]uintptr
	nClosed  int
	offers   [maxOffers]*offer
	nOffers  int

	nodes     [maxSteps]node
	nNodes    int
	prefix    int // nodes[:prefix] are replayed
	redundant bool
	redunAt   int // the first step of a redundant execution
	mode      Mode
	bound     int
	deadlock  bool
	problem   string // the session cannot go on faithfully
	fromSleep mask
)

// Mode selects the space of schedules.
type Mode int

const (
	// Full explores one execution of every equivalence class of schedules
	// (dynamic partial-order reduction with sleep sets).
	Full Mode = iota
	// Preempt explores every schedule with at most Bound preemptions.
	Preempt
	// Delay explores every schedule with at most Bound deviations from the
	// default one (go on with the current thread, else the eldest).
	Delay
)

// Active says whether the caller is a controlled thread.
//
//go:norace
func Active() bool { return active }

//go:norace
func park(w chan struct{}) {
	raceDisable()
	<-w
	raceEnable()
}

//go:norace
func wake(w chan struct{}) {
	raceDisable()
	w <- struct{}{}
	raceEnable()
}

//go:norace
func isClosed(p uintptr) bool {
	for i := 0; i < nClosed; i++ {
		if closed[i] == p {
			return true
		}
	}
	return false
}

//go:norace
func (o *op) enabled() bool {
	switch o.kind {
	case opStep:
		return true
	case opSend:
		if o.ptr == nil {
			return false
		}
		h := (*[2]uint)(o.ptr)
		return h[0] < h[1] || isClosed(uintptr(o.ptr))
	case opRecv:
		if o.ptr == nil {
			return false
		}
		h := (*[2]uint)(o.ptr)
		return h[0] > 0 || isClosed(uintptr(o.ptr))
	case opRecvU:
		return findOffer(o.obj) != nil || isClosed(o.obj)
	case opZero:
		return *(*int32)(o.ptr) == 0
	case opAny:
		if o.def {
			return true
		}
		for i := 0; i < o.n; i++ {
			if o.alts[i].enabled() {
				return true
			}
		}
	}
	return false
}

//go:norace
func dependent(a, b *op) bool {
	if a.kind == opAny || b.kind == opAny {
		return true
	}
	if a.kind == opSend && b.kind == opRecv || a.kind == opRecv && b.kind == opSend {
		// both possible: the channel is neither empty nor full
		return false
	}
	return a.obj != 0 && a.obj == b.obj && !(a.ro && b.ro)
}

//go:norace
func findOffer(ch uintptr) *offer {
	for i := 0; i < nOffers; i++ {
		if o := offers[i]; o.live && o.ch == ch {
			return o
		}
	}
	return nil
}

// pick decides which thread takes the next step. self is the thread that just
// ran (nil at the start); it may have ended.
//
//go:norace
func pick(self *thread) *thread {
	var en mask
	n := 0
	first := -1
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if !t.done && t.op.enabled() {
			en.set(i)
			if n == 0 {
				first = i
			}
			n++
		}
	}
	if n == 0 {
		for i := 0; i < nThreads; i++ {
			if !threads[i].done {
				deadlock = true
			}
		}
		return nil
	}
	if nNodes >= maxSteps {
		problem = "too many steps"
		return nil
	}
	nd := &nodes[nNodes]
	curID, curOn := -1, false
	if self != nil {
		curID = self.id
		curOn = !self.done && en.has(curID)
	}
	if nNodes < prefix {
		c := int(nd.chosen)
		if nd.data || !en.has(c) || nd.enabled != en {
			problem = "an execution could not be repeated"
			return nil
		}
	} else {
		nd.data = false
		nd.enabled = en
		nd.tried = mask{}
		nd.cur, nd.curOn = int16(curID), curOn
		inherit(nd)
		c := -1
		if curOn && !nd.sleep.has(curID) {
			c = curID
		} else {
			for i := first; i < nThreads; i++ {
				if en.has(i) && !nd.sleep.has(i) {
					c = i
					break
				}
			}
		}
		if c < 0 { // every continuation is equivalent to one already explored
			if !redundant {
				redundant, redunAt = true, nNodes
			}
			c = first
		}
		if redundant {
			nd.tried = en // no backtracking here
		}
		nd.chosen = int16(c)
		nd.back = mask{}
		nd.back.set(c)
	}
	t := threads[nd.chosen]
	nd.op = t.op
	nd.who = nd.chosen
	nNodes++
	return t
}

// inherit derives what a new node keeps of the one before it.
//
//go:norace
func inherit(nd *node) {
	nd.sleep = mask{}
	nd.pre = 0
	if nNodes == 0 {
		return
	}
	p := &nodes[nNodes-1]
	nd.pre = p.pre + cost(p, int(p.chosen))
	if mode != Full {
		return
	}
	for i := 0; i < nThreads; i++ {
		if i != int(p.who) && (p.sleep.has(i) || !p.data && p.tried.has(i)) && !dependent(&threads[i].op, &p.op) {
			nd.sleep.set(i)
		}
	}
}

// choose explores the n outcomes of a step of the running thread.
//
//go:norace
func choose(n int) int {
	if n < 2 {
		return 0
	}
	if nNodes >= maxSteps {
		giveUp("too many steps")
	}
	nd := &nodes[nNodes]
	var en mask
	for i := 0; i < n; i++ {
		en.set(i)
	}
	if nNodes < prefix {
		if !nd.data || nd.enabled != en {
			giveUp("an execution could not be repeated")
		}
	} else {
		nd.data = true
		nd.enabled, nd.back, nd.tried = en, en, mask{}
		nd.cur, nd.curOn = -1, false
		nd.chosen, nd.who = 0, int16(cur.id)
		nd.op = op{kind: opStep}
		inherit(nd)
		if redundant {
			nd.tried = en
		}
	}
	nNodes++
	return int(nd.chosen)
}

//go:norace
func cost(nd *node, c int) int16 {
	if nd.data {
		if mode == Delay && c > 0 {
			return 1
		}
		return 0
	}
	switch mode {
	case Preempt:
		if nd.curOn && c != int(nd.cur) {
			return 1
		}
	case Delay:
		if nd.curOn {
			if c != int(nd.cur) {
				return 1
			}
			return 0
		}
		for i := 0; i < c; i++ {
			if nd.enabled.has(i) {
				return 1
			}
		}
	}
	return 0
}

// advance moves to the next schedule; it reports false at the end.
//
//go:norace
func advance() bool {
	for d := nNodes - 1; d >= 0; d-- {
		nd := &nodes[d]
		nd.tried.set(int(nd.chosen))
		order := int(nd.cur)
		for k := -1; k < maxThreads; k++ {
			c := k
			if k < 0 {
				if !nd.curOn {
					continue
				}
				c = order
			}
			if !nd.enabled.has(c) || nd.tried.has(c) || !nd.data && nd.sleep.has(c) {
				continue
			}
			if mode == Full && !Plain && !nd.back.has(c) {
				continue
			}
			if mode != Full && int(nd.pre+cost(nd, c)) > bound {
				continue
			}
			nd.chosen = int16(c)
			prefix = d + 1
			return true
		}
	}
	return false
}

// point offers a scheduling decision; o is what the thread is about to do.
//
//go:norace
func point(o op) {
	self := cur
	self.op = o
	next := pick(self)
	if next == self {
		return
	}
	if next == nil {
		wake(hwake)
		park(self.wake) // for ever, unless reaped
		runtime.Goexit()
	}
	cur = next
	wake(next.wake)
	park(self.wake)
	if self.killed {
		runtime.Goexit()
	}
}

// Reap ends the goroutines that an execution leaves blocked for ever. Their
// deferred functions must not block.
var Reap bool

//go:norace
func reap() {
	for i := 0; i < nThreads; i++ {
		if t := threads[i]; !t.done {
			t.killed = true
			wake(t.wake)
			park(hwake)
		}
	}
}

//go:norace
func (t *thread) reaped() bool {
	if t.killed {
		wake(hwake)
	}
	return t.killed
}

//go:norace
func finish(t *thread) {
	t.done = true
	next := pick(t)
	if next == nil {
		wake(hwake)
		return
	}
	cur = next
	wake(next.wake)
}

//go:norace
func newThread(client bool) *thread {
	if nThreads == maxThreads {
		problem = "too many goroutines"
		wake(hwake)
		park(cur.wake)
	}
	t := &thread{id: nThreads, wake: make(chan struct{}, 1), client: client}
	threads[nThreads] = t
	spawned[nThreads] = -1
	if !client {
		spawned[nThreads] = int16(nNodes - 1)
	}
	nThreads++
	return t
}

//go:norace
func setPanic(t *thread, v any, stack string) { t.panic_, t.stack = v, stack }

func start(t *thread, f func()) {
	go func() {
		park(t.wake)
		normal := false
		defer func() {
			if t.reaped() {
				return
			}
			if !normal {
				v := recover()
				if v == nil {
					v = "runtime.Goexit or panic(nil)"
				}
				setPanic(t, v, string(debug.Stack()))
			}
			raceReleaseEnd()
			finish(t)
		}()
		f()
		normal = true
	}()
}

// natives counts the goroutines started outside sessions: operations may leave
// some running behind them, and these must be gone before a session starts.
var (
	natives atomic.Int64
	stuck   int64
)

func settle() {
	for i := 0; natives.Load() > stuck; i++ {
		if i < 10000 {
			runtime.Gosched()
		} else if time.Sleep(time.Millisecond); i > 13000 {
			stuck = natives.Load() // blocked for ever
		}
	}
}

// Go replaces a go statement.
func Go(f func()) {
	if !Active() {
		natives.Add(1)
		go func() {
			defer natives.Add(-1)
			f()
		}()
		return
	}
	start(newThread(false), f)
	point(op{kind: opStep})
}

// Yield is a scheduling point that commutes with everything, and so makes no
// difference to the classes of schedules that Full explores.
func Yield() {
	if Active() && !isFull() {
		point(op{kind: opStep})
	}
}

//go:norace
func isFull() bool { return mode == Full }

// Access is a scheduling point before an operation on obj.
func Access(obj unsafe.Pointer, readOnly bool) {
	if Active() {
		point(op{kind: opStep, obj: uintptr(obj), ro: readOnly})
	}
}

// AccessAny is a scheduling point before an operation that commutes with none.
// (Releasing a lock is part of the step before it, and so does not appear in
// what that step is taken to depend on.)
func AccessAny() {
	if Active() {
		point(op{kind: opAny, def: true})
	}
}

// Await is a scheduling point at which the thread waits until *flag is zero.
func Await(flag *int32, obj unsafe.Pointer) {
	point(op{kind: opZero, obj: uintptr(obj), ptr: unsafe.Pointer(flag)})
}

// AddFlag changes a flag that Await waits for.
//
//go:norace
func AddFlag(flag *int32, d int32) { *flag += d }

// Flag reads a flag.
//
//go:norace
func Flag(flag *int32) int32 { return *flag }

// Exec is one execution.
type Exec struct {
	// Panics holds what the bodies panicked with.
	Panics []any
	Stacks []string
	// Fail describes a deadlock, a goroutine that can never finish or a panic
	// that would have ended the process.
	Fail string
}

// Stats of an exploration.
type Stats struct {
	Schedules int64 // executions explored
	Redundant int64 // of these, equivalent to another one
	Steps     int64 // scheduling decisions
	MaxThread int
	Capped    string
}

// Space describes the schedules to explore.
type Space struct {
	Mode  Mode
	Bound int
	Max   int64
}

func (s Space) String() string {
	switch s.Mode {
	case Full:
		return "all schedules"
	case Preempt:
		return fmt.Sprintf("preemptions<=%d", s.Bound)
	default:
		return fmt.Sprintf("deviations<=%d", s.Bound)
	}
}

//go:norace
func reset(h chan struct{}) {
	for i := range threads {
		threads[i] = nil
	}
	nThreads, nClosed, nOffers, nNodes = 0, 0, 0, 0
	deadlock, problem, redundant, redunAt = false, "", false, maxSteps
	hwake = h
}

//go:norace
func launch() {
	active = true
	next := pick(nil)
	if next == nil {
		active = false
		return
	}
	cur = next
	wake(next.wake)
	park(hwake)
	active = false
}

//go:norace
func outcome(nBodies int, e *Exec) (threadsUsed, steps int, prob string, red bool) {
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.client {
			if i < nBodies {
				e.Panics[i], e.Stacks[i] = t.panic_, t.stack
			}
		} else if t.panic_ != nil && e.Fail == "" {
			e.Fail = fmt.Sprintf("a goroutine panics and ends the process: %v\n%s", t.panic_, t.stack)
		}
		if !t.done && problem == "" && e.Fail == "" {
			who := fmt.Sprintf("goroutine %d", i)
			if t.client {
				who = fmt.Sprintf("caller %d", i)
			}
			e.Fail = who + " is blocked for ever"
		}
	}
	return nThreads, nNodes, problem, redundant
}

// Trace shows the decisions of the current execution.
//
//go:norace
func Trace() string {
	s := ""
	for i := 0; i < nNodes; i++ {
		if nodes[i].data {
			s += fmt.Sprintf("(case %d) ", nodes[i].chosen)
		} else {
			s += fmt.Sprintf("%d ", nodes[i].chosen)
		}
		if len(s) > 2000 {
			return s + "..."
		}
	}
	return s
}

//go:norace
func configure(sp Space) { mode, bound, prefix = sp.Mode, sp.Bound, 0 }

// Explore runs every schedule of the space. setup makes the bodies of one
// execution; check judges it.
func Explore(sp Space, setup func() []func(), check func(*Exec)) (st Stats) {
	configure(sp)
	for {
		reset(make(chan struct{}, 1))
		bodies := setup()
		for _, b := range bodies {
			start(newThread(true), b)
		}
		settle()
		launch()
		raceAcquireEnd()
		e := &Exec{Panics: make([]any, len(bodies)), Stacks: make([]string, len(bodies))}
		n, steps, prob, red := outcome(len(bodies), e)
		st.Schedules++
		st.Steps += int64(steps)
		if red {
			st.Redundant++
		}
		if n > st.MaxThread {
			st.MaxThread = n
		}
		if prob != "" && e.Fail == "" {
			st.Capped = prob
			return st
		}
		check(e)
		if Reap {
			reap()
		}
		if sp.Mode == Full && !Plain {
			races()
		}
		if !advance() {
			return st
		}
		if st.Schedules >= sp.Max && sp.Max > 0 {
			st.Capped = fmt.Sprintf("stopped after %d schedules", st.Schedules)
			return st
		}
	}
}
