package zzvsched

// Plain turns dynamic partial-order reduction off: sleep sets alone also leave
// one execution of every class, but run into many more redundant ones. The two
// must find the same number of classes (see the self-test of the harness).
var Plain bool

var (
	clocks   [maxSteps][maxThreads]int16 // step -> thread -> its last step that happens before, plus 1
	spawned  [maxThreads]int16           // thread -> step that started it, -1 for a client
	prevStep [maxSteps]int16             // the thread's step before
	lastStep [maxThreads]int16
	chanIdx  [maxSteps]int16 // number of earlier operations of the kind on the channel
)

// ordered says whether the earlier step i happens before j by their objects.
//
//go:norace
func ordered(i, j int) bool {
	a, b := &nodes[i].op, &nodes[j].op
	if a.kind == opSend && b.kind == opRecv && a.obj == b.obj {
		return chanIdx[i] == chanIdx[j]
	}
	if a.kind == opRecv && b.kind == opSend && a.obj == b.obj {
		return int(chanIdx[i])+int((*[2]uint)(a.ptr)[1]) == int(chanIdx[j])
	}
	return dependent(a, b)
}

// races finds the pairs of steps of the execution that could occur in the other
// order, and marks the choices that lead to it.
//
//go:norace
func races() {
	for t := 0; t < nThreads; t++ {
		lastStep[t] = -1
	}
	anys := false
	for j := 0; j < nNodes; j++ {
		anys = anys || nodes[j].op.kind == opAny
	}
	for j := 0; j < nNodes; j++ {
		nd := &nodes[j]
		q := int(nd.who)
		o := &nd.op
		prev := int(lastStep[q])
		prevStep[j] = int16(prev)
		lastStep[q] = int16(j)
		c := &clocks[j]
		base := prev
		if base < 0 {
			base = int(spawned[q])
		}
		if base >= 0 {
			*c = clocks[base]
		} else {
			*c = [maxThreads]int16{}
		}
		chanIdx[j] = 0
		if o.kind == opSend || o.kind == opRecv {
			for i := j - 1; i >= 0; i-- {
				if nodes[i].op.kind == o.kind && nodes[i].op.obj == o.obj {
					chanIdx[j] = chanIdx[i] + 1
					break
				}
			}
		}
		if o.obj != 0 || anys {
			raced(j, base, q, o, c)
			for i := j - 1; i >= 0; i-- {
				if int(c[nodes[i].who]) <= i && ordered(i, j) {
					join(c, &clocks[i])
				}
			}
		}
		c[q] = int16(j + 1)
	}
	// what threads that are blocked at the end are waiting for
	for q := 0; q < nThreads; q++ {
		t := threads[q]
		if t.done || t.op.obj == 0 && !anys && t.op.kind != opAny {
			continue
		}
		base := int(lastStep[q])
		if base < 0 {
			base = int(spawned[q])
		}
		c := &noClock
		if base >= 0 {
			c = &clocks[base]
		}
		raced(nNodes, base, q, &t.op, c)
	}
}

var noClock [maxThreads]int16

// raced marks the steps that an operation of thread q at step j races with
// directly; for one that may have to wait, also with a step that comes before
// another such step, since it may not be possible between the two. base is the thread's step before, c its clock.
//
//go:norace
func raced(j, base, q int, o *op, c *[maxThreads]int16) {
	if base >= redunAt {
		return
	}
	end := j
	if end > redunAt {
		end = redunAt // the rest is equivalent to what was explored before
	}
	acc := *c
	for i := end - 1; i >= 0; i-- {
		nd := &nodes[i]
		if int(nd.who) == q || !mayRace(&nd.op, o) || int(acc[nd.who]) > i {
			continue
		}
		mark(i, end, q, o)
		if o.kind == opStep {
			join(&acc, &clocks[i])
		}
	}
	if o.kind == opStep {
		return
	}
	// an operation that may have to wait: it may have been possible and then
	// become impossible while it was pending
	for i := end - 1; i > base; i-- {
		nd := &nodes[i]
		if int(nd.who) == q || !mayRace(&nd.op, o) {
			continue
		}
		if nd.enabled.has(q) {
			nd.back.set(q)
			continue
		}
		for k := range nd.back {
			nd.back[k] |= nd.enabled[k]
		}
	}
}

//go:norace
func mayRace(a, b *op) bool {
	if a.obj == b.obj && (a.kind == opSend && b.kind == opRecv || a.kind == opRecv && b.kind == opSend) {
		return false
	}
	return dependent(a, b)
}

//go:norace
func join(c, d *[maxThreads]int16) {
	for t := 0; t < nThreads; t++ {
		if d[t] > c[t] {
			c[t] = d[t]
		}
	}
}

// mark makes sure that at step i a thread is chosen that begins (a reordering
// of) what came after it, up to step end, and did not depend on it, followed by
// the operation o of thread q: a source set.
//
//go:norace
func mark(i, end, q int, o *op) {
	nd := &nodes[i]
	for t := 0; t < nThreads; t++ {
		firstOf[t] = -1
	}
	free := true // o depends on none of these
	for k := i + 1; k < end; k++ {
		if int(clocks[k][nd.who]) > i {
			continue
		}
		if t := nodes[k].who; firstOf[t] < 0 {
			firstOf[t] = int16(k)
		}
		if dependent(&nodes[k].op, o) || o.obj != 0 && nodes[k].op.obj == o.obj {
			free = false
		}
	}
	choice := -1
	for t := 0; t < nThreads; t++ {
		if !nd.enabled.has(t) {
			continue
		}
		if k := firstOf[t]; k >= 0 {
			initial := true
			for u := 0; u < nThreads && initial; u++ {
				initial = u == t || firstOf[u] < 0 || clocks[k][u] <= firstOf[u]
			}
			if !initial {
				continue
			}
		} else if t != q || !free {
			continue
		}
		if nd.back.has(t) {
			return
		}
		if choice < 0 || t == q {
			choice = t
		}
	}
	if choice >= 0 {
		nd.back.set(choice)
		return
	}
	for k := range nd.back {
		nd.back[k] |= nd.enabled[k]
	}
}

var firstOf [maxThreads]int16
