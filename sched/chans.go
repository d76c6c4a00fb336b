package zzvsched

import (
	"reflect"
	"unsafe"
)

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

//go:norace
func addOffer(ch uintptr, payload any) *offer {
	o := &offer{ch: ch, payload: payload, pending: 1, live: true}
	for i := 0; i < nOffers; i++ {
		if !offers[i].live { // keep the order: shift
			for j := i; j+1 < nOffers; j++ {
				offers[j] = offers[j+1]
			}
			nOffers--
			i--
		}
	}
	if nOffers == maxOffers {
		problem = "too many blocked senders"
		wake(hwake)
		park(cur.wake)
	}
	offers[nOffers] = o
	nOffers++
	return o
}

//go:norace
func takeOffer(ch uintptr) *offer {
	o := findOffer(ch)
	if o != nil {
		o.live = false
		o.pending = 0
	}
	return o
}

//go:norace
func noteClosed(p uintptr) {
	if nClosed == maxClosed {
		problem = "too many closed channels"
		wake(hwake)
		park(cur.wake)
	}
	closed[nClosed] = p
	nClosed++
}

type parcel[T any] struct {
	data chan T
	ack  chan struct{}
}

// Send replaces c <- v.
func Send[T any](c chan<- T, v T) {
	if !Active() {
		c <- v
		return
	}
	p := chanPtr(c)
	if p == nil || cap(c) > 0 {
		point(op{kind: opSend, obj: uintptr(p), ptr: p})
		c <- v
		return
	}
	point(op{kind: opStep, obj: uintptr(p)})
	if isClosed(uintptr(p)) {
		c <- v // panics
	}
	pl := &parcel[T]{make(chan T, 1), make(chan struct{}, 1)}
	pl.data <- v
	o := addOffer(uintptr(p), pl)
	point(op{kind: opZero, obj: uintptr(p), ptr: unsafe.Pointer(&o.pending)})
	<-pl.ack
}

// Recv replaces <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 replaces v, ok = <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-c
		return v, ok
	}
	p := chanPtr(c)
	if p == nil || cap(c) > 0 {
		point(op{kind: opRecv, obj: uintptr(p), ptr: p})
		v, ok := <-c
		return v, ok
	}
	point(op{kind: opRecvU, obj: uintptr(p), ptr: p})
	return takeU(c, p)
}

func takeU[T any](c <-chan T, p unsafe.Pointer) (T, bool) {
	if o := takeOffer(uintptr(p)); o != nil {
		pl := o.payload.(*parcel[T])
		v := <-pl.data
		pl.ack <- struct{}{}
		return v, true
	}
	v, ok := <-c // closed
	return v, ok
}

// Close replaces close(c).
func Close[T any](c chan<- T) {
	if Active() && c != nil {
		p := chanPtr(c)
		point(op{kind: opStep, obj: uintptr(p)})
		close(c)
		noteClosed(uintptr(p))
		return
	}
	close(c)
}

// Case is a case of a select statement.
type Case struct {
	c    reflect.Value
	p    unsafe.Pointer
	send bool
	v    reflect.Value
	unb  bool
	recv func() (any, bool)
}

// CaseRecv makes a receiving case.
func CaseRecv[T any](c <-chan T) Case {
	return Case{c: reflect.ValueOf(c), p: chanPtr(c), unb: c != nil && cap(c) == 0, recv: func() (any, bool) {
		if c != nil && cap(c) == 0 {
			return takeU(c, chanPtr(c))
		}
		v, ok := <-c
		return v, ok
	}}
}

// CaseSend makes a sending case.
func CaseSend[T any](c chan<- T, v T) Case {
	return Case{c: reflect.ValueOf(c), p: chanPtr(c), send: true, v: reflect.ValueOf(&v).Elem(), unb: c != nil && cap(c) == 0}
}

// Selected is the outcome of a select statement.
type Selected struct {
	I  int
	v  any
	ok bool
}

// Got is the received value.
func Got[T any](s Selected) T {
	v, _ := s.v.(T)
	return v
}

// Got2 is the received value and whether the channel was open.
func Got2[T any](s Selected) (T, bool) {
	v, _ := s.v.(T)
	return v, s.ok
}

//go:norace
func giveUp(why string) {
	problem = why
	wake(hwake)
	park(cur.wake)
}

// Select replaces a select statement. I is len(cases) for the default case.
func Select(def bool, cases ...Case) Selected {
	if !Active() {
		var rc []reflect.SelectCase
		for _, c := range cases {
			if c.send {
				rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.c, Send: c.v})
			} else {
				rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.c})
			}
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		s := Selected{I: i, ok: ok}
		if i < len(cases) && !cases[i].send {
			s.v = v.Interface()
		}
		return s
	}
	if len(cases) > maxAlts {
		giveUp("a select statement has too many cases")
	}
	o := op{kind: opAny, def: def, n: len(cases), alts: &[maxAlts]op{}}
	for i, c := range cases {
		switch {
		case c.unb && c.send:
			giveUp("a select statement sends on an unbuffered channel")
		case c.send:
			o.alts[i] = op{kind: opSend, obj: uintptr(c.p), ptr: c.p}
		case c.unb:
			o.alts[i] = op{kind: opRecvU, obj: uintptr(c.p), ptr: c.p}
		default:
			o.alts[i] = op{kind: opRecv, obj: uintptr(c.p), ptr: c.p}
		}
	}
	point(o)
	// Go chooses among the ready cases at random: explore each
	var ready [maxAlts]int
	n := 0
	for i := range cases {
		if o.alts[i].enabled() {
			ready[n] = i
			n++
		}
	}
	if n == 0 {
		return Selected{I: len(cases)}
	}
	i := ready[choose(n)]
	c := cases[i]
	if c.send {
		c.c.Send(c.v)
		return Selected{I: i}
	}
	v, ok := c.recv()
	return Selected{I: i, v: v, ok: ok}
}
