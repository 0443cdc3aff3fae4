// Package hfut holds the harness for futures.
package hfut

import (
	"errors"

	"github.com/browles/drip/future"
	"verifharness/sym"
)

// F02: one delivery, k waiters, every interleaving.
func F02() {
	sym.Races(true)
	k := sym.Param("waiters", 2)
	v := sym.Int("v")
	f := future.New[int]()
	started := 0 // only ever touched before a delivery or after a wait
	done := make(chan int, k+1)
	for i := 0; i < k; i++ {
		go func() {
			got := f.Wait()
			sym.Assert(started == 1, "a wait returned before the delivery")
			sym.Assert(got == v, "a wait returned another value")
			// again, and by channel
			<-f.Done
			sym.Assert(f.Wait() == v, "a second wait returned another value")
			done <- got
		}()
	}
	go func() {
		started = 1
		f.Deliver(v)
	}()
	for i := 0; i < k; i++ {
		<-done
	}
	sym.Assert(f.Wait() == v, "a late wait returned another value")
	sym.Reach("delivered")
}

type rec struct {
	a string
	b []int
	c error
}

// F02Types: values of other types, delivered before, between and after waits.
func F02Types() {
	sym.Races(true)
	err := errors.New("x")
	s := sym.String("s", 2)
	f := future.New[error]()
	g := future.New[rec]()
	h := future.New[*rec]()
	var nilerr error
	d := err
	if sym.Choose("nil", 2) == 1 {
		d = nilerr
	}
	r := &rec{s, []int{1}, d}
	done := make(chan bool)
	go func() {
		sym.Assert(f.Wait() == d, "wait returned another error")
		x := g.Wait()
		sym.Assert(x.a == s && len(x.b) == 1 && x.c == d, "wait returned another struct")
		sym.Assert(h.Wait() == r, "wait returned another pointer")
		done <- true
	}()
	go func() { h.Deliver(r); f.Deliver(d) }()
	g.Deliver(*r)
	<-done
	sym.Reach("types")
}

// F02None: without a delivery nobody returns.
func F02None() {
	f := future.New[bool]()
	sym.Assert(sym.Blocks(func() { f.Wait() }), "a wait returned without a delivery")
	sym.Assert(sym.Blocks(func() { <-f.Done }), "the channel closed without a delivery")
	sym.Reach("blocked")
}
