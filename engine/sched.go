package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduling: exactly one interpreted goroutine runs at a time; at a blocking
// point the next one is a symbolic choice (all completion orders are explored).

func (it *Interp) spawn(parent *G, body func(g *G)) {
	ng := &G{id: len(it.gs), ch: make(chan struct{})}
	ng.vc = append([]int(nil), parent.vc...)
	ng.tick()
	parent.tick()
	it.gs = append(it.gs, ng)
	it.raceOn = it.w.cfg.Race
	it.wg.Add(1)
	go func() {
		defer it.wg.Done()
		<-ng.ch
		if it.killing {
			return
		}
		defer func() {
			r := recover()
			if it.killing {
				return
			}
			ng.done = true
			if r != nil {
				if tp, ok := r.(targetPanic); ok {
					it.abort = tp
				} else {
					it.abort = r
				}
				it.cur = it.gs[0]
				it.gs[0].ch <- struct{}{}
				return
			}
			it.switchFrom(ng)
		}()
		body(ng)
	}()
}

// runnable lists goroutines that can continue, other than ones blocked.
func (it *Interp) runnable() []*G {
	var out []*G
	for _, g := range it.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the goroutine to run next: the main goroutine whenever it can run,
// otherwise any runnable one (a choice).
func (it *Interp) pick() *G {
	r := it.runnable()
	if len(r) == 0 {
		return nil
	}
	if r[0].id == 0 {
		return r[0]
	}
	if it.fifo {
		return r[0]
	}
	return r[it.p.choose(len(r))]
}

func (it *Interp) switchFrom(g *G) {
	// g has finished
	var n *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				it.abort = r
				n = it.gs[0]
			}
		}()
		n = it.pick()
		if n == nil {
			it.abort = targetPanic{msg: "all goroutines are asleep - deadlock!"}
			n = it.gs[0]
		}
	}()
	it.cur = n
	n.ch <- struct{}{}
}

func (it *Interp) block(g *G, ready func() bool) {
	for !ready() {
		g.ready = ready
		n := it.pick()
		if n == nil {
			g.ready = nil
			it.goPanic("all goroutines are asleep - deadlock!")
		}
		if n != g {
			it.cur = n
			n.ch <- struct{}{}
			<-g.ch
			if it.killing {
				panic(pathEnd{"killed"})
			}
			if it.abort != nil && g.id == 0 {
				a := it.abort
				it.abort = nil
				panic(a)
			}
		}
		g.ready = nil
	}
}

func (it *Interp) killAll() {
	it.killing = true
	for _, g := range it.gs[1:] {
		if !g.done {
			g.done = true
			select {
			case g.ch <- struct{}{}:
			}
		}
	}
	it.wg.Wait()
}

func (it *Interp) send(g *G, cv, v V) {
	ch := cv.P.(*ChanV)
	if ch == nil {
		it.block(g, func() bool { return false })
	}
	if ch.closed {
		it.goPanic("send on closed channel")
	}
	if ch.cap == 0 {
		it.block(g, func() bool { return ch.closed || ch.recvq > len(ch.buf) })
	} else {
		it.block(g, func() bool { return ch.closed || len(ch.buf) < ch.cap })
	}
	if ch.closed {
		it.goPanic("send on closed channel")
	}
	ch.buf = append(ch.buf, copyV(v))
	ch.vcs = append(ch.vcs, append([]int(nil), g.vc...))
	g.tick()
}

func (it *Interp) recv(g *G, cv V, in *ssa.UnOp) (V, bool) {
	ch := cv.P.(*ChanV)
	if ch == nil {
		it.block(g, func() bool { return false })
	}
	ch.recvq++
	it.block(g, func() bool { return len(ch.buf) > 0 || ch.closed })
	ch.recvq--
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		g.vc = vcJoin(g.vc, ch.vcs[0])
		ch.buf = ch.buf[1:]
		ch.vcs = ch.vcs[1:]
		return v, true
	}
	g.vc = vcJoin(g.vc, ch.cvc)
	return zero(in.X.Type().Underlying().(*types.Chan).Elem()), false
}

func (it *Interp) selectStmt(g *G, f *frame, c *cinstr, in *ssa.Select) V {
	ready := func() []int {
		var out []int
		for i, st := range in.States {
			ch, _ := it.get(f, &c.ops[2*i]).P.(*ChanV)
			if ch == nil {
				continue
			}
			if st.Dir == types.RecvOnly {
				if len(ch.buf) > 0 || ch.closed {
					out = append(out, i)
				}
			} else if ch.closed || len(ch.buf) < ch.cap || ch.recvq > len(ch.buf) {
				out = append(out, i)
			}
		}
		return out
	}
	r := ready()
	if len(r) == 0 && in.Blocking {
		it.block(g, func() bool { return len(ready()) > 0 })
		r = ready()
	}
	tup := in.Type().(*types.Tuple)
	out := make(Tup, tup.Len())
	for i := range out {
		out[i] = zero(tup.At(i).Type())
	}
	if len(r) == 0 {
		out[0] = V{N: ^uint64(0)}
		return V{P: out}
	}
	k := r[it.p.choose(len(r))]
	out[0] = V{N: uint64(k)}
	ch := it.get(f, &c.ops[2*k]).P.(*ChanV)
	if in.States[k].Dir == types.RecvOnly {
		ri := 2
		for i := 0; i < k; i++ {
			if in.States[i].Dir == types.RecvOnly {
				ri++
			}
		}
		if len(ch.buf) > 0 {
			out[1] = V{N: 1}
			out[ri] = ch.buf[0]
			g.vc = vcJoin(g.vc, ch.vcs[0])
			ch.buf, ch.vcs = ch.buf[1:], ch.vcs[1:]
		} else {
			g.vc = vcJoin(g.vc, ch.cvc)
		}
	} else {
		it.send(g, it.get(f, &c.ops[2*k]), it.get(f, &c.ops[2*k+1]))
	}
	return V{P: out}
}
