package main

import (
	"fmt"
	"go/types"
)

// Sched runs interpreted goroutines as coroutines; at every blocking point the
// next runnable goroutine is chosen (optionally a symbolic choice).
type Sched struct {
	gs       []*gor
	cur      *gor
	races    bool
	acc      map[cellKey]*cellAcc
	raceMsg  string
	fork     bool
	switches int
}

type gor struct {
	id     int
	resume chan struct{}
	yield  chan interface{} // nil = yielded, else panic value
	done   bool
	vc     []int
}

type cellKey struct {
	o   *Object
	off int
}
type cellAcc struct {
	wg  int // writer goroutine, epoch
	wt  int
	rds map[int]int
}

func (s *Sched) access(o *Object, off int, write bool) {
	if !s.races || len(s.gs) < 2 {
		return
	}
	k := cellKey{o, off}
	a := s.acc[k]
	if a == nil {
		a = &cellAcc{wg: -1, rds: map[int]int{}}
		s.acc[k] = a
	}
	g := s.cur
	if a.wg >= 0 && a.wg != g.id && a.wt > g.clk(a.wg) {
		s.report(o, off)
	}
	if write {
		for r, t := range a.rds {
			if r != g.id && t > g.clk(r) {
				s.report(o, off)
			}
		}
		a.wg, a.wt = g.id, g.clk(g.id)
		a.rds = map[int]int{}
	} else {
		a.rds[g.id] = g.clk(g.id)
	}
}

func (s *Sched) report(o *Object, off int) {
	if s.raceMsg == "" {
		s.raceMsg = fmt.Sprintf("data race on %s[%d]", o.name, off)
	}
}

func (g *gor) clk(i int) int {
	for len(g.vc) <= i {
		g.vc = append(g.vc, 0)
	}
	return g.vc[i]
}

func (g *gor) tick() { g.clk(g.id); g.vc[g.id]++ }
func (g *gor) join(vc []int) {
	for i, v := range vc {
		if g.clk(i) < v {
			g.vc[i] = v
		}
	}
}
func (g *gor) snap() []int { return append([]int(nil), g.vc...) }

func (in *Interp) ensureSched() {
	if in.sched == nil {
		main := &gor{id: 0}
		main.tick()
		in.sched = &Sched{gs: []*gor{main}, cur: main, races: in.cfg.Races, acc: map[cellKey]*cellAcc{}}
	}
}

func (in *Interp) goStart(f func() Value) {
	in.ensureSched()
	s := in.sched
	g := &gor{id: len(s.gs), resume: make(chan struct{}), yield: make(chan interface{})}
	g.join(s.cur.vc)
	g.tick()
	s.cur.tick()
	s.gs = append(s.gs, g)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if r == nil {
				g.yield <- nil
			} else {
				g.yield <- r
			}
		}()
		f()
	}()
}

// step runs goroutine g until it yields.
func (in *Interp) stepG(g *gor) {
	s := in.sched
	prev, d := s.cur, in.depth
	s.cur = g
	s.switches++
	g.resume <- struct{}{}
	r := <-g.yield
	s.cur, in.depth = prev, d
	if r != nil {
		panic(r)
	}
}

// block is called when the current goroutine cannot proceed until cond holds.
func (in *Interp) block(cond func() bool) {
	in.ensureSched()
	s := in.sched
	if s.cur.id != 0 {
		g := s.cur
		for !cond() {
			d := in.depth
			g.yield <- nil
			<-g.resume
			in.depth = d
		}
		return
	}
	idle := 0
	for !cond() {
		progress := false
		var run []*gor
		for _, g := range s.gs[1:] {
			if !g.done {
				run = append(run, g)
			}
		}
		if len(run) == 0 {
			rtPanic("all goroutines are asleep - deadlock!")
		}
		order := run
		if s.fork && len(run) > 1 {
			k := in.choose(len(run))
			order = append(append([]*gor(nil), run[k:]...), run[:k]...)
		}
		for _, g := range order {
			if g.done {
				continue
			}
			before := in.steps
			in.stepG(g)
			if g.done || in.steps != before {
				progress = true
			}
			if cond() {
				break
			}
		}
		if !progress {
			idle++
			if idle > 1000 {
				rtPanic("all goroutines are asleep - deadlock!")
			}
		} else {
			idle = 0
		}
	}
}

type chMsg struct {
	v  Value
	vc []int
}

func (in *Interp) chanSend(c *ChanVal, v Value) {
	in.ensureSched()
	if c == nil {
		panic(unsupported("send on nil channel"))
	}
	if c.closed {
		rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		in.block(func() bool { return len(c.q) < c.cap })
	}
	c.q = append(c.q, chMsg{v, in.sched.cur.snap()})
	in.sched.cur.tick()
	c.nsend++
	id := c.nsend
	if c.cap == 0 {
		in.block(func() bool { return c.nrecv >= id })
	}
}

func (in *Interp) chanRecv(c *ChanVal, t types.Type) (Value, bool) {
	in.ensureSched()
	if c == nil {
		panic(unsupported("receive on nil channel"))
	}
	in.block(func() bool { return len(c.q) > 0 || c.closed })
	if len(c.q) > 0 {
		m := c.q[0].(chMsg)
		c.q = c.q[1:]
		c.nrecv++
		in.sched.cur.join(m.vc)
		return m.v, true
	}
	return zeroValue(t), false
}

type wgState struct {
	n  int
	vc []int
}
