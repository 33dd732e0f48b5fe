package verif

import (
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C13: references travel between the two sides of an address

type refVal struct{ id int }

func refAddr() string { return fmt.Sprintf("ref-%d", unique()) }

type RefOp struct {
	Op string `json:"op"`
	A  int    `json:"a"` // address
	S  int    `json:"s"` // side, 0 is the server
	N  int    `json:"n"`
}

type RefCase struct {
	Rep   int     `json:"rep,omitempty"` // the steps are done that many times
	Queue []int   `json:"queue"`         // MaxQueueSize per address, 0: default
	Same  bool    `json:"same"`          // values that are equal but not identical
	Ops   []RefOp `json:"ops"`
}

func genRefCase(t *rapid.T) RefCase {
	c := RefCase{Same: drawBool(t, "same")}
	addrs := drawUni(t, 1, 3, "addrs")
	if drawPct(t, 3, "many") {
		addrs = drawUni(t, 6, 40, "addrsmany")
	}
	for i := 0; i < addrs; i++ {
		c.Queue = append(c.Queue, drawOf(t, "queue", 0, 1, 2, 3, 7))
	}
	for a := 0; a < addrs; a++ {
		if drawPct(t, 75, "started") {
			s := drawUni(t, 0, 1, "first")
			c.Ops = append(c.Ops, RefOp{Op: "run", A: a, S: s}, RefOp{Op: "run", A: a, S: 1 - s})
		}
	}
	for i, n := 0, drawUni(t, 2, 40, "n"); i < n; i++ {
		op := drawOf(t, "op", "send", "send", "send", "send", "recv", "recv", "recv", "run", "stop", "wait-recv", "full", "recv-stop", "full-stop", "close", "both", "nil", "stop-moved", "both", "run-stop", "queue", "swap")
		c.Ops = append(c.Ops, RefOp{Op: op, A: drawUni(t, 0, addrs-1, "a"), S: drawUni(t, 0, 1, "s"), N: drawUni(t, 1, 6, "n")})
	}
	return c
}

func runRefCase(e *Env, c RefCase) {
	e.Bubble(func() {
		type side struct {
			tp   ustack.Transport
			conn ustack.TransportConnection
			on   bool
			old  []ustack.TransportConnection
		}
		type addr struct {
			size  int
			name  string
			sides [2]side
			queue [2][]interface{} // sent by the side
			lost  [2]bool          // what was on the way is not specified any more
		}
		addrs := make([]*addr, len(c.Queue))
		for i := range addrs {
			a := &addr{size: c.Queue[i]}
			name := refAddr()
			a.name = name
			for s := range a.sides {
				a.sides[s].tp = role(ustack.NewReferenceTransport(styled(fmt.Sprint("T", i, s))), s == 0).SetAddress(name)
				if a.size > 0 {
					a.sides[s].tp.SetOption("MaxQueueSize", a.size)
				}
			}
			if a.size == 0 {
				a.size = 512
			}
			addrs[i] = a
		}
		// what waits does so for ever
		waits := 0
		wait := func() {
			synctest.Wait()
			if waits++; waits%2 == 0 {
				time.Sleep(30 * time.Hour)
				synctest.Wait()
			}
		}
		serial := 0
		var last interface{}
		value := func() (v interface{}) {
			serial++
			if c.Same && serial%3 == 0 && last != nil {
				return last // the same object again
			}
			defer func() { last = v }()
			id := serial
			if c.Same {
				id = 7
			}
			switch serial % 5 {
			case 0:
				return serial
			case 1:
				return fmt.Sprint("s", serial)
			default:
				return &refVal{id}
			}
		}
		start := func(at string, a *addr, s int) {
			x := &a.sides[s]
			x.tp.Run()
			if x.on {
				return
			}
			x.on = true
			var tc ustack.TransportConnection
			e.Go(func() { tc = x.tp.NextConnection() })
			synctest.Wait()
			e.Check(tc != nil, "%s: no connection after Run", at)
			e.Check(tc.UseReference() && !tc.Closed(), "%s: the new connection is closed or does not use references", at)
			for _, o := range x.old {
				e.Check(o != tc, "%s: an old connection again", at)
			}
			x.conn = tc
		}
		stop := func(at string, a *addr, s int) {
			x := &a.sides[s]
			var got ustack.TransportConnection
			back := false
			if x.on {
				e.Go(func() { got = x.tp.NextConnection(); back = true })
				wait()
				e.Check(!back, "%s: NextConnection returned twice in one run", at)
			}
			x.tp.Stop()
			synctest.Wait()
			if !x.on {
				return
			}
			e.Check(back && got == nil, "%s: NextConnection after Stop: returned %v, %v", at, back, got)
			e.Check(x.conn.Closed(), "%s: the connection is open after Stop", at)
			e.Check(x.conn.SetReference(&refVal{}) != nil, "%s: SetReference works after Stop", at)
			r, err := x.conn.GetReference()
			e.Check(r == nil && err != nil, "%s: GetReference works after Stop", at)
			x.on = false
			x.old = append(x.old, x.conn)
			x.conn = nil
			if !a.sides[1-s].on {
				// both are stopped, the next ones start with nothing
				a.queue = [2][]interface{}{}
				a.lost = [2]bool{}
			} else if len(a.queue[1-s]) > 0 {
				// what was on the way to the one that stopped
				a.lost[1-s] = true
			}
		}
		recv := func(at string, a *addr, s int) {
			want := a.queue[1-s][0]
			a.queue[1-s] = a.queue[1-s][1:]
			var got interface{}
			var err error
			back := false
			e.Go(func() { got, err = a.sides[s].conn.GetReference(); back = true })
			synctest.Wait()
			e.Check(back && err == nil, "%s: GetReference with data on the way: returned %v, %v", at, back, err)
			e.Check(got == want, "%s: received %v (%p), sent was %v (%p)", at, got, got, want, want)
		}
		steps, restarts := 0, 0
		for n, op := range repeated(c.Ops, c.Rep) {
			at := fmt.Sprintf("op %d (%s address %d side %d)", n, op.Op, op.A, op.S)
			a := addrs[op.A]
			x := &a.sides[op.S]
			open := x.on && !x.conn.Closed()
			known := !a.lost[0] && !a.lost[1]
			switch op.Op {
			case "run":
				if !x.on && len(x.old) > 0 {
					restarts++
				}
				start(at, a, op.S)
			case "both":
				start(at, a, 0)
				start(at, a, 1)
			case "stop":
				stop(at, a, op.S)
			case "run-stop":
				// stopped before anybody took the connection
				if x.on {
					break
				}
				back := false
				e.Go(func() {
					x.tp.Run()
					x.tp.Stop()
					back = true
				})
				synctest.Wait()
				e.Check(back, "%s: Run and Stop do not return", at)
				if !a.sides[1-op.S].on {
					a.queue, a.lost = [2][]interface{}{}, [2]bool{}
				} else if len(a.queue[1-op.S]) > 0 {
					a.lost[1-op.S] = true
				}
				e.Class("not-taken")
			case "queue":
				// another size, used by the next two that run
				if a.sides[0].on || a.sides[1].on {
					break
				}
				var v interface{}
				switch a.size = []int{512, 512, 1, 2, 5, 512, 4}[op.N%7]; {
				case a.size < 512:
					v = a.size
				case op.N == 1:
					v = "7"
				case op.N == 5:
					v = int64(3)
				}
				a.sides[0].tp.SetOption("MaxQueueSize", v)
				a.sides[1].tp.SetOption("MaxQueueSize", v)
				e.Class("other-queue-size")
			case "swap":
				// the server becomes the client and the other way round
				if a.sides[0].on || a.sides[1].on {
					break
				}
				a.sides[0], a.sides[1] = a.sides[1], a.sides[0]
				a.sides[0].tp.ForServer(true)
				a.sides[1].tp.ForServer(false)
				e.Class("swapped")
			case "stop-moved":
				// the address for the next run is set before this one is stopped
				x.tp.SetAddress(addrs[(op.A+op.N)%len(addrs)].name)
				stop(at, a, op.S)
				x.tp.SetAddress(a.name)
				e.Class("moved")
			case "close":
				if open {
					x.conn.Close()
					e.Check(x.conn.Closed(), "%s: Closed is false", at)
					e.Check(x.conn.SetReference(&refVal{}) != nil, "%s: SetReference works after Close", at)
					x.conn.Close()
				}
			case "nil":
				if open {
					e.Check(x.conn.SetReference(nil) != nil, "%s: nil was accepted", at)
					e.Check(!x.conn.Closed(), "%s: nil was refused and the connection closed", at)
				}
			case "send":
				for k := 0; open && known && k < op.N && len(a.queue[op.S]) < a.size; k++ {
					v := value()
					var err error
					back := false
					e.Go(func() { err = x.conn.SetReference(v); back = true })
					synctest.Wait()
					e.Check(back && err == nil, "%s: SetReference with %d of %d on the way: returned %v, %v", at, len(a.queue[op.S]), a.size, back, err)
					a.queue[op.S] = append(a.queue[op.S], v)
					steps++
				}
			case "recv":
				for k := 0; open && known && k < op.N && len(a.queue[1-op.S]) > 0; k++ {
					recv(at, a, op.S)
					steps++
				}
			case "wait-recv":
				y := &a.sides[1-op.S]
				if open && known && len(a.queue[1-op.S]) == 0 && y.on && !y.conn.Closed() {
					var got interface{}
					back := false
					e.Go(func() { got, _ = x.conn.GetReference(); back = true })
					wait()
					e.Check(!back, "%s: GetReference returned %v out of nowhere", at, got)
					v := value()
					y.conn.SetReference(v)
					synctest.Wait()
					e.Check(back && got == v, "%s: waiting GetReference: returned %v, %v", at, back, got)
					e.Class("waited")
				}
			case "recv-stop":
				if open && known && len(a.queue[1-op.S]) == 0 {
					var err error
					var got interface{}
					back := false
					e.Go(func() { got, err = x.conn.GetReference(); back = true })
					wait()
					e.Check(!back, "%s: GetReference returned %v out of nowhere", at, got)
					if op.N%2 == 0 {
						x.conn.Close()
					} else {
						stop(at, a, op.S)
					}
					synctest.Wait()
					e.Check(back && err != nil && got == nil, "%s: GetReference still waits, or returned %v", at, got)
					e.Class("unblocked-get")
				}
			case "full", "full-stop":
				// fill the queue, the next one has to wait and nothing is lost
				if !open || !known || a.size > 100 && op.N > 1 {
					break
				}
				for len(a.queue[op.S]) < a.size {
					v := value()
					x.conn.SetReference(v)
					a.queue[op.S] = append(a.queue[op.S], v)
				}
				v := value()
				var err error
				back := false
				e.Go(func() { err = x.conn.SetReference(v); back = true })
				wait()
				e.Check(!back, "%s: SetReference returned with %d of %d on the way: %v", at, a.size, a.size, err)
				y := &a.sides[1-op.S]
				if y.on && !y.conn.Closed() && len(a.queue[1-op.S]) < a.size {
					// the other direction does not wait for this one
					w := value()
					var err2 error
					back2 := false
					e.Go(func() { err2 = y.conn.SetReference(w); back2 = true })
					synctest.Wait()
					e.Check(back2 && err2 == nil, "%s: SetReference of the other side waits (%v) or fails while this one is stuck: %v", at, !back2, err2)
					a.queue[1-op.S] = append(a.queue[1-op.S], w)
					recv(at, a, op.S)
					e.Class("full-duplex")
				}
				if op.Op == "full" && y.on && !y.conn.Closed() {
					recv(at, a, 1-op.S)
					synctest.Wait()
					e.Check(back && err == nil, "%s: SetReference still waits though there is room: %v %v", at, back, err)
					a.queue[op.S] = append(a.queue[op.S], v)
					e.Class("waited-full")
					break
				}
				if op.N%2 == 0 {
					x.conn.Close()
				} else {
					stop(at, a, op.S)
				}
				synctest.Wait()
				e.Check(back && err != nil, "%s: SetReference still waits after the close (%v), or succeeded", at, back)
				e.Class("unblocked-set")
			}
		}
		// the rest arrives
		for i, a := range addrs {
			for s := range a.sides {
				x := &a.sides[s]
				if !x.on || x.conn.Closed() || a.lost[0] || a.lost[1] {
					continue
				}
				for len(a.queue[1-s]) > 0 {
					recv(fmt.Sprintf("end: address %d side %d", i, s), a, s)
				}
			}
		}
		for _, a := range addrs {
			for s := range a.sides {
				a.sides[s].tp.Stop()
			}
		}
		if steps >= 4 {
			e.NonTrivial()
		}
		e.ClassIf(restarts > 0, "restarted")
		e.ClassIf(len(addrs) > 1, "several-addresses")
	})
}

// ---- several goroutines at the same time

type RefParCase struct {
	Queue   int `json:"queue"`
	Senders int `json:"senders"`
	N       int `json:"n"`
	Addrs   int `json:"addrs"`
}

func genRefParCase(t *rapid.T) RefParCase {
	return RefParCase{Queue: drawOf(t, "queue", 0, 1, 3, 64), Senders: drawUni(t, 1, 4, "senders"), N: drawUni(t, 1, 200, "n"), Addrs: drawUni(t, 1, 3, "addrs")}
}

func runRefParCase(e *Env, c RefParCase) {
	e.Bubble(func() {
		type val struct{ addr, side, sender, n int }
		var wg sync.WaitGroup
		for a := 0; a < c.Addrs; a++ {
			name := refAddr()
			var conns [2]ustack.TransportConnection
			for s := 0; s < 2; s++ {
				tp := role(ustack.NewReferenceTransport(styled("T")), s == 0).SetAddress(name)
				if c.Queue > 0 {
					tp.SetOption("MaxQueueSize", c.Queue)
				}
				conns[s] = tp.Run().NextConnection()
				defer tp.Stop()
			}
			for s := 0; s < 2; s++ {
				for k := 0; k < c.Senders; k++ {
					wg.Add(1)
					e.Go(func() {
						defer wg.Done()
						for n := 0; n < c.N; n++ {
							if err := conns[s].SetReference(&val{a, s, k, n}); err != nil {
								e.Fail("SetReference: %v", err)
								return
							}
						}
					})
				}
				wg.Add(1)
				e.Go(func() {
					defer wg.Done()
					next := make([]int, c.Senders)
					for n := 0; n < c.Senders*c.N; n++ {
						r, err := conns[s].GetReference()
						v, ok := r.(*val)
						if err != nil || !ok {
							e.Fail("GetReference: %v %v", r, err)
							return
						}
						if v.addr != a || v.side != 1-s || v.n != next[v.sender] {
							e.Fail("address %d side %d received %+v, the next of that sender is %d", a, s, *v, next[v.sender])
							return
						}
						next[v.sender]++
					}
				})
			}
		}
		wg.Wait()
		if c.Senders > 1 && c.N > 10 {
			e.NonTrivial()
		}
	})
}

// ---- through stacks

type RefStackCase struct {
	Rep    int        `json:"rep,omitempty"` // the steps are done that many times
	Layers [2][]Layer `json:"layers"`
	Ops    []RefOp    `json:"ops"`
	First  int        `json:"first"`
	// what the statistics layers are asked to do, which makes no sense here
	Collect int `json:"collect,omitempty"`
}

func genRefStackCase(t *rapid.T) RefStackCase {
	c := RefStackCase{First: drawUni(t, 0, 1, "first"), Collect: drawOf(t, "collect", 0, 1, 3)}
	for s := range c.Layers {
		kinds := []string{"frame", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "probe", "session"}
		for i, n := 0, drawUni(t, 0, 5, "layers"); i < n; i++ {
			k := drawUni(t, 0, len(kinds)-1, "kind")
			l := Layer{Kind: kinds[k], Off: drawPct(t, 25, "off")}
			kinds = append(append([]string{}, kinds[:k]...), kinds[k+1:]...)
			if l.Kind == "session" {
				l.Off = true
			}
			c.Layers[s] = append(c.Layers[s], l)
		}
	}
	for i, n := 0, drawUni(t, 1, 15, "n"); i < n; i++ {
		c.Ops = append(c.Ops, RefOp{Op: drawOf(t, "op", "send", "send", "sleep"), S: drawUni(t, 0, 1, "s"), N: drawUni(t, 1, 40, "n")})
	}
	if drawBool(t, "del") {
		c.Ops = append(c.Ops, RefOp{Op: "del", S: drawUni(t, 0, 1, "s")})
	}
	return c
}

func runRefStackCase(e *Env, c RefStackCase) {
	e.Bubble(func() {
		name := refAddr()
		var eps [2]ustack.EndPoint
		var sts [2]ustack.UStack
		var tps [2]ustack.Transport
		conns := [2]chan ustack.TransportConnection{make(chan ustack.TransportConnection, 9), make(chan ustack.TransportConnection, 9)}
		closed := [2]int{}
		var mu sync.Mutex
		for k := 0; k < 2; k++ {
			s := (k + c.First) % 2
			tps[s] = role(ustack.NewReferenceTransport(styled(fmt.Sprint("T", s))), s == 0).SetAddress(name)
			eps[s] = newEP(fmt.Sprint("E", s), 0).SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) {
				switch ev.Type {
				case ustack.UStackEventNewConnection:
					conns[s] <- ev.Data.(ustack.TransportConnection)
				case ustack.UStackEventConnectionClosed:
					mu.Lock()
					closed[s]++
					mu.Unlock()
				}
			})
			sts[s] = ustack.NewUStack().AddEndPoint(eps[s]).AddTransport(tps[s])
			for _, l := range c.Layers[s] {
				dp := newLayer(l)
				if l.Kind == "stat" && c.Collect > 0 {
					dp.SetOption("Collect.IntervalInSecond", c.Collect)
				}
				sts[s].AppendDataProcessor(dp)
			}
			sts[s].Run()
		}
		synctest.Wait()
		var cs [2]ustack.TransportConnection
		for s := range cs {
			e.Check(len(conns[s]) == 1, "side %d got %d connections", s, len(conns[s]))
			cs[s] = <-conns[s]
		}
		total := 0
		for i, op := range repeated(c.Ops, c.Rep) {
			at := fmt.Sprintf("op %d (%s side %d)", i, op.Op, op.S)
			switch op.Op {
			case "sleep":
				time.Sleep(time.Duration(op.N) * 2 * time.Second)
				if op.N%8 == 0 {
					time.Sleep(2 * time.Hour)
				}
			case "send":
				var sent []interface{}
				for k := 0; k < op.N; k++ {
					if (k+op.N)%11 == 10 {
						// nothing is not a message
						eps[op.S].GetTxChannel() <- epd(cs[op.S], nil)
						e.Class("nothing")
					}
					v := interface{}(&refVal{k})
					if k%3 == 1 {
						v = pattern(k, k)
					} else if k%3 == 2 {
						v = []interface{}{k, "", 0, false, struct{}{}, (*refVal)(nil), 0.0}[(k/3+op.N)%7]
					}
					d := epd(cs[op.S], v)
					for r := 0; r < 1+(k+op.N)%9/8; r++ { // some of them twice
						sent = append(sent, v)
						eps[op.S].GetTxChannel() <- d
					}
				}
				synctest.Wait()
				got := drain(eps[1-op.S].GetRxChannel())
				e.Check(len(got) == len(sent), "%s: sent %d, received %d", at, len(sent), len(got))
				for k := range got {
					e.Check(got[k].GetConnection() == cs[1-op.S], "%s: received on another connection", at)
					if b, ok := sent[k].([]byte); ok {
						r, ok := got[k].GetData().([]byte)
						e.Check(ok && len(r) == len(b) && (len(b) == 0 || &r[0] == &b[0]), "%s: value %d was not received as it is", at, k)
					} else {
						e.Check(got[k].GetData() == sent[k], "%s: value %d was not received as it is", at, k)
					}
				}
				total += len(sent)
			case "del":
				sts[op.S].DeleteTransport(tps[op.S])
				synctest.Wait()
				mu.Lock()
				n := closed[op.S]
				mu.Unlock()
				e.Check(cs[op.S].Closed() && n == 1, "%s: closed %v, %d events", at, cs[op.S].Closed(), n)
				e.Class("deleted")
			}
			mu.Lock()
			n := closed[0] + closed[1]
			mu.Unlock()
			e.Check(op.Op == "del" || n == 0, "%s: a connection was closed", at)
		}
		for s := range eps {
			e.Check(len(drain(eps[s].GetRxChannel())) == 0, "side %d received something else", s)
			sts[s].DeleteTransport(tps[s])
		}
		if total > 5 && len(c.Layers[0])+len(c.Layers[1]) > 0 {
			e.NonTrivial()
		}
	})
}

// ---- run, stop and next at the same time

type RefLifeCase struct {
	Tps     []int      `json:"tps"` // the address of each, the first two are server and client of the same
	Threads [][]RaceOp `json:"threads"`
}

func genRefLifeCase(t *rapid.T) RefLifeCase {
	c := RefLifeCase{Tps: []int{0, 0}}
	for n := drawUni(t, 0, 4, "more"); n > 0; n-- {
		c.Tps = append(c.Tps, drawUni(t, 0, 2, "addr"))
	}
	for i, n := 0, drawUni(t, 2, 5, "threads"); i < n; i++ {
		var th []RaceOp
		for k, m := 0, drawUni(t, 1, 15, "ops"); k < m; k++ {
			th = append(th, RaceOp{Op: drawOf(t, "op", "run", "run", "stop", "next", "use", "put"), I: drawUni(t, 0, len(c.Tps)-1, "i")})
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func runRefLifeCase(e *Env, c RefLifeCase) {
	base := unique()
	e.Bubble(func() {
		var tps []ustack.Transport
		for i, a := range c.Tps {
			tp := ustack.NewReferenceTransport(styled(fmt.Sprint("t", i))).ForServer(i%2 == 0).SetAddress(fmt.Sprintf("life-%d-%d", base, a))
			tp.Run()
			tps = append(tps, tp)
		}
		var mu sync.Mutex
		conns := make([][]ustack.TransportConnection, len(tps))
		seen := map[ustack.TransportConnection]bool{}
		var wg sync.WaitGroup
		for _, th := range c.Threads {
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				for _, op := range th {
					tp := tps[op.I]
					switch op.Op {
					case "run":
						tp.Run()
					case "stop":
						tp.Stop()
					case "next":
						// waits until it is run again or stopped
						wg.Add(1)
						e.Go(func() {
							defer wg.Done()
							if tc := tp.NextConnection(); tc != nil {
								mu.Lock()
								if seen[tc] {
									e.Fail("a connection was handed out twice")
								}
								seen[tc] = true
								conns[op.I] = append(conns[op.I], tc)
								mu.Unlock()
							}
						})
					default:
						mu.Lock()
						l := conns[op.I]
						mu.Unlock()
						for _, tc := range l {
							tc.Closed()
							if op.Op == "put" {
								tc.SetReference(new(int))
							} else {
								tc.GetName()
							}
						}
					}
				}
			})
		}
		synctest.Wait()
		for i, tp := range tps {
			tp.Stop()
			tp.Stop()
			synctest.Wait()
			mu.Lock()
			for _, tc := range conns[i] {
				e.Check(tc.Closed(), "a connection of transport %d is open after Stop", i)
			}
			mu.Unlock()
		}
		wg.Wait()
		if e.Failed() {
			return
		}
		// now nothing is left at the addresses, and it works again
		s, k := tps[0], tps[1]
		s.Run()
		k.Run()
		a, b := s.NextConnection(), k.NextConnection()
		e.Check(a != nil && b != nil, "runs again, but there is no connection")
		for n := 0; n < 3; n++ {
			x, y := new(int), new(int)
			e.Check(a.SetReference(x) == nil && b.SetReference(y) == nil, "runs again, but SetReference fails")
			var gx, gy interface{}
			go func() { gx, _ = b.GetReference() }()
			go func() { gy, _ = a.GetReference() }()
			synctest.Wait()
			e.Check(gx == interface{}(x) && gy == interface{}(y), "runs again, but something else arrives")
		}
		s.Stop()
		k.Stop()
		synctest.Wait()
		e.Check(a.Closed() && b.Closed(), "a connection is open after Stop")
		e.NonTrivial()
	})
}

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "a case is a history of Run, Stop, Close, sending and receiving on the two sides of one to three reference addresses with queue sizes from 1, judged by a queue per direction (direct); concurrent senders with sequence numbers (parallel); two stacks with random layers over a reference transport (stack); or up to six transports run, stopped and waited for by several goroutines, after which all has to be closed and an empty queue works (lifecycle-parallel); non-trivial: at least four transfers (direct), two senders of more than ten each (parallel), more than five messages through at least one layer (stack); parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("direct", 1500, genRefCase, runRefCase),
			part("parallel", 150, genRefParCase, runRefParCase),
			part("stack", 800, genRefStackCase, runRefStackCase),
			part("long", 120, func(t *rapid.T) RefCase {
				c := genRefCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runRefCase),
			part("stack-long", 20, func(t *rapid.T) RefStackCase {
				c := genRefStackCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				if k := len(c.Ops) - 1; c.Ops[k].Op == "del" {
					c.Ops[k].Op = "send"
					c.Ops[k].N = 3
				}
				return c
			}, runRefStackCase),
			part("lifecycle-parallel", 300, genRefLifeCase, runRefLifeCase),
		},
	})
}
