package verif

import (
	"bytes"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C15: heartbeats

type HbOp struct {
	Ms int    `json:"ms"` // after the operation before
	Op string `json:"op"`
	C  int    `json:"c"`
	N  int    `json:"n"`
}

type HbCase struct {
	Rep      int     `json:"rep,omitempty"` // the steps are done that many times
	Interval int     `json:"interval"`      // 0: default
	Timeout  int     `json:"timeout"`
	Close    int     `json:"close"` // 0: default, 1: true, 2: false
	Above    []Layer `json:"above"`
	Below    []Layer `json:"below"`
	Wait     bool    `json:"wait"` // a listener waits for data while the loss is published
	Ops      []HbOp  `json:"ops"`
}

func genHbLayers(t *rapid.T) (above, below []Layer) {
	kinds := []string{"session", "stat", "frame", "lb", "flow"}
	for _, k := range kinds {
		if !drawBool(t, "has") {
			continue
		}
		l := Layer{Kind: k, Off: k == "lb"}
		if drawBool(t, "above") {
			above = append(above, l)
		} else {
			below = append(below, l)
		}
	}
	return
}

func genHbCase(t *rapid.T) HbCase {
	c := HbCase{Interval: drawUni(t, 0, 4, "interval"), Timeout: drawOf(t, "timeout", 3, 0, 1, 2, 5, 7, 12), Close: drawUni(t, 0, 2, "close"), Wait: drawPct(t, 30, "wait")}
	c.Above, c.Below = genHbLayers(t)
	to := c.Timeout
	if to == 0 {
		to = 30
	}
	first := 0 // that many appear at once
	conns, most, ops := 0, 4, drawUni(t, 2, 30, "n")
	if drawPct(t, 2, "many") {
		most, ops = 40, drawUni(t, 60, 120, "nmany")
		if drawPct(t, 25, "huge") {
			first = drawUni(t, 130, 300, "first")
			most, ops = first+4, first+20
		}
	}
	for i := 0; i < ops; i++ {
		op := HbOp{Op: drawOf(t, "op", "conn", "hb", "hb", "hb", "hb", "in", "out", "wait", "peer-close", "close", "fail", "stall")}
		if conns == 0 || i < first {
			op.Op = "conn"
		}
		if op.Op == "conn" {
			if conns == most {
				op.Op = "hb"
			} else {
				conns++
			}
		}
		switch drawUni(t, 0, 3, "pause") {
		case 0:
			op.Ms = drawUni(t, 0, 900, "ms")
		case 1, 2:
			op.Ms = drawUni(t, 0, to*1000, "ms")
		default:
			op.Ms = drawUni(t, 0, to*2200, "ms")
		}
		if i < first {
			op.Ms = 0
		}
		op.C = drawUni(t, 0, most-1, "c")
		op.N = drawUni(t, 1, 80, "n")
		if most > 4 && i < most {
			op.Op, op.Ms = "conn", op.Ms%50
			conns = max(conns, i+1)
		}
		c.Ops = append(c.Ops, op)
	}
	if drawPct(t, 4, "long") {
		c.Ops = append(c.Ops, HbOp{Op: "beats", N: drawOf(t, "beats", 70, 300, 1100, drawUni(t, 1, 4000, "nbeats"))})
	}
	c.Ops = append(c.Ops, HbOp{Op: "wait", Ms: drawUni(t, 0, to*2200, "end")})
	return c
}

type hbConn struct {
	*memConn
	born   time.Duration
	beats  []time.Duration // received
	sent   []time.Duration
	lost   []time.Duration
	closed time.Duration // by the harness, -1: open
	failed time.Duration // writes fail since then, -1: no
	stuck  time.Duration // writes do not return since then, -1: no
	other  [][]byte      // what was written and is no heartbeat
	events int           // ConnectionClosed
}

func runHbCase(e *Env, c HbCase) {
	e.Bubble(func() {
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		hb := ustack.NewHeartbeat()
		interval, timeout, closing := 1, 30, true
		if c.Interval > 0 {
			interval = c.Interval
			hb.SetOption("IntervalInSecond", interval)
		}
		if c.Timeout > 0 {
			timeout = c.Timeout
			hb.SetOption("TimeoutInSecond", timeout)
		}
		if c.Close > 0 {
			closing = c.Close == 1
			hb.SetOption("CloseOnLost", closing)
		}
		st := ustack.NewUStack().SetOption("MTU", 512).AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range c.Above {
			st.AppendDataProcessor(newLayer(l))
		}
		st.AppendDataProcessor(hb)
		for _, l := range c.Below {
			st.AppendDataProcessor(newLayer(l))
		}
		all := append(append(append([]Layer{}, c.Above...), Layer{Kind: "heartbeat"}), c.Below...)
		beat := wrap(c.Below, []byte{0x83}, 0)

		var mu sync.Mutex
		var conns []*hbConn
		find := func(x interface{}) *hbConn {
			for _, k := range conns {
				if x == interface{}(k.memConn) {
					return k
				}
			}
			return nil
		}
		ep := newEP("E", 0)
		rx := map[string]int{}
		arrived := make(chan struct{}, 4096)
		e.Go(func() {
			for d := range ep.GetRxChannel() {
				b, _ := d.GetData().([]byte)
				mu.Lock()
				rx[d.GetConnection().(*memConn).name+string(b)]++
				mu.Unlock()
				select {
				case arrived <- struct{}{}:
				default:
				}
			}
		})
		epLost, listenerLost := 0, 0
		waited := 0
		ep.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) {
			if ev.Type == ustack.UStackEventHeartbeatLost {
				mu.Lock()
				epLost++
				mu.Unlock()
			}
		})
		st.SetEventListener(func(ev ustack.Event) {
			k := find(ev.Data)
			switch ev.Type {
			case ustack.UStackEventHeartbeatLost:
				if k == nil {
					e.Fail("HeartbeatLost for something else: %v", ev.Data)
					return
				}
				mu.Lock()
				k.lost = append(k.lost, now())
				listenerLost++
				var other *hbConn
				for _, x := range conns {
					if c.Wait && x != k && !x.Closed() {
						other = x
					}
				}
				mu.Unlock()
				if other != nil {
					// a heartbeat and data on another connection
					mu.Lock()
					waited++
					other.beats = append(other.beats, now())
					mark := pattern(waited+5000, 20)
					mu.Unlock()
					other.feed(beat)
					other.feed(wrap(all, mark, 0))
					limit := time.After(time.Duration(timeout)*time.Second/2 + time.Second/4)
					for {
						mu.Lock()
						ok := rx[other.name+string(mark)] == 1
						mu.Unlock()
						if ok {
							e.Class("waited")
							break
						}
						select {
						case <-arrived:
						case <-limit:
							e.Fail("no data is received while a listener handles HeartbeatLost")
							return
						}
					}
				}
			case ustack.UStackEventConnectionClosed:
				mu.Lock()
				if k != nil {
					k.events++
				}
				mu.Unlock()
			}
		})
		st.AddEndPoint(ep)
		tp := newMemTransport("T")
		st.AddTransport(tp)
		st.Run()
		synctest.Wait()

		sentIn := map[string]int{}
		var at string
		for n, op := range repeated(c.Ops, c.Rep) {
			if op.Op == "conn" && n >= 3*len(c.Ops) {
				op.Op = "hb"
			}
			at = fmt.Sprintf("op %d (%s connection %d)", n, op.Op, op.C)
			target := now() + time.Duration(op.Ms)*time.Millisecond
			// not at the moment of a tick
			if f := target % time.Second; f < 100*time.Millisecond {
				target += 100 * time.Millisecond
			} else if f > 900*time.Millisecond {
				target += 250 * time.Millisecond
			}
			time.Sleep(target - now())
			synctest.Wait()
			if e.Failed() {
				return
			}
			var k *hbConn
			if len(conns) > 0 {
				k = conns[op.C%len(conns)]
			}
			switch op.Op {
			case "conn":
				x := &hbConn{memConn: newMemConn(fmt.Sprint("c", len(conns), " ")), born: now(), closed: -1, failed: -1, stuck: -1}
				x.setOnWrite(func(p []byte) {
					mu.Lock()
					defer mu.Unlock()
					if bytes.Equal(p, beat) {
						x.sent = append(x.sent, now())
					} else {
						x.other = append(x.other, p)
					}
				})
				mu.Lock()
				conns = append(conns, x)
				mu.Unlock()
				tp.offer(x.memConn)
			case "hb":
				if k != nil && !k.Closed() {
					mu.Lock()
					k.beats = append(k.beats, now())
					mu.Unlock()
					k.feed(beat)
				}
			case "beats":
				// a long time, in which all the peers beat
				e.Class("long")
				for until := now() + time.Duration(op.N)*time.Second; now() < until; {
					for _, x := range conns {
						if !x.Closed() {
							mu.Lock()
							x.beats = append(x.beats, now())
							mu.Unlock()
							x.feed(beat)
						}
					}
					time.Sleep(time.Duration(timeout) * time.Second / 2)
					synctest.Wait()
				}
			case "in":
				if k != nil && !k.Closed() {
					p := pattern(n, op.N)
					k.feed(wrap(all, p, 0))
					sentIn[k.name+string(p)]++
					e.Class("data")
				}
			case "out":
				if k != nil && !k.Closed() && k.stuck < 0 {
					p := pattern(n, op.N)
					ep.GetTxChannel() <- epd(k.memConn, p)
					synctest.Wait()
					mu.Lock()
					got := k.other
					k.other = nil
					mu.Unlock()
					e.Check(len(got) == 1 && bytes.Equal(got[0], wrap(all, p, 0)), "%s: %d writes", at, len(got))
				}
			case "peer-close":
				if k != nil && k.closed < 0 && !k.Closed() && op.N%3 == 0 {
					k.closed = now()
					k.feedErr(nil, errPeer)
					e.Class("peer-closed")
				}
			case "close":
				if k != nil && k.closed < 0 && !k.Closed() && op.N%3 == 0 {
					k.closed = now()
					k.Close()
					e.Class("closed")
				}
			case "fail":
				// the next write fails, which is the next heartbeat at the latest
				if k != nil && k.closed < 0 && !k.Closed() && k.stuck < 0 && op.N%4 == 0 {
					k.setFailAfter(0)
					k.failed = now()
					k.closed = now() + time.Duration(interval)*time.Second
					time.Sleep(time.Duration(interval)*time.Second + 50*time.Millisecond)
					synctest.Wait()
					e.Check(k.Closed(), "%s: the heartbeat could not be written, the connection is still open", at)
					e.Class("write-failed")
				}
			}
			if op.Op == "stall" && k != nil && !k.Closed() && k.stuck < 0 && op.N%3 == 0 {
				// its peer does not take data any more, no other connection may suffer
				k.setGate(make(chan struct{}))
				k.stuck = now()
				e.Class("stalled")
			}
			synctest.Wait()
		}
		end := now()
		mu.Lock()
		defer mu.Unlock()
		for p, n := range sentIn {
			if rx[p] != n {
				e.Fail("a message was received %d times, sent %d times", rx[p], n)
				return
			}
			delete(rx, p)
		}
		if len(rx) != waited && !e.Failed() {
			e.Fail("the endpoint received %d messages that nobody sent (heartbeats?)", len(rx)-waited)
			return
		}
		if epLost != listenerLost {
			e.Fail("endpoint saw %d HeartbeatLost, listener %d", epLost, listenerLost)
			return
		}
		to := time.Duration(timeout) * time.Second
		losses, alive := 0, 0
		for i, k := range conns {
			if len(k.other) > 0 {
				e.Fail("connection %d: something else than heartbeats was written: %x", i, k.other[0])
				return
			}
			over := end // when heartbeats have to stop
			if k.closed >= 0 && k.closed < over {
				over = k.closed
			}
			if k.failed >= 0 && k.failed < over {
				over = k.failed
			}
			if closing && len(k.lost) > 0 {
				if len(k.lost) > 1 {
					e.Fail("connection %d: lost %d times though it is closed when lost", i, len(k.lost))
					return
				}
				if !k.Closed() || k.events != 1 {
					e.Fail("connection %d: lost, closed %v, %d ConnectionClosed", i, k.Closed(), k.events)
					return
				}
				if k.lost[0] < over {
					over = k.lost[0]
				}
			}
			if !closing && k.closed < 0 && k.Closed() {
				e.Fail("connection %d: was closed by nobody", i)
				return
			}
			// sent: at once and in every interval
			want := k.born
			for j, s := range k.sent {
				if s != want {
					e.Fail("connection %d: heartbeat %d at %v, expected at %v (new at %v, interval %d s)", i, j, s, want, k.born, interval)
					return
				}
				if s > over {
					e.Fail("connection %d: heartbeat at %v, was closed at %v", i, s, over)
					return
				}
				want += time.Duration(interval) * time.Second
			}
			if want < over && (k.stuck < 0 || want < k.stuck) {
				e.Fail("connection %d: no heartbeat at %v (new at %v, interval %d s, open until %v)", i, want, k.born, interval, over)
				return
			}
			// lost: only after silence
			refs := append([]time.Duration{k.born}, k.beats...)
			prev := time.Duration(-1)
			for _, l := range k.lost {
				last := time.Duration(-1)
				for _, b := range refs {
					if b < l && b > last {
						last = b
					}
				}
				if l < last+to {
					e.Fail("connection %d: lost at %v, last heartbeat at %v, timeout %v", i, l, last, to)
					return
				}
				if prev > last {
					e.Fail("connection %d: lost at %v and at %v, no heartbeat in between", i, prev, l)
					return
				}
				if k.closed >= 0 && l > k.closed {
					e.Fail("connection %d: lost at %v, was closed at %v", i, l, k.closed)
					return
				}
				prev = l
				losses++
			}
			// lost: always after silence, at the latest a second later (not if listeners take time)
			for j, b := range refs {
				until := end
				if j+1 < len(refs) {
					until = refs[j+1]
				}
				if over < until {
					until = over
				}
				due := b + to + time.Second
				if b < over && due < until {
					ok := false
					for _, l := range k.lost {
						ok = ok || (l > b && l <= due)
					}
					if !ok {
						e.Fail("connection %d: not lost until %v, last heartbeat at %v, timeout %v", i, due, b, to)
						return
					}
				}
				if b > k.born && due > until {
					alive++
				}
			}
		}
		if losses > 0 {
			e.NonTrivial()
			e.Class("lost")
			e.ClassIf(alive > 0, "lost-and-alive")
		}
	})
}

// ---- two stacks

type HbPairCase struct {
	Interval [2]int `json:"interval"`
	Timeout  [2]int `json:"timeout"`
	Seconds  int    `json:"seconds"`
	Cut      int    `json:"cut"` // 0: never, 1: both directions, 2: one direction
	Traffic  int    `json:"traffic"`
	Frame    bool   `json:"frame"`
}

func genHbPairCase(t *rapid.T) HbPairCase {
	c := HbPairCase{Seconds: drawUni(t, 5, 400, "seconds"), Cut: drawUni(t, 0, 2, "cut"), Traffic: drawUni(t, 0, 20, "traffic"), Frame: drawBool(t, "frame")}
	for i := range c.Interval {
		c.Interval[i] = drawUni(t, 1, 4, "interval")
	}
	for i := range c.Timeout {
		c.Timeout[i] = c.Interval[1-i] + drawUni(t, 1, 6, "slack")
	}
	return c
}

func runHbPairCase(e *Env, c HbPairCase) {
	e.Bubble(func() {
		start := time.Now()
		var cs [2]*memConn
		var eps [2]ustack.EndPoint
		var mu sync.Mutex
		var lost [2][]time.Duration
		var closed [2]int
		cut := [2]bool{}
		for s := range cs {
			cs[s] = newMemConn(fmt.Sprint("c", s))
		}
		for s := range cs {
			cs[s].setOnWrite(func(p []byte) {
				mu.Lock()
				gone := cut[s]
				mu.Unlock()
				if !gone && !cs[1-s].Closed() {
					cs[1-s].feed(p)
				}
			})
		}
		for s := range cs {
			eps[s] = newEP("E", 0)
			procs := []ustack.DataProcessor{ustack.NewStringCodec(), ustack.NewHeartbeat().
				SetOption("IntervalInSecond", c.Interval[s]).SetOption("TimeoutInSecond", c.Timeout[s])}
			if c.Frame {
				procs = append(procs, ustack.NewFrameDecoder())
			}
			r := newRig(fmt.Sprint("S", s), 256, procs...)
			r.st.AddEndPoint(eps[s])
			r.st.SetEventListener(func(ev ustack.Event) {
				mu.Lock()
				defer mu.Unlock()
				switch ev.Type {
				case ustack.UStackEventHeartbeatLost:
					lost[s] = append(lost[s], time.Since(start))
				case ustack.UStackEventConnectionClosed:
					closed[s]++
				}
			})
			r.st.Run()
			r.tp.offer(cs[s])
		}
		for i := 0; i < c.Traffic; i++ {
			time.Sleep(time.Duration(c.Seconds) * time.Second / time.Duration(c.Traffic+1))
			s := i % 2
			eps[s].GetTxChannel() <- epd(cs[s], fmt.Sprint("message ", i))
			synctest.Wait()
			got := drain(eps[1-s].GetRxChannel())
			e.Check(len(got) == 1 && got[0].GetData() == fmt.Sprint("message ", i), "message %d: received %d", i, len(got))
		}
		end := start.Add(time.Duration(c.Seconds)*time.Second + 300*time.Millisecond)
		time.Sleep(time.Until(end))
		synctest.Wait()
		mu.Lock()
		e.Check(len(lost[0])+len(lost[1])+closed[0]+closed[1] == 0, "both sides send heartbeats in time, still: lost %v, closed %v", lost, closed)
		mu.Unlock()
		if c.Cut == 0 {
			if c.Seconds > 60 {
				e.NonTrivial()
			}
			e.Class("never-lost")
			return
		}
		at := time.Since(start)
		mu.Lock()
		cut[0] = true
		cut[1] = c.Cut == 1
		mu.Unlock()
		worst := c.Timeout[0]
		if c.Timeout[1] > worst {
			worst = c.Timeout[1]
		}
		time.Sleep(time.Duration(worst*2+4) * time.Second)
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		// side 1 hears nothing any more
		sides := []int{1}
		if c.Cut == 1 {
			sides = []int{0, 1}
		}
		for _, s := range sides {
			if len(lost[s]) != 1 {
				e.Fail("side %d hears nothing since %v, lost: %v", s, at, lost[s])
				return
			}
			gap := lost[s][0] - at
			max := time.Duration(c.Timeout[s]+1) * time.Second
			min := time.Duration(c.Timeout[s]-c.Interval[1-s]) * time.Second
			if gap > max || gap < min {
				e.Fail("side %d: lost %v after the cut, timeout %d s", s, gap, c.Timeout[s])
				return
			}
			if !cs[s].Closed() || closed[s] != 1 {
				e.Fail("side %d: lost, closed %v, %d events", s, cs[s].Closed(), closed[s])
				return
			}
		}
		e.Class("cut")
		e.NonTrivial()
	})
}

func init() {
	register(&Property{
		ID:   "C15",
		Rule: "a case is a stack with a heartbeat processor between random layers, options, up to four connections, received heartbeats, data, silence, closes and write failures at random times of a fake clock, or two stacks over a link that is cut; the complete history of sent heartbeats, losses and closes is compared with the timing rules; non-trivial: at least one loss was due (history), or the link was cut or alive for more than a minute (pair); parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("history", 1200, genHbCase, runHbCase),
			part("long", 20, func(t *rapid.T) HbCase {
				c := genHbCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runHbCase),
			part("pair", 250, genHbPairCase, runHbPairCase),
		},
	})
}
