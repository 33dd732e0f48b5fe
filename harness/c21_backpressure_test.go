package verif

import (
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C21: who does not take data delays only those who depend on it

type BpMove struct {
	In   bool `json:"in,omitempty"` // from the connection to the endpoint, or the other way
	Conn int  `json:"c"`
	Ep   int  `json:"e"`
	N    int  `json:"n"`
}

type BpCase struct {
	Layers  []Layer  `json:"layers"`
	Conns   int      `json:"conns"`
	Eps     []string `json:"eps"`   // "": channel, "listener", "stuck": nobody takes from the channel, "stucklistener"
	Gated   []bool   `json:"gated"` // the peer of the connection does not read
	Moves   []BpMove `json:"moves"`
	OneByte bool     `json:"split,omitempty"`
	Batch   bool     `json:"batch,omitempty"` // no waiting between the moves
	Close   bool     `json:"close,omitempty"` // a connection that is stuck in a write is closed at the end
	Stuck   int      `json:"s,omitempty"`     // seconds
}

func genBpCase(t *rapid.T) BpCase {
	c := BpCase{Conns: drawUni(t, 2, 4, "conns"), Batch: drawPct(t, 40, "batch"), Close: drawPct(t, 25, "close")}
	c.Layers = genLayers(t, []string{"stat", "heartbeat", "flow", "filter", "forwarder", "probe", "lb"}, 3)
	c.Layers = append([]Layer{{Kind: "session"}}, c.Layers...)
	at := drawUni(t, 1, len(c.Layers), "frameat")
	c.Layers = append(c.Layers[:at:at], append([]Layer{{Kind: "frame"}}, c.Layers[at:]...)...)
	for i, n := 0, drawUni(t, 2, 4, "eps"); i < n; i++ {
		c.Eps = append(c.Eps, drawOf(t, "mode", "", "listener", "stuck", "stucklistener", ""))
	}
	for i := 0; i < c.Conns; i++ {
		c.Gated = append(c.Gated, drawPct(t, 40, "gated"))
	}
	c.Stuck = drawOf(t, "stuck", 0, 1, 29, 70, 4000)
	for _, l := range c.Layers {
		if l.Kind == "heartbeat" {
			c.Stuck = 0 // it would close the silent connections
		}
	}
	for n := drawUni(t, 2, 14, "moves"); n > 0; n-- {
		m := BpMove{In: drawPct(t, 60, "in"), Conn: drawUni(t, 0, c.Conns-1, "c"), Ep: drawUni(t, 0, len(c.Eps)-1, "e")}
		m.N = drawUni(t, 1, 6, "n")
		if m.In && drawPct(t, 35, "flood") {
			m.N = drawOf(t, "flood", 300, 520, 511, 512, 513, 600)
		} else if !m.In && drawPct(t, 25, "many") {
			m.N = 40
		}
		c.Moves = append(c.Moves, m)
	}
	return c
}

func runBpCase(e *Env, c BpCase) {
	e.Bubble(func() {
		procs := append([]ustack.DataProcessor{ustack.NewBytesCodec()}, layersOf(c.Layers)...)
		r := newRig("s", 512, procs...)
		type key struct{ conn, ep int }
		var mu sync.Mutex
		got := map[key]int{} // next number expected
		connIdx := map[ustack.TransportConnection]int{}
		record := func(ep int, d ustack.EndPointData) {
			mu.Lock()
			defer mu.Unlock()
			ci, ok := connIdx[d.GetConnection()]
			b, _ := d.GetData().([]byte)
			if !ok || len(b) != 6 {
				e.Fail("endpoint %d received %s of an unknown connection or kind", ep, short(b))
				return
			}
			n := int(b[2])<<16 | int(b[3])<<8 | int(b[4])
			if int(b[0]) != ci || int(b[1]) != ep {
				e.Fail("endpoint %d received a message of connection %d for endpoint %d on connection %d", ep, b[0], b[1], ci)
				return
			}
			if n != got[key{ci, ep}] {
				e.Fail("endpoint %d received message %d of connection %d, the next is %d", ep, n, ci, got[key{ci, ep}])
			}
			got[key{ci, ep}]++
		}
		release := make(chan struct{})
		var eps []ustack.EndPoint
		for i, mode := range c.Eps {
			ep := newEP(fmt.Sprint("ep", i), i)
			switch mode {
			case "listener":
				ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { record(i, d) })
			case "stucklistener":
				ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) {
					<-release
					record(i, d)
				})
			}
			r.st.AddEndPoint(ep)
			eps = append(eps, ep)
		}
		r.st.Run()
		gate := make(chan struct{})
		var conns []*memConn
		newConn := func(gated bool) *memConn {
			cn := newMemConn(fmt.Sprint("c", len(conns)))
			cn.items = make(chan readItem, 1<<14)
			if gated {
				cn.gate = gate
			}
			mu.Lock()
			connIdx[cn] = len(conns)
			mu.Unlock()
			conns = append(conns, cn)
			r.tp.offer(cn)
			synctest.Wait()
			return cn
		}
		for i := 0; i < c.Conns; i++ {
			newConn(c.Gated[i])
		}
		collect := func(all bool) {
			for i, mode := range c.Eps {
				if mode == "" || (all && mode == "stuck") {
					for _, d := range drain(eps[i].GetRxChannel()) {
						record(i, d)
					}
				}
			}
		}
		payload := func(conn, ep, n int) []byte {
			return []byte{byte(conn), byte(ep), byte(n >> 16), byte(n >> 8), byte(n), 0x5A}
		}
		wire := func(conn, ep, n int) []byte { return wrap(c.Layers, payload(conn, ep, n), uint32(ep)) }

		sentIn := map[key]int{}
		sentOut := map[key]int{}
		total := make([]int, len(c.Eps)) // inbound per endpoint
		seqIn := make([][]int, c.Conns)  // endpoints in the order of the connection's messages
		seqOut := make([][]int, len(c.Eps))
		txLeft := make([]int, len(c.Eps))
		for i := range eps {
			txLeft[i] = cap(eps[i].GetTxChannel())
		}
		for _, m := range c.Moves {
			for k := 0; k < m.N; k++ {
				if m.In {
					conns[m.Conn].feed(wire(m.Conn, m.Ep, sentIn[key{m.Conn, m.Ep}]))
					sentIn[key{m.Conn, m.Ep}]++
					total[m.Ep]++
					seqIn[m.Conn] = append(seqIn[m.Conn], m.Ep)
					if k%100 == 99 && !c.Batch {
						synctest.Wait()
						collect(false)
					}
				} else if txLeft[m.Ep] > 0 {
					txLeft[m.Ep]--
					eps[m.Ep].GetTxChannel() <- epd(conns[m.Conn], payload(m.Conn, m.Ep, sentOut[key{m.Conn, m.Ep}]))
					sentOut[key{m.Conn, m.Ep}]++
					seqOut[m.Ep] = append(seqOut[m.Ep], m.Conn)
				}
			}
			if !c.Batch {
				synctest.Wait()
				collect(false)
			}
		}
		// somebody new is served as well
		late := newConn(false)
		li := len(conns) - 1
		seqIn = append(seqIn, nil)
		for i, mode := range c.Eps {
			if mode == "" || mode == "listener" {
				late.feed(wire(li, i, 0))
				sentIn[key{li, i}]++
				seqIn[li] = append(seqIn[li], i)
			}
		}
		for n := 0; n < 100; n++ {
			synctest.Wait()
			before := 0
			for i, mode := range c.Eps {
				if mode == "" {
					before += len(eps[i].GetRxChannel())
				}
			}
			collect(false)
			if before == 0 {
				break
			}
		}
		e.Check(!e.Failed(), "see above")

		// everything that does not depend on a stuck endpoint or a gated connection went through
		mu.Lock()
		overloaded := make([]bool, len(c.Eps))
		blocked := 0
		for i, mode := range c.Eps {
			limit := cap(eps[i].GetRxChannel())
			if mode == "stucklistener" {
				limit++
			}
			overloaded[i] = (mode == "stuck" || mode == "stucklistener") && total[i] > limit
			if overloaded[i] {
				blocked++
			}
		}
		for ci, seq := range seqIn {
			must := map[int]int{}
			for _, ep := range seq {
				if overloaded[ep] {
					break
				}
				must[ep]++
			}
			for ep, n := range must {
				if c.Eps[ep] == "stuck" || c.Eps[ep] == "stucklistener" {
					continue // it is in the channel
				}
				e.Check(got[key{ci, ep}] >= n, "%d of %d messages of connection %d reached endpoint %d while others are stuck", got[key{ci, ep}], n, ci, ep)
			}
		}
		for i, mode := range c.Eps {
			if mode == "stuck" && !overloaded[i] {
				// it may be behind something else
				n, all := len(eps[i].GetRxChannel()), true
				for _, seq := range seqIn {
					for _, ep := range seq {
						all = all && !overloaded[ep]
					}
				}
				if all {
					e.Check(n == total[i], "%d messages wait in the channel of endpoint %d, %d were sent", n, i, total[i])
				}
			}
		}
		mu.Unlock()
		outMsgs := func(final bool) {
			for ci, cn := range conns {
				cn.mu.Lock()
				writes := append([][]byte(nil), cn.writes...)
				cn.mu.Unlock()
				next := map[int]int{}
				for _, w := range writes {
					// the layers may send messages of their own
					for ep := range c.Eps {
						if string(w) == string(wire(ci, ep, next[ep])) {
							next[ep]++
							break
						}
					}
				}
				for ep := range c.Eps {
					want := 0
					for _, x := range seqOut[ep] {
						if !final && c.Gated[x] {
							break
						}
						if x == ci {
							want++
						}
					}
					if final {
						e.Check(next[ep] == want, "%d of %d messages of endpoint %d were written in order to connection %d at the end", next[ep], want, ep, ci)
					} else {
						e.Check(next[ep] >= want, "%d of %d messages of endpoint %d were written to connection %d while others are stuck", next[ep], want, ep, ci)
					}
				}
			}
		}
		outMsgs(false)

		// events are handled
		events := make([]int, len(eps)+1)
		for i, ep := range eps {
			ep.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) {
				if ev.Type == ustack.UStackEventEndpointDeleted || ev.Data == any("verif") {
					mu.Lock()
					events[i]++
					mu.Unlock()
				}
			})
		}
		r.st.SetEventListener(func(ev ustack.Event) {
			if ev.Type == ustack.UStackEventEndpointDeleted || ev.Data == any("verif") {
				mu.Lock()
				events[len(eps)]++
				mu.Unlock()
			}
		})
		extra := newEP("extra", 77)
		done := false
		go func() {
			r.st.PublishEvent(ustack.Event{Type: ustack.UStackEventHeartbeatLost, Source: "verif", Data: "verif"})
			r.st.AddEndPoint(extra)
			extra.GetTxChannel() <- epd(late, []byte("extra"))
			mu.Lock()
			done = true
			mu.Unlock()
		}()
		synctest.Wait()
		go r.st.DeleteEndPoint(extra)
		synctest.Wait()
		mu.Lock()
		e.Check(done, "publishing an event or adding an endpoint waits for a stuck one")
		for i, n := range events {
			e.Check(n == 2, "observer %d saw %d of 2 events while others are stuck", i, n)
		}
		mu.Unlock()
		late.mu.Lock()
		transmitted := false
		for _, w := range late.writes {
			transmitted = transmitted || string(w) == string(wrap(c.Layers, []byte("extra"), 77))
		}
		late.mu.Unlock()
		e.Check(transmitted, "the message of an endpoint added while others are stuck was not transmitted")
		// a connection comes and goes
		ended := 0
		leaving := newMemConn("leaving")
		r.st.SetEventListener(func(ev ustack.Event) {
			if ev.Type == ustack.UStackEventConnectionClosed && ev.Data == any(leaving) {
				mu.Lock()
				ended++
				mu.Unlock()
			}
		})
		r.tp.offer(leaving)
		synctest.Wait()
		leaving.feedErr(nil, io.EOF)
		synctest.Wait()
		mu.Lock()
		e.Check(ended == 1 && leaving.Closed(), "the end of a connection was announced %d times while others are stuck, closed: %v", ended, leaving.Closed())
		mu.Unlock()
		time.Sleep(time.Duration(c.Stuck) * time.Second)

		// when they go on nothing is missing
		close(release)
		if c.Close && c.Gated[0] {
			// the first one never goes on
			conns[0].Close()
			e.Class("closed-while-stuck")
		}
		close(gate)
		for n := 0; n < 10000; n++ {
			synctest.Wait()
			before := 0
			for i := range eps {
				before += len(eps[i].GetRxChannel())
			}
			collect(true)
			if before == 0 {
				break
			}
		}
		synctest.Wait()
		e.Check(!e.Failed(), "see above")
		mu.Lock()
		for k, n := range sentIn {
			if c.Close && c.Gated[0] && k.conn == 0 {
				continue
			}
			e.Check(got[k] == n, "endpoint %d received %d of the %d messages of connection %d at the end", k.ep, got[k], n, k.conn)
		}
		mu.Unlock()
		if !(c.Close && c.Gated[0]) {
			outMsgs(true)
		}
		e.ClassIf(blocked > 0, "endpoint-overloaded")
		stuckOut := false
		for ep := range seqOut {
			for _, x := range seqOut[ep] {
				stuckOut = stuckOut || c.Gated[x]
			}
		}
		e.ClassIf(stuckOut, "write-stuck")
		if blocked > 0 || stuckOut {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C21",
		Rule: "a case is a stack with 2 to 4 endpoints, some of which do not take their data (channel or listener), 2 to 4 connections, some of which do not accept data, and batches of up to 600 messages in both directions; what does not depend on a stuck one has to go through at once, the rest completely and in order when it goes on; the same between two stacks over bounded byte streams (fake clock, up to hours) and over real sockets for 11 seconds and more; non-trivial: an endpoint's channel overflows or a write is stuck, or (stream, sockets) messages were sent",
		Parts: []Part{
			part("stuck", 400, genBpCase, runBpCase),
			part("stream", 80, genStreamCase, runStreamCase),
			part("sockets", 1, genIdleCase, runStackIdleCase).real().few(),
		},
	})
}
