package verif

import (
	"bytes"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C19: a running stack may be used from any goroutine
//
// The race detector judges memory accesses, the rest of the oracle judges
// that everything still works afterwards.

type RaceOp struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	C  int    `json:"c"`
}

type RaceCase struct {
	Layers  []Layer    `json:"layers"`
	Codec   string     `json:"codec"`
	Conns   int        `json:"conns"`
	Threads [][]RaceOp `json:"threads"`
	Shared  bool       `json:"shared,omitempty"` // the goroutines use the same endpoints and transports
}

func genRaceCase(t *rapid.T) RaceCase {
	c := RaceCase{Conns: drawUni(t, 1, 4, "conns"), Codec: drawOf(t, "codec", codecNames...)}
	c.Layers = genLayers(t, []string{"session", "frame", "stat", "heartbeat", "flow", "filter", "forwarder", "lb", "discarder", "echo"}, 6)
	for i := range c.Layers {
		if k := c.Layers[i].Kind; k == "lb" || (k == "discarder" && drawPct(t, 80, "off")) || (k == "echo" && drawPct(t, 80, "off")) {
			c.Layers[i].Off = true
		}
	}
	c.Shared = drawPct(t, 40, "shared")
	for i, n := 0, drawUni(t, 2, 5, "threads"); i < n; i++ {
		var th []RaceOp
		for k, m := 0, drawUni(t, 1, 25, "ops"); k < m; k++ {
			th = append(th, RaceOp{
				Op: drawOf(t, "op", "addep", "delep", "addtp", "deltp", "listen", "publish", "offer", "send", "send", "send", "feed", "feed", "feed", "close", "closed", "datalistener", "nolistener", "eventlistener", "get", "uselistener", "userlistener", "usedata", "sleep", "chunk"),
				I:  drawUni(t, 0, 2, "i"), C: drawUni(t, 0, 9, "c"),
			})
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func runRaceCase(e *Env, c RaceCase) {
	e.Bubble(func() {
		st := ustack.NewUStack().SetOption("MTU", 1024).AppendDataProcessor(newCodec(c.Codec))
		for _, l := range c.Layers {
			st.AppendDataProcessor(newLayer(l))
		}
		main := newMemTransport("main")
		st.AddTransport(main)
		base := newEP("base", 0)
		st.AddEndPoint(base)
		st.Run()
		var mu sync.Mutex
		var conns []*memConn
		addConn := func(tp *memTransport) {
			k := newMemConn(fmt.Sprint("c", unique()))
			if tp.offer(k) {
				mu.Lock()
				conns = append(conns, k)
				mu.Unlock()
			}
		}
		for i := 0; i < c.Conns; i++ {
			addConn(main)
		}
		synctest.Wait()
		conn := func(i int) *memConn {
			mu.Lock()
			defer mu.Unlock()
			return conns[i%len(conns)]
		}
		m := Msg{ID: 1, N: 20}
		if c.Codec == "json" || c.Codec == "gob" {
			m.Rec = &Rec{ID: 5, Name: "abc"}
		}
		payload := func() interface{} { return m.value(c.Codec) }
		image := func(session int) []byte { return wrap(c.Layers, m.encoded(c.Codec), uint32(session)) }

		var wg sync.WaitGroup
		var sharedEps []ustack.EndPoint
		var sharedTps []*memTransport
		for ti, th := range c.Threads {
			var eps []ustack.EndPoint
			var tps []*memTransport
			for i := 0; i < 3; i++ {
				if c.Shared && ti > 0 {
					eps, tps = sharedEps, sharedTps
					break
				}
				eps = append(eps, newEP(fmt.Sprint("E", ti, i), 1+ti*3+i))
				tps = append(tps, newMemTransport(fmt.Sprint("T", ti, i)))
			}
			sharedEps, sharedTps = eps, tps
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				for n, op := range th {
					ep, tp := eps[op.I], tps[op.I]
					switch op.Op {
					case "addep":
						st.AddEndPoint(ep)
					case "delep":
						st.DeleteEndPoint(ep)
					case "addtp":
						st.AddTransport(tp)
						addConn(tp)
					case "deltp":
						st.DeleteTransport(tp)
					case "listen":
						st.SetEventListener(func(ustack.Event) {})
					case "publish":
						st.PublishEvent(ustack.Event{Type: 1000, Source: ti, Data: n})
					case "offer":
						addConn(main)
					case "send":
						for j := 0; j < 5; j++ {
							select {
							case ep.GetTxChannel() <- epd(conn(op.C), payload()):
							default:
							}
							select {
							case base.GetTxChannel() <- epd(conn(op.C+j), payload()):
							default:
							}
						}
					case "feed":
						for j := 0; j < 5; j++ {
							select {
							case conn(op.C + j).items <- readItem{data: image(j)}:
							default:
							}
						}
					case "chunk":
						k := newMemConn(fmt.Sprint("c", unique()))
						if main.offer(k) {
							b := image(0)
							k.feed(b[:len(b)/2])
							k.feed(b[len(b)/2:])
						}
					case "close":
						if op.C > 6 {
							conn(op.C).Close()
						}
					case "closed":
						conn(op.C).Closed()
					case "datalistener":
						ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
						base.SetDataListener(func(x ustack.EndPoint, d ustack.EndPointData) { d.GetData() })
					case "nolistener":
						ep.SetDataListener(nil)
						base.SetDataListener(nil)
					case "eventlistener":
						ep.SetEventListener(func(x ustack.EndPoint, ev ustack.Event) { x.GetSession() })
						base.SetEventListener(func(x ustack.EndPoint, ev ustack.Event) { x.GetName() })
					case "uselistener":
						// a listener that uses the stack
						st.SetEventListener(func(ev ustack.Event) {
							st.GetEndPoint()
							st.GetTransport()
							if ev.Type == ustack.UStackEventNewConnection {
								st.AddEndPoint(ep)
							} else if ev.Type == ustack.UStackEventConnectionClosed {
								st.DeleteEndPoint(ep)
								st.PublishEvent(ustack.Event{Type: 1001})
							}
						})
					case "userlistener":
						ep.SetEventListener(func(x ustack.EndPoint, ev ustack.Event) {
							if ev.Type == 1000 {
								x.SetDataListener(nil)
								st.DeleteTransport(tp)
							} else if ev.Type == 1001 {
								st.DeleteEndPoint(x)
							}
						})
					case "usedata":
						ep.SetDataListener(func(x ustack.EndPoint, d ustack.EndPointData) {
							select {
							case x.GetTxChannel() <- epd(d.GetConnection(), payload()):
							default:
							}
							st.DeleteEndPoint(x)
							x.SetDataListener(nil)
							st.AddTransport(tp)
						})
					case "get":
						for _, x := range st.GetEndPoint() {
							x.GetSession()
						}
						for _, x := range st.GetTransport() {
							x.GetName()
						}
						st.GetMTU()
						st.GetOverhead()
					case "sleep":
						time.Sleep(time.Duration(op.C) * 300 * time.Millisecond)
					}
				}
			})
		}
		wg.Wait()
		if e.Failed() {
			return
		}
		// whatever happened, it still works
		base.SetDataListener(nil)
		synctest.Wait()
		for len(drain(base.GetRxChannel())) > 0 {
			synctest.Wait()
		}
		blocked := false
		for _, l := range c.Layers {
			if !l.Off && (l.Kind == "discarder" || l.Kind == "echo") {
				blocked = true
			}
		}
		k := newMemConn("last")
		main.offer(k)
		synctest.Wait()
		k.take()
		base.GetTxChannel() <- epd(k, payload())
		synctest.Wait()
		got := k.take()
		n := 0
		for _, w := range got {
			if bytes.Equal(w, image(0)) {
				n++
			}
		}
		if c.Codec != "json" && c.Codec != "gob" {
			e.Check(n == 1, "afterwards: %d of 1 messages were sent", n)
		} else {
			e.Check(len(got) >= 1, "afterwards: nothing was sent")
		}
		k.feed(image(0))
		synctest.Wait()
		in := drain(base.GetRxChannel())
		if !blocked {
			e.Check(len(in) == 1, "afterwards: %d of 1 messages were received", len(in))
		}
		e.NonTrivial()
		e.ClassIf(len(c.Threads) > 2, "three-threads")
	})
}

// ---- many senders above a loopback, which returns everything in their goroutines

type LoopParCase struct {
	Layers []Layer `json:"layers"`
	Eps    int     `json:"eps"`
	Each   int     `json:"each"`
	Conns  int     `json:"conns"` // shared by the endpoints, 0: without connection
}

func genLoopParCase(t *rapid.T) LoopParCase {
	c := LoopParCase{Eps: drawUni(t, 2, 5, "eps"), Each: drawUni(t, 1, 60, "each"), Conns: drawUni(t, 0, 2, "conns")}
	c.Layers = genLayers(t, []string{"frame", "frame", "stat", "heartbeat", "flow", "filter", "forwarder", "probe"}, 4)
	i := drawUni(t, 0, len(c.Layers), "session")
	c.Layers = append(c.Layers[:i:i], append([]Layer{{Kind: "session"}}, c.Layers[i:]...)...)
	return c
}

func runLoopParCase(e *Env, c LoopParCase) {
	e.Bubble(func() {
		st := ustack.NewUStack().SetOption("MTU", 256).AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range c.Layers {
			st.AppendDataProcessor(newLayer(l))
		}
		st.AppendDataProcessor(ustack.NewLoopback())
		tp := newMemTransport("main")
		st.AddTransport(tp)
		var eps []ustack.EndPoint
		for i := 0; i < c.Eps; i++ {
			eps = append(eps, newEP(fmt.Sprint("e", i), i))
			st.AddEndPoint(eps[i])
		}
		st.Run()
		var conns []ustack.TransportConnection
		for i := 0; i < c.Conns; i++ {
			k := newMemConn(fmt.Sprint("c", i))
			tp.offer(k)
			conns = append(conns, k)
		}
		synctest.Wait()
		conn := func(i int) ustack.TransportConnection {
			if len(conns) == 0 {
				return nil
			}
			return conns[i%len(conns)]
		}
		var wg sync.WaitGroup
		for i, ep := range eps {
			wg.Add(1)
			e.Go(func() {
				defer wg.Done()
				for j := 0; j < c.Each; j++ {
					ep.GetTxChannel() <- epd(conn(i+j), pattern(i*1000+j, 1+(i+j)%50))
				}
			})
		}
		wg.Wait()
		synctest.Wait()
		for i, ep := range eps {
			got := drain(ep.GetRxChannel())
			e.Check(len(got) == c.Each, "endpoint %d sent %d messages, %d came back", i, c.Each, len(got))
			for j, d := range got {
				b, _ := d.GetData().([]byte)
				e.Check(bytes.Equal(b, pattern(i*1000+j, 1+(i+j)%50)) && d.GetConnection() == conn(i+j), "endpoint %d: message %d came back different", i, j)
			}
		}
		if c.Each > 1 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C19",
		Rule: "a case runs in a binary with the race detector: two to five goroutines add and delete endpoints and transports, set listeners, publish, connect, send, receive and close on one running stack with random layers (stack), or whole stacks talk over real sockets (endtoend), sockets and reference transports are run, stopped and run again (lifecycle, retry, reference), an endpoint's listeners change (listener), or the histories of the other properties run with the detector (dynamic, connections, stream, stuck, events, same, frames, counters, heartbeat, loopback); a report of the race detector, a crash, a hang, or a stack that does not work afterwards is a failure; every case is non-trivial that has at least two goroutines working",
		Parts: []Part{
			part("stack", 250, genRaceCase, runRaceCase).race(),
			part("endtoend", 12, func(t *rapid.T) E2ECase {
				c := genE2ECase(t)
				c.Up, c.Down = c.Up%100+1, c.Down%100+1
				return c
			}, runE2ECase).real().race(),
			part("lifecycle", 25, genSockParCase, runSockParCase).real().race(),
			part("lifecycle-client", 40, genSockCliCase, runSockCliCase).real().race(),
			part("lifecycle-server", 40, genSockCase, runSockCase).real().race(),
			part("retry", 25, genRetryCase, runRetryCase).real().race(),
			part("reference", 25, func(t *rapid.T) RefParCase {
				c := genRefParCase(t)
				c.N = c.N%40 + 11
				return c
			}, runRefParCase).race(),
			part("frames", 25, func(t *rapid.T) MultiCase { return genMultiCase(t, true) }, runMultiCase).race(),
			part("listener", 150, genLisCase, runLisCase).race(),
			part("counters", 25, func(t *rapid.T) StatParCase {
				c := genStatParCase(t)
				c.In, c.Out = c.In%80+51, c.Out%80+51
				return c
			}, runStatParCase).race(),
			part("heartbeat", 60, genHbCase, runHbCase).race(),
			part("reference-lifecycle", 60, genRefLifeCase, runRefLifeCase).race(),
			part("loopback", 60, genLoopParCase, runLoopParCase).race(),
			part("dynamic", 60, genDynCase, runDynCase).race(),
			part("connections", 60, genLifeCase, runLifeCase).race(),
			part("stream", 12, genStreamCase, runStreamCase).race(),
			part("stuck", 15, genBpCase, runBpCase).race(),
			part("events", 20, genEvPar, runEvPar).race(),
			part("same", 40, genEvSame, runEvSame).race(),
		},
	})
}
