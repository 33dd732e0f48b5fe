package verif

import (
	"bytes"
	"fmt"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C11: endpoints and transports come and go while the stack runs

type DynOp struct {
	Op string `json:"op"`
	E  int    `json:"e"`
	T  int    `json:"t"`
	C  int    `json:"c"`
	N  int    `json:"n"`
}

type DynCase struct {
	Rep   int     `json:"rep,omitempty"`   // the steps are done that many times
	Crowd int     `json:"crowd,omitempty"` // that many other endpoints and transports are there
	Ops   []DynOp `json:"ops"`
}

const dynEps, dynTps = 4, 3

// endpoints 0 and 3 have the same session, only one of them is registered at a time
var dynSession = []int{5, 6, 0, 5}

func genDynCase(t *rapid.T) DynCase {
	var c DynCase
	if drawPct(t, 4, "crowd") {
		c.Crowd = drawUni(t, 5, 90, "crowdn")
		if drawPct(t, 15, "huge") {
			c.Crowd = drawUni(t, 130, 300, "crowdhuge")
		}
	}
	n := drawUni(t, 2, 18, "n")
	runAt := drawUni(t, 0, 8, "runat")
	if drawPct(t, 65, "setup") {
		runAt = 100
		setup := []DynOp{{Op: "addep"}, {Op: "addep", E: 1}, {Op: "addtp"}, {Op: "run"}, {Op: "addep", E: 2}, {Op: "conn"}, {Op: "conn"}}
		if drawBool(t, "runfirst") {
			setup[0], setup[3] = setup[3], setup[0]
		}
		if drawBool(t, "twotransports") {
			setup[6].T = 1
			setup = append(setup[:3:3], append([]DynOp{{Op: "addtp", T: 1}}, setup[3:]...)...)
		}
		c.Ops = append(c.Ops, setup...)
	}
	for i := 0; i < n; i++ {
		if i == runAt {
			c.Ops = append(c.Ops, DynOp{Op: "run"})
		}
		op := DynOp{
			E: drawUni(t, 0, dynEps-1, "e"), T: drawUni(t, 0, dynTps-1, "t"), C: drawUni(t, 0, 9, "c"), N: drawUni(t, 1, 60, "n"),
		}
		switch drawUni(t, 0, 20, "op") {
		case 0, 1, 2:
			op.Op = "addep"
		case 3:
			op.Op = drawOf(t, "del", "delep", "delep", "resession")
		case 4, 5, 6:
			op.Op = "addtp"
		case 7:
			op.Op = "deltp"
		case 8, 9, 10:
			op.Op = "conn"
		case 11, 12, 13:
			op.Op = "feed"
		case 14, 15, 16:
			op.Op = "send"
		case 17, 18:
			op.Op = drawOf(t, "block", "block-del", "block-del-add", "block-deltp", "fail-del", "fail-deltp", "fail-add")
		case 19:
			op.Op = drawOf(t, "x", "close", "send-partial-feed")
		default:
			op.Op = drawOf(t, "flood", "flood-del", "send", "feed", "feed")
		}
		c.Ops = append(c.Ops, op)
	}
	if runAt >= n && runAt != 100 {
		c.Ops = append(c.Ops, DynOp{Op: "run"})
	}
	return c
}

func runDynCase(e *Env, c DynCase) {
	e.Bubble(func() {
		layers := []Layer{{Kind: "session"}, {Kind: "frame"}}
		st := ustack.NewUStack().SetOption("MTU", 256)
		st.AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range layers {
			st.AppendDataProcessor(newLayer(l))
		}
		dynSession := append([]int(nil), dynSession...)
		eps := make([]ustack.EndPoint, dynEps)
		has := make([]bool, dynEps)
		for i := range eps {
			eps[i] = newAnyEP(fmt.Sprint("E", i), dynSession[i])
		}
		tps := make([]*memTransport, dynTps)
		hasT := make([]bool, dynTps)
		runs, stops := make([]int, dynTps), make([]int, dynTps)
		for i := range tps {
			tps[i] = newMemTransport(fmt.Sprint("T", i))
		}
		type cstate struct {
			*memConn
			tp     int
			closed bool
		}
		var conns []*cstate
		running := false
		// what the application does when it hears of the end of a connection
		var onClosed func()
		onClosedDone := make(chan struct{}, 100)
		st.SetEventListener(func(ev ustack.Event) {
			if f := onClosed; ev.Type == ustack.UStackEventConnectionClosed && f != nil {
				onClosed = nil
				f()
				onClosedDone <- struct{}{}
			}
		})
		interesting := 0

		served := func(session int) int {
			for i := range eps {
				if has[i] && running && dynSession[i] == session {
					return i
				}
			}
			return -1
		}
		settle := func(at string) {
			synctest.Wait()
			for i := range eps {
				n := 0
				for _, x := range st.GetEndPoint() {
					if x == eps[i] {
						n++
					}
				}
				e.Check((n == 1) == has[i] && n < 2, "%s: GetEndPoint has endpoint %d %d times, added: %v", at, i, n, has[i])
			}
			for i := range tps {
				n := 0
				for _, x := range st.GetTransport() {
					if x == ustack.Transport(tps[i]) {
						n++
					}
				}
				e.Check((n == 1) == hasT[i] && n < 2, "%s: GetTransport has transport %d %d times, added: %v", at, i, n, hasT[i])
			}
			for i, cs := range conns {
				e.Check(cs.Closed() == cs.closed, "%s: connection %d closed: %v, expected %v", at, i, cs.Closed(), cs.closed)
			}
			for i, tp := range tps {
				tp.mu.Lock()
				r, s, on := tp.runs, tp.stops, tp.running
				tp.mu.Unlock()
				e.Check(r == runs[i], "%s: transport %d was run %d times, expected %d", at, i, r, runs[i])
				e.Check(s == stops[i], "%s: transport %d was stopped %d times, expected %d", at, i, s, stops[i])
				e.Check(on == (hasT[i] && running), "%s: transport %d running: %v, expected %v", at, i, on, hasT[i] && running)
			}
		}
		// nothing anywhere except what is expected
		quiet := func(at string) {
			for i := range eps {
				got := drain(eps[i].GetRxChannel())
				e.Check(len(got) == 0, "%s: endpoint %d got %d messages out of nowhere", at, i, len(got))
			}
			for i, cs := range conns {
				w := cs.take()
				e.Check(len(w) == 0, "%s: %d writes on connection %d out of nowhere", at, len(w), i)
			}
		}
		pick := func(k int) *cstate {
			if len(conns) == 0 {
				return nil
			}
			return conns[k%len(conns)]
		}
		wire := func(session int, p []byte) []byte { return wrap(layers, p, uint32(session)) }

		delep := func(i int) {
			st.DeleteEndPoint(eps[i])
			has[i] = false
		}
		addep := func(i int) bool {
			for j := range eps {
				if j != i && has[j] && dynSession[j] == dynSession[i] {
					return false
				}
			}
			if !has[i] {
				drain(eps[i].GetTxChannel()) // what is left from before is not specified
			}
			st.AddEndPoint(eps[i])
			has[i] = true
			return true
		}
		feedOne := func(at string, cs *cstate, session int, p []byte) {
			cs.feed(wire(session, p))
			synctest.Wait()
			to := served(session)
			for i := range eps {
				got := drain(eps[i].GetRxChannel())
				if i != to {
					e.Check(len(got) == 0, "%s: endpoint %d got data for session %d", at, i, session)
					continue
				}
				e.Check(len(got) == 1, "%s: endpoint %d got %d messages, 1 was sent to it", at, i, len(got))
				b, _ := got[0].GetData().([]byte)
				e.Check(bytes.Equal(b, p) && got[0].GetConnection() == ustack.TransportConnection(cs.memConn), "%s: endpoint %d got something else", at, i)
			}
		}
		sendOne := func(at string, i int, cs *cstate, p []byte) {
			eps[i].GetTxChannel() <- epd(cs.memConn, p)
			synctest.Wait()
			out := cs.take()
			if !has[i] || !running {
				e.Check(len(out) == 0, "%s: endpoint %d is not registered but its data was sent", at, i)
				drain(eps[i].GetTxChannel())
			} else if !cs.closed {
				e.Check(len(out) == 1 && bytes.Equal(out[0], wire(dynSession[i], p)), "%s: endpoint %d sent one message, on the wire: %d writes", at, i, len(out))
			}
		}

		var crowd []ustack.EndPoint
		var crowdT []*memTransport
		for i := 0; i < c.Crowd; i++ {
			crowd = append(crowd, newEP(fmt.Sprint("crowd ", i), 5000+i))
			st.AddEndPoint(crowd[i])
			if i%2 == 0 {
				crowdT = append(crowdT, newMemTransport(fmt.Sprint("crowd ", i)))
				st.AddTransport(crowdT[i/2])
			}
		}

		for n, op := range repeated(c.Ops, c.Rep) {
			at := fmt.Sprintf("op %d (%s)", n, op.Op)
			cs := pick(op.C)
			switch op.Op {
			case "run":
				if !running {
					running = true
					for i := range tps {
						if hasT[i] {
							runs[i]++
						}
					}
					// what was sent before is not specified
					for i := range eps {
						drain(eps[i].GetTxChannel())
					}
					st.Run()
				}
			case "addep":
				if addep(op.E) {
					if running {
						interesting++
					}
					break
				}
				// another endpoint has the session: this one is listed but does not take part
				st.AddEndPoint(eps[op.E])
				has[op.E] = true
				settle(at)
				if cs != nil && !cs.closed && running {
					cs.feed(wire(dynSession[op.E], pattern(n, max(1, op.N))))
					synctest.Wait()
					twin := 3 - op.E
					got := drain(eps[twin].GetRxChannel())
					e.Check(len(got) == 1, "%s: endpoint %d got %d messages, 1 was sent to it", at, twin, len(got))
				}
				quiet(at)
				delep(op.E)
				e.Class("same-session")
			case "resession":
				// an endpoint that is not registered gets another session
				delep(op.E)
				settle(at)
				used := false
				for i := range eps {
					used = used || (i != op.E && dynSession[i] == 40+op.N%3)
				}
				if used || op.E == 0 || op.E == 3 {
					break
				}
				dynSession[op.E] = 40 + op.N%3
				eps[op.E].SetSession(dynSession[op.E])
				if op.N%2 == 0 {
					addep(op.E)
				}
				e.Class("other-session")
			case "delep":
				if has[op.E] && running {
					interesting++
					e.Class("deleted-endpoint")
				}
				delep(op.E)
			case "addtp":
				if !hasT[op.T] {
					hasT[op.T] = true
					if running {
						runs[op.T]++
						e.ClassIf(runs[op.T] > 1, "transport-again")
					}
				}
				st.AddTransport(tps[op.T])
			case "deltp":
				if hasT[op.T] {
					hasT[op.T] = false
					if running {
						stops[op.T]++
						interesting++
						for _, x := range conns {
							if x.tp == op.T {
								x.closed = true
							}
						}
					}
				}
				st.DeleteTransport(tps[op.T])
			case "conn":
				if running && hasT[op.T] {
					x := &cstate{memConn: newMemConn(fmt.Sprint("c", len(conns))), tp: op.T}
					settle(at)
					e.Check(tps[op.T].offer(x.memConn), "%s: the transport does not run", at)
					conns = append(conns, x)
					// it is served at once
					if to := served(0); to >= 0 {
						synctest.Wait()
						feedOne(at, x, 0, pattern(n, 9))
					}
				}
			case "feed":
				if cs != nil && !cs.closed {
					settle(at)
					feedOne(at, cs, dynSession[op.E], pattern(n, op.N))
				}
			case "send":
				if cs != nil {
					settle(at)
					sendOne(at, op.E, cs, pattern(n, op.N))
				}
			case "send-partial-feed":
				// a frame in two pieces around a change of the endpoints
				if cs != nil && !cs.closed && running {
					settle(at)
					w := wire(dynSession[op.E], pattern(n, op.N))
					k := 1 + op.N%(len(w)-1)
					cs.feed(w[:k])
					synctest.Wait()
					st.AddEndPoint(newEP("extra", 1000+n))
					cs.feed(w[k:])
					synctest.Wait()
					if to := served(dynSession[op.E]); to >= 0 {
						got := drain(eps[to].GetRxChannel())
						e.Check(len(got) == 1, "%s: endpoint %d got %d messages, 1 was sent to it", at, to, len(got))
					}
				}
			case "close":
				if cs != nil {
					cs.Close()
					cs.closed = true
				}
			case "block-del", "block-del-add", "block-deltp":
				// the endpoint is deleted while its data is stuck in a write
				if cs == nil || cs.closed || !running || !has[op.E] || (op.Op == "block-deltp" && !hasT[cs.tp]) {
					break
				}
				settle(at)
				quiet(at)
				gate := make(chan struct{})
				cs.setGate(gate)
				first, second, third := pattern(n, op.N), pattern(n+1000, op.N), pattern(n+2000, op.N)
				eps[op.E].GetTxChannel() <- epd(cs.memConn, first)
				synctest.Wait()
				eps[op.E].GetTxChannel() <- epd(cs.memConn, second)
				synctest.Wait()
				interesting++
				e.Class(op.Op)
				if op.Op == "block-deltp" {
					hasT[cs.tp] = false
					stops[cs.tp]++
					for _, x := range conns {
						if x.tp == cs.tp {
							x.closed = true
						}
					}
					st.DeleteTransport(tps[cs.tp])
					synctest.Wait()
					close(gate)
					cs.setGate(nil)
					synctest.Wait()
					for _, x := range conns {
						x.take()
					}
					break
				}
				delep(op.E)
				synctest.Wait()
				var again [][]byte
				if op.Op == "block-del-add" {
					drain(eps[op.E].GetTxChannel())
					addep(op.E)
					synctest.Wait()
					// goes around the blocked connection
					var other *cstate
					for _, x := range conns {
						if !x.closed && x != cs {
							other = x
						}
					}
					if other != nil {
						sendOne(at+" other connection", op.E, other, third)
					}
					// and then to the blocked one
					for k := 0; k < op.N%7; k++ {
						again = append(again, wire(dynSession[op.E], pattern(n+5000+k, op.N)))
						eps[op.E].GetTxChannel() <- epd(cs.memConn, pattern(n+5000+k, op.N))
					}
					synctest.Wait()
				}
				close(gate)
				cs.setGate(nil)
				synctest.Wait()
				out := cs.take()
				if len(again) > 0 {
					// the message in transmission and the new ones are written by different
					// goroutines, when they go on their order is open
					for k := range out {
						if bytes.Equal(out[k], wire(dynSession[op.E], first)) {
							x := out[k]
							copy(out[1:k+1], out[:k])
							out[0] = x
							break
						}
					}
					e.Check(len(out) > 0 && len(out)-1 == len(again), "%s: %d messages were sent after the endpoint was added again, and one was in transmission: %d were transmitted", at, len(again), len(out))
					for k := range again {
						e.Check(bytes.Equal(out[k+1], again[k]), "%s: message %d after the endpoint was added again was not transmitted, or in another order", at, k)
					}
					out = out[:1]
					e.Class("block-del-add-send")
				}
				e.Check(len(out) == 1 && bytes.Equal(out[0], wire(dynSession[op.E], first)), "%s: after the endpoint was deleted %d of its messages were sent, one was in transmission", at, len(out))
				if op.Op == "block-del-add" {
					for k := 0; k < 3; k++ {
						sendOne(at+" added again", op.E, cs, pattern(n+3000+k, op.N))
					}
				} else {
					drain(eps[op.E].GetTxChannel())
				}
			case "fail-del", "fail-deltp", "fail-add":
				// a write fails, and the application changes the stack when it hears of it
				if cs == nil || cs.closed || !running || !has[op.E] || !hasT[cs.tp] {
					break
				}
				settle(at)
				quiet(at)
				cs.setFailAfter(1)
				onClosed = func() {
					switch op.Op {
					case "fail-del":
						st.DeleteEndPoint(eps[op.E])
					case "fail-deltp":
						st.DeleteTransport(tps[cs.tp])
					default:
						st.AddEndPoint(newEP("extra", 2000+n))
					}
				}
				started := time.Now()
				eps[op.E].GetTxChannel() <- epd(cs.memConn, pattern(n, op.N))
				synctest.Wait()
				select {
				case <-onClosedDone:
				default:
					e.Fail("%s: the call from the listener that hears of the failed connection did not return (or there was no event)", at)
					return
				}
				e.Check(time.Since(started) == 0, "%s: took %v", at, time.Since(started))
				cs.closed = true
				cs.take()
				switch op.Op {
				case "fail-del":
					has[op.E] = false
				case "fail-deltp":
					hasT[cs.tp] = false
					stops[cs.tp]++
					for _, x := range conns {
						if x.tp == cs.tp {
							x.closed = true
						}
					}
				}
				interesting++
				e.Class(op.Op)
			case "flood-del":
				// the endpoint does not read, its channel fills up, it is deleted: the
				// connection goes on for the others
				if cs == nil || cs.closed || !running || !has[op.E] || cap(eps[op.E].GetRxChannel()) > 1000 {
					break
				}
				settle(at)
				quiet(at)
				total := cap(eps[op.E].GetRxChannel()) + 2
				for k := 0; k < total; k++ {
					cs.feed(wire(dynSession[op.E], pattern(k, 3)))
				}
				session := 6
				if dynSession[op.E] == 6 {
					session = 0
				}
				other := served(session)
				cs.feed(wire(session, pattern(n+4000, 7)))
				synctest.Wait()
				delep(op.E)
				synctest.Wait()
				e.Class("flood-del")
				interesting++
				if other >= 0 {
					e.Class("flood-del-other")
					got := drain(eps[other].GetRxChannel())
					e.Check(len(got) == 1, "%s: the connection is stuck: endpoint %d got %d messages after endpoint %d was deleted, expected 1", at, other, len(got), op.E)
				}
				drain(eps[op.E].GetRxChannel())
			}
			settle(at)
			quiet(at)
		}
		for i, ep := range crowd {
			if !running {
				break
			}
			cm := newMemConn("crowd")
			e.Check(crowdT[i/2].offer(cm), "at the end: transport %d of the crowd does not run", i/2)
			synctest.Wait()
			cm.feed(wire(5000+i, pattern(i, 9)))
			ep.GetTxChannel() <- epd(cm, pattern(i, 11))
			synctest.Wait()
			got := drain(ep.GetRxChannel())
			e.Check(len(got) == 1, "at the end: endpoint %d of the crowd got %d messages, 1 was sent to it", i, len(got))
			out := cm.take()
			e.Check(len(out) == 1 && bytes.Equal(out[0], wire(5000+i, pattern(i, 11))), "at the end: endpoint %d of the crowd sent one message, on the wire: %d writes", i, len(out))
			e.Class("crowd")
		}
		if running && interesting > 0 && len(conns) > 0 {
			e.NonTrivial()
		}
		e.ClassIf(running, "ran")
		e.ClassIf(len(conns) > 1, "two-connections")
	})
}

func init() {
	register(&Property{
		ID:   "C11",
		Rule: "a case is a history of adding and deleting endpoints and transports, before and after Run, with new connections, received and sent messages, and deletions while the endpoint's data is stuck in a write or its receive channel is full; after every step what flows and which transports run is compared with a model; non-trivial: at least one connection and one change of a running stack; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("history", 2500, genDynCase, runDynCase),
			part("long", 60, func(t *rapid.T) DynCase {
				c := genDynCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runDynCase),
		},
	})
}
