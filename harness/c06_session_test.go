package verif

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C06: data reaches the endpoint of its destination session, nobody else

type SessSend struct {
	Side int   `json:"side"` // 0: a sends, 1: b sends
	From int   `json:"from"` // index of the sending endpoint
	Dest int64 `json:"dest"` // -1: not set
	Via  int   `json:"via"`  // connection
	// reuse the EndPointData: set another destination first, then clear it
	Cleared bool `json:"cleared,omitempty"`
	// the EndPointData of the send before, or one that was received, is
	// changed and sent: 0 neither, 1 sent, 2 received
	Reuse int `json:"reuse,omitempty"`
	Again int `json:"again,omitempty"` // the same EndPointData is sent that many times more
}

type SessCase struct {
	Rep    int        `json:"rep,omitempty"` // the steps are done that many times
	Mode   string     `json:"mode"`          // on, off, absent
	Above  []Layer    `json:"above"`
	Below  []Layer    `json:"below"`
	SessA  []int64    `json:"sa"`
	SessB  []int64    `json:"sb"`
	Conns  int        `json:"conns"`
	Late   int        `json:"late"` // that many endpoints of b are added after Run
	Sends  []SessSend `json:"sends"`
	AtOnce bool       `json:"once,omitempty"` // look at the results only at the end
	Join   bool       `json:"join,omitempty"` // then all that was written arrives in one piece
}

func genSession(t *rapid.T) int64 {
	return drawOf(t, "session", 0, 1, 2, 3, 255, 256, 65535, 65536, 1<<24, 1<<31-1, 1<<31, 1<<32-1,
		int64(drawUni(t, 0, 1<<24, "s")), 0x01020304, 0x04030201)
}

func genSessCase(t *rapid.T) SessCase {
	c := SessCase{Mode: drawOf(t, "mode", "on", "on", "on", "on", "off", "absent")}
	c.Above = genLayers(t, []string{"stat", "flow", "filter", "probe"}, 2)
	c.Below = genLayers(t, []string{"stat", "flow", "frame", "forwarder", "heartbeat"}, 2)
	na, nb := drawUni(t, 1, 4, "na"), drawUni(t, 1, 5, "nb")
	if drawPct(t, 3, "many") {
		nb = drawUni(t, 10, 80, "nbmany")
		if drawPct(t, 45, "huge") {
			nb = drawUni(t, 130, 300, "nbhuge")
		}
	}
	for i := 0; i < na; i++ {
		c.SessA = append(c.SessA, genSession(t))
	}
	for i := 0; i < nb; i++ {
		s := genSession(t)
		if nb >= 10 {
			s = int64(drawUni(t, 0, 1<<20, "s"))
		}
		same, match := 30, 40
		if nb >= 10 {
			same, match = 8, 8
		}
		if drawPct(t, same, "same") && i > 0 {
			s = c.SessB[drawUni(t, 0, i-1, "dup")]
		} else if drawPct(t, match, "matching") {
			s = c.SessA[drawUni(t, 0, na-1, "match")]
		}
		c.SessB = append(c.SessB, s)
	}
	c.Conns = drawUni(t, 1, 3, "conns")
	c.Late = drawUni(t, 0, nb, "late")
	c.AtOnce = drawPct(t, 30, "once")
	if c.AtOnce && drawBool(t, "join") {
		c.Join = true
		var below []Layer
		for _, l := range c.Below {
			if l.Kind != "frame" {
				below = append(below, l)
			}
		}
		c.Below = append(below, Layer{Kind: "frame"})
	}
	n := drawUni(t, 1, 14, "n")
	for i := 0; i < n; i++ {
		s := SessSend{Side: drawOf(t, "side", 0, 0, 1), Dest: -1, Via: drawUni(t, 0, c.Conns-1, "via")}
		own, other := c.SessA, c.SessB
		if s.Side == 1 {
			own, other = c.SessB, c.SessA
		}
		s.From = drawUni(t, 0, len(own)-1, "from")
		switch drawUni(t, 0, 3, "dest") {
		case 0:
		case 1, 2:
			s.Dest = other[drawUni(t, 0, len(other)-1, "to")]
		default:
			s.Dest = genSession(t)
		}
		s.Cleared = s.Dest < 0 && drawPct(t, 50, "cleared")
		if drawPct(t, 30, "used") {
			s.Reuse = drawUni(t, 1, 2, "reuse")
		}
		s.Again = max(0, drawUni(t, -4, 2, "again"))
		c.Sends = append(c.Sends, s)
	}
	return c
}

func runSessCase(e *Env, c SessCase) {
	e.Bubble(func() {
		build := func(name string) *rig {
			procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
			procs = append(procs, layersOf(c.Above)...)
			if c.Mode != "absent" {
				procs = append(procs, newLayer(Layer{Kind: "session", Off: c.Mode == "off"}))
			}
			procs = append(procs, layersOf(c.Below)...)
			return newRig(name, 512, procs...)
		}
		rigs := []*rig{build("a"), build("b")}
		sess := [][]int64{c.SessA, c.SessB}
		eps := make([][]ustack.EndPoint, 2)
		first := []map[int64]int{{}, {}} // session -> the endpoint that serves it
		want := [][][]string{make([][]string, len(c.SessA)), make([][]string, len(c.SessB))}
		add := func(side, i int) {
			rigs[side].st.AddEndPoint(eps[side][i])
			if _, ok := first[side][sess[side][i]]; !ok {
				first[side][sess[side][i]] = i
			} else {
				e.Class("duplicate-session")
			}
		}
		for side := range rigs {
			for i, s := range sess[side] {
				eps[side] = append(eps[side], newAnyEP(fmt.Sprintf("%d/%d", side, i), int(s)))
			}
		}
		for i := range c.SessA {
			add(0, i)
		}
		for i := 0; i < len(c.SessB)-c.Late; i++ {
			add(1, i)
		}
		rigs[0].st.Run()
		rigs[1].st.Run()
		for i := max(0, len(c.SessB)-c.Late); i < len(c.SessB); i++ {
			add(1, i)
		}
		conns := make([][]*memConn, 2)
		connID := map[ustack.TransportConnection]int{}
		var joined []func()
		for k := 0; k < c.Conns; k++ {
			ca, cb := newMemConn(fmt.Sprint("a", k)), newMemConn(fmt.Sprint("b", k))
			if c.Join {
				for side, k := range []*memConn{ca, cb} {
					b := &bytes.Buffer{}
					var mu sync.Mutex
					k.setOnWrite(func(p []byte) {
						mu.Lock()
						b.Write(p)
						mu.Unlock()
					})
					to := []*memConn{cb, ca}[side]
					joined = append(joined, func() {
						mu.Lock()
						defer mu.Unlock()
						if b.Len() > 0 {
							to.feed(bytes.Clone(b.Bytes()))
							b.Reset()
							e.Class("in-one-piece")
						}
					})
				}
			} else {
				pipe(ca, cb)
			}
			conns[0] = append(conns[0], ca)
			conns[1] = append(conns[1], cb)
			connID[ca], connID[cb] = k, k
			rigs[0].tp.offer(ca)
			rigs[1].tp.offer(cb)
		}
		synctest.Wait()

		got := [][][]string{make([][]string, len(c.SessA)), make([][]string, len(c.SessB))}
		// the last EndPointData of each side that was sent and received
		used := [2][2]ustack.EndPointData{}
		look := func() {
			for side := range rigs {
				for i, ep := range eps[side] {
					for _, d := range drain(ep.GetRxChannel()) {
						k, ok := connID[d.GetConnection()]
						b, isb := d.GetData().([]byte)
						e.Check(ok && isb, "endpoint %s got %T over connection %v", ep.GetName(), d.GetData(), d.GetConnection())
						got[side][i] = append(got[side][i], fmt.Sprintf("%x@%d", b, k))
						used[side][1] = d
					}
				}
			}
		}
		compare := func(at string) {
			for side := range rigs {
				for i := range eps[side] {
					g, w := got[side][i], want[side][i]
					e.Check(len(g) == len(w), "%s: endpoint %d/%d (session %d) got %d messages %v, expected %v", at, side, i, sess[side][i], len(g), g, w)
					left := map[string]int{}
					for _, x := range w {
						left[x]++
					}
					for _, x := range g {
						left[x]--
						e.Check(left[x] >= 0, "%s: endpoint %d/%d (session %d) got %v, expected %v", at, side, i, sess[side][i], g, w)
					}
				}
			}
		}
		routed, dropped := 0, 0
		for n, s := range repeated(c.Sends, c.Rep) {
			from := eps[s.Side][s.From]
			served := first[s.Side][sess[s.Side][s.From]] == s.From
			payload := []byte{byte(n >> 8), byte(n), byte(n + 1)}
			d := epd(conns[s.Side][s.Via], payload)
			if s.Reuse > 0 {
				synctest.Wait()
				look()
				if u := used[s.Side][s.Reuse-1]; u != nil {
					d = u.SetConnection(conns[s.Side][s.Via]).SetData(payload)
					e.Class(fmt.Sprint("reused-", s.Reuse))
					if s.Dest < 0 {
						d.ClearDestinationSession()
					}
				}
			}
			used[s.Side][0] = d
			dest := sess[s.Side][s.From]
			if s.Dest >= 0 {
				d.SetDestinationSession(int(s.Dest))
				dest = s.Dest
				e.Check(d.HasDestinationSession() && d.GetDestinationSession() == int(s.Dest), "the destination session is not what was set")
			} else if s.Cleared {
				d.SetDestinationSession(int(sess[1-s.Side][0]) + 1)
				d.ClearDestinationSession()
				e.Check(!d.HasDestinationSession(), "the destination session was cleared")
			}
			if c.Mode != "on" {
				dest = 0
			}
			if served {
				// an endpoint that is not served sends nothing
				for k := 0; k <= s.Again; k++ {
					if to, ok := first[1-s.Side][dest]; ok {
						want[1-s.Side][to] = append(want[1-s.Side][to], fmt.Sprintf("%x@%d", payload, s.Via))
						routed++
					} else {
						dropped++
					}
				}
			} else {
				continue
			}
			for k := 0; k <= s.Again; k++ {
				from.GetTxChannel() <- d
				e.ClassIf(k > 0, "same-data-again")
			}
			if !c.AtOnce {
				synctest.Wait()
				look()
				if c.Rep <= 1 || n%100 == 0 {
					compare(fmt.Sprintf("after send %d", n))
				}
			}
		}
		synctest.Wait()
		for _, f := range joined {
			f()
		}
		synctest.Wait()
		look()
		compare("at the end")
		e.ClassIf(dropped > 0, "no-such-session")
		e.Class("mode-" + c.Mode)
		e.ClassIf(len(c.SessB) >= 10, "many-endpoints")
		e.ClassIf(len(c.SessB) >= 130, "hundreds-of-endpoints")
		e.ClassIf(c.Late > 0, "late-endpoint")
		if routed > 0 && len(c.SessB) > 1 {
			e.NonTrivial()
		}
	})
}

// ---- endpoints of one session that are added at the same time

type SessTogetherCase struct {
	Session int64 `json:"s"`
	Eps     int   `json:"eps"`
	Other   bool  `json:"other,omitempty"` // one endpoint of another session is there
	Rounds  int   `json:"rounds"`
	Sends   int   `json:"sends"`
}

// slowEP takes its time to say its session
type slowEP struct {
	ustack.EndPoint
	slow atomic.Bool
}

func (s *slowEP) GetSession() int {
	if s.slow.CompareAndSwap(true, false) {
		realPause(4 * time.Millisecond)
	}
	return s.EndPoint.GetSession()
}

func genSessTogether(t *rapid.T) SessTogetherCase {
	return SessTogetherCase{Session: genSession(t), Eps: drawUni(t, 2, 6, "eps"), Other: drawBool(t, "other"), Rounds: drawUni(t, 1, 4, "rounds"), Sends: drawUni(t, 8, 30, "sends")}
}

func runSessTogether(e *Env, c SessTogetherCase) {
	e.Bubble(func() {
		r := newRig("s", 256, ustack.NewBytesCodec(), ustack.NewSessionResolver())
		other := &slowEP{EndPoint: newEP("other", int(c.Session^1))}
		if c.Other {
			r.st.AddEndPoint(other)
		}
		// the observers hold all additions until everyone is there
		var gate atomic.Pointer[chan struct{}]
		r.st.SetEventListener(func(ev ustack.Event) {
			if g := gate.Load(); g != nil && ev.Type == ustack.UStackEventEndpointAdded {
				<-*g
			}
		})
		r.st.Run()
		conn := newMemConn("c")
		r.tp.offer(conn)
		for round := 0; round < c.Rounds; round++ {
			start := make(chan struct{})
			gate.Store(&start)
			var eps []ustack.EndPoint
			var wg sync.WaitGroup
			for i := 0; i < c.Eps; i++ {
				ep := newEP(fmt.Sprint("ep", i), int(c.Session))
				eps = append(eps, ep)
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.st.AddEndPoint(ep)
				}()
			}
			synctest.Wait()
			if c.Other {
				// a message is just being routed, everyone waits for that
				other.slow.Store(true)
				conn.feed(wrapLayer(Layer{Kind: "session"}, []byte{1}, uint32(c.Session^1)))
				realPause(time.Millisecond)
			}
			close(start)
			wg.Wait()
			synctest.Wait()
			drain(other.GetRxChannel())
			for k := 0; k < c.Sends; k++ {
				conn.feed(wrapLayer(Layer{Kind: "session"}, []byte{byte(k)}, uint32(c.Session)))
				synctest.Wait()
			}
			served := 0
			for i, ep := range eps {
				ds := drain(ep.GetRxChannel())
				if len(ds) > 0 {
					served++
				}
				e.Check(len(ds) == 0 || len(ds) == c.Sends, "round %d: endpoint %d of %d with session %d, added at the same time, got %d of %d messages: one of them is the first and gets all", round, i, c.Eps, c.Session, len(ds), c.Sends)
			}
			e.Check(served == 1, "round %d: %d of %d endpoints got the messages of their session", round, served, c.Eps)
			e.Check(len(drain(other.GetRxChannel())) == 0, "the endpoint of another session got messages")
			for _, ep := range eps {
				r.st.DeleteEndPoint(ep)
			}
		}
		e.NonTrivial()
	})
}

func init() {
	register(&Property{
		ID:   "C06",
		Rule: "a case is two connected stacks with up to 5 endpoints each (sessions over the whole 32 bit range, duplicates, endpoints added after Run), 1 to 3 connections and up to 14 sends in both directions with the own, an explicit, a cleared or an unknown destination session; every endpoint's received data is compared with a routing model; non-trivial: at least one message had to be routed and the receiving stack has several endpoints; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("routing", 1500, genSessCase, runSessCase),
			part("long", 60, func(t *rapid.T) SessCase {
				c := genSessCase(t)
				c.Rep, c.AtOnce, c.Join = drawRep(t, len(c.Sends)), false, false
				return c
			}, runSessCase),
			part("together", 300, genSessTogether, runSessTogether),
		},
	})
}
