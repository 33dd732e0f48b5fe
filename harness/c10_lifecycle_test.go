package verif

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C10: connections are announced once, buried once, and lose no bytes

type LifeConn struct {
	Feed  []int  `json:"feed"` // sizes of the reads
	End   string `json:"end"`  // how it ends, "" stays open
	With  int    `json:"with"` // bytes that arrive together with the end
	After int    `json:"after"`
	Tp    int    `json:"tp"`
	Ref   bool   `json:"ref,omitempty"`
	Pre   int    `json:"pre,omitempty"`   // reads that are possible before the connection is known
	Dead  bool   `json:"dead,omitempty"`  // it is closed already when the stack gets it
	Stuck bool   `json:"stuck,omitempty"` // its peer takes nothing, a message is stuck in a write from the beginning
}

type LifeCase struct {
	MTU   int        `json:"mtu"`
	Conns []LifeConn `json:"conns"`
	Order []int      `json:"order"` // connections step in this order
	Burst bool       `json:"burst,omitempty"`
	Hb    bool       `json:"hb,omitempty"`
	Slow  int        `json:"slow,omitempty"` // that observer takes its time: 1 listener, 2 endpoint, 3 processor
}

// ends: eof/err of the reader (with bytes), an empty read, a failing write,
// a local Close, both sides at once, the transport is deleted
var lifeEnds = []string{"", "eof", "err", "zero", "writefail", "close", "both", "deltp", "doubleclose"}

func genLifeCase(t *rapid.T) LifeCase {
	c := LifeCase{MTU: drawOf(t, "mtu", 64, 16, 2048), Burst: drawPct(t, 35, "burst"), Hb: drawPct(t, 20, "hb")}
	if drawPct(t, 30, "isslow") {
		c.Slow = drawUni(t, 1, 3, "slow")
	}
	n := drawUni(t, 1, 5, "n")
	if drawPct(t, 2, "many") {
		n = drawUni(t, 20, 90, "nmany")
		if drawPct(t, 10, "huge") {
			n = drawUni(t, 130, 300, "nhuge")
		}
	}
	for i := 0; i < n; i++ {
		lc := LifeConn{End: drawOf(t, "end", lifeEnds...), Tp: drawUni(t, 0, 1, "tp")}
		for k := drawUni(t, 0, 4, "k"); k > 0; k-- {
			lc.Feed = append(lc.Feed, drawUni(t, 1, 100, "n"))
		}
		if drawPct(t, 60, "withdata") {
			lc.With = drawUni(t, 1, 100, "with")
		}
		lc.After = drawUni(t, 0, 9, "after")
		lc.Ref = drawPct(t, 15, "ref")
		if drawPct(t, 40, "prefed") {
			lc.Pre = drawUni(t, 0, len(lc.Feed), "pre")
		}
		lc.Dead = drawPct(t, 6, "dead")
		switch lc.End {
		case "", "eof", "err", "zero", "close", "deltp":
			lc.Stuck = !lc.Ref && drawPct(t, 20, "stuck")
		}
		c.Conns = append(c.Conns, lc)
	}
	if n >= 20 && drawBool(t, "together") {
		// all of them are there at the same time
		for i := range n {
			c.Order = append(c.Order, i)
		}
	}
	for k := drawUni(t, 1, min(20+5*n, 500), "norder"); k > 0; k-- {
		c.Order = append(c.Order, drawUni(t, 0, n-1, "o"))
	}
	return c
}

func runLifeCase(e *Env, c LifeCase) {
	e.Bubble(func() {
		procs := []ustack.DataProcessor{}
		hasRef := false
		for _, lc := range c.Conns {
			hasRef = hasRef || lc.Ref
		}
		// references do not pass a codec, bytes need one: the top layer makes messages
		top := newProbe("top")
		top.onLow = func(ctx ustack.Context) bool {
			if b := ctx.GetBuffer(); b != nil {
				p := make([]byte, b.ReadableLength())
				b.Read(p)
				ctx.SetMessage(p)
			}
			return true
		}
		top.onUp = func(ctx ustack.Context) bool {
			if b, ok := ctx.GetMessage().([]byte); ok && !ctx.GetConnection().UseReference() {
				ub := ustack.UBufAllocWithHeadReserved(len(b)+8, 8)
				ub.Write(b)
				ctx.SetBuffer(ub)
			}
			return true
		}
		procs = append(procs, top)

		type rec struct {
			news, closed int
			received     int // bytes at the endpoint when the end was announced
		}
		var mu sync.Mutex
		var tbl = map[string]map[ustack.TransportConnection]*rec{}
		ep := newEP("ep", 0)
		received := map[ustack.TransportConnection][]byte{}
		refsGot := map[ustack.TransportConnection][]interface{}{}
		pull := func() {
			for _, d := range drain(ep.GetRxChannel()) {
				if b, ok := d.GetData().([]byte); ok {
					received[d.GetConnection()] = append(received[d.GetConnection()], b...)
				} else {
					refsGot[d.GetConnection()] = append(refsGot[d.GetConnection()], d.GetData())
				}
			}
		}
		note := func(who string, ev ustack.Event) {
			if ev.Type != ustack.UStackEventNewConnection && ev.Type != ustack.UStackEventConnectionClosed {
				return
			}
			conn, ok := ev.Data.(ustack.TransportConnection)
			if !ok {
				e.Fail("%s: event %d carries %T", who, ev.Type, ev.Data)
				return
			}
			if c.Slow > 0 && who == []string{"", "listener", "endpoint", "processor"}[c.Slow] {
				// a fake millisecond: everybody else goes on until there is nothing to do
				time.Sleep(time.Millisecond)
			}
			mu.Lock()
			defer mu.Unlock()
			if tbl[who] == nil {
				tbl[who] = map[ustack.TransportConnection]*rec{}
			}
			r := tbl[who][conn]
			if r == nil {
				r = &rec{}
				tbl[who][conn] = r
			}
			if ev.Type == ustack.UStackEventNewConnection {
				r.news++
				if r.closed > 0 {
					e.Fail("%s: connection %s is announced after its end", who, conn.GetName())
				}
				pull()
				if n := len(received[conn]) + len(refsGot[conn]); n > 0 {
					e.Fail("%s: data of connection %s (%d) arrived before it was announced", who, conn.GetName(), n)
				}
				return
			}
			r.closed++
			if r.news == 0 {
				e.Fail("%s: the end of connection %s is announced before its begin", who, conn.GetName())
			}
			pull()
			r.received = len(received[conn])
			if !conn.Closed() {
				e.Fail("%s: connection %s is reported closed but it is open", who, conn.GetName())
			}
		}
		pr := newProbe("watch")
		pr.onEvent = func(ev ustack.Event) { note("processor", ev) }
		procs = append(procs, pr)
		if c.Hb {
			procs = append(procs, newLayer(Layer{Kind: "flow"}))
		}
		r := newRig("s", c.MTU, procs...)
		tps := []*memTransport{r.tp, newMemTransport("second")}
		r.st.AddTransport(tps[1])
		r.st.SetEventListener(func(ev ustack.Event) { note("listener", ev) })
		ep.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { note("endpoint", ev) })
		r.st.AddEndPoint(ep)
		r.st.Run()

		type state struct {
			LifeConn
			conn    *memConn
			next    int
			fed     []byte
			refs    []interface{}
			offered bool
			ended   bool
			atEnd   bool // the bytes fed before the end must have arrived when it is announced
			lossy   bool // the end may overtake bytes
		}
		var ss []*state
		for i, lc := range c.Conns {
			s := &state{LifeConn: lc}
			if lc.Ref {
				s.conn = newRefConn(fmt.Sprint("r", i))
			} else {
				s.conn = newMemConn(fmt.Sprint("c", i))
			}
			ss = append(ss, s)
		}
		deleted := []bool{false, false}
		wait := func() {
			synctest.Wait()
			if c.Slow > 0 {
				time.Sleep(time.Second)
				synctest.Wait()
			}
		}
		settle := func() {
			if !c.Burst {
				wait()
			}
		}
		feed := func(s *state, n int) []byte {
			b := pattern(len(s.fed)+n, n)
			s.fed = append(s.fed, b...)
			return b
		}
		send := func(s *state, n int) {
			ep.GetTxChannel() <- epd(s.conn, pattern(1, n))
		}
		one := func(s *state) {
			n := s.Feed[s.next]
			s.next++
			if s.Ref {
				x := &struct{ a, b int }{n, s.next}
				s.refs = append(s.refs, x)
				s.conn.refs <- x
			} else {
				s.conn.feed(feed(s, n))
			}
		}
		step := func(s *state) {
			if s.ended {
				return
			}
			if !s.offered {
				if deleted[s.Tp] {
					s.ended = true
					return
				}
				s.offered = true
				for s.next < s.Pre {
					e.Class("data-before-announcement")
					one(s)
				}
				if s.Dead {
					s.conn.Close()
					s.ended, s.lossy = true, true
					e.Class("closed-before-announcement")
				}
				if s.Stuck {
					s.conn.setGate(make(chan struct{}))
				}
				tps[s.Tp].offer(s.conn)
				// sending may fail only after the connection is known
				wait()
				if s.Stuck {
					own := newEP("own", 1000+slices.Index(ss, s))
					r.st.AddEndPoint(own)
					own.GetTxChannel() <- epd(s.conn, pattern(1, 10))
					wait()
					e.Class("stuck-write")
				}
				return
			}
			if deleted[s.Tp] {
				s.ended = true
				return
			}
			if s.next < len(s.Feed) {
				one(s)
				settle()
				return
			}
			if s.End == "" {
				return
			}
			s.ended = true
			e.Class("end-" + s.End)
			switch s.End {
			case "eof", "err":
				if s.Ref && s.End == "err" {
					s.conn.refs <- refErr{errOf(s.After)}
				} else if s.Ref {
					s.conn.refs <- nil
				} else {
					err := io.EOF
					if s.End == "err" {
						err = errOf(s.After)
					}
					s.conn.feedErr(feed(s, s.With), err)
					e.ClassIf(s.With > 0, "bytes-with-end")
				}
				s.atEnd = true
			case "zero":
				if s.Ref {
					s.conn.refs <- nil
				} else {
					s.conn.feedErr(nil, nil)
				}
				s.atEnd = true
			case "writefail":
				s.lossy = true
				if s.Ref {
					s.conn.Close()
				} else {
					s.conn.setFailErr(errOf(s.After))
					s.conn.setFailAfter(s.With)
				}
				send(s, s.With+1+s.After)
			case "close":
				s.lossy = true
				s.conn.Close()
			case "doubleclose":
				s.lossy = true
				s.conn.Close()
				send(s, 3)
				s.conn.Close()
			case "both":
				s.lossy = true
				if s.Ref {
					s.conn.refs <- nil
				} else {
					s.conn.setFailErr(errOf(s.After + s.With))
					s.conn.setFailAfter(0)
					s.conn.feedErr(feed(s, s.With), errOf(s.After))
				}
				send(s, 5)
				send(s, 6)
			case "deltp":
				s.lossy = true
				deleted[s.Tp] = true
				r.st.DeleteTransport(tps[s.Tp])
				for _, o := range ss {
					if o.Tp == s.Tp && o.offered {
						o.lossy = true
						o.ended = true
						o.atEnd = false
					}
				}
			}
			settle()
		}
		check := func(at string, final bool) {
			mu.Lock()
			defer mu.Unlock()
			pull()
			for i, s := range ss {
				for _, who := range []string{"listener", "endpoint", "processor"} {
					rc := tbl[who][s.conn]
					if rc == nil {
						rc = &rec{}
					}
					wantNew, wantClosed := 0, 0
					if s.offered {
						wantNew = 1
						if s.ended {
							wantClosed = 1
						}
					}
					e.Check(rc.news == wantNew, "%s: %s: connection %d was announced %d times, expected %d", at, who, i, rc.news, wantNew)
					e.Check(rc.closed == wantClosed, "%s: %s: the end of connection %d (%q) was announced %d times, expected %d", at, who, i, s.End, rc.closed, wantClosed)
					if s.atEnd && !s.Ref {
						e.Check(rc.received == len(s.fed), "%s: %s: the end of connection %d was announced when %d of its %d bytes had arrived", at, who, i, rc.received, len(s.fed))
					}
				}
				got := received[s.conn]
				if s.lossy {
					e.Check(bytes.HasPrefix(s.fed, got), "%s: connection %d: received %s, sent %s", at, i, short(got), short(s.fed))
				} else {
					e.Check(bytes.Equal(s.fed, got), "%s: connection %d: received %s, sent %s", at, i, short(got), short(s.fed))
					e.Check(len(refsGot[s.conn]) == len(s.refs), "%s: connection %d: %d references received, %d sent", at, i, len(refsGot[s.conn]), len(s.refs))
				}
				for k, x := range refsGot[s.conn] {
					e.Check(x == s.refs[k], "%s: connection %d: reference %d is another one", at, i, k)
				}
				e.Check(s.conn.Closed() == (s.ended && s.offered), "%s: connection %d closed: %v, ended: %v", at, i, s.conn.Closed(), s.ended)
			}
		}
		for n, i := range c.Order {
			step(ss[i])
			e.Check(!e.Failed(), "see above")
			if !c.Burst {
				check(fmt.Sprintf("step %d", n), false)
			}
		}
		for _, s := range ss {
			for k := 0; k < 20 && !s.ended; k++ {
				step(s)
			}
		}
		wait()
		e.Check(!e.Failed(), "see above")
		check("at the end", true)
		ended := 0
		for _, s := range ss {
			if s.ended && s.offered {
				ended++
			}
		}
		e.ClassIf(c.Burst, "burst")
		e.ClassIf(c.Slow > 0, "slow-observer")
		if ended > 0 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C10",
		Rule: "a case is up to 5 connections (byte and reference ones) over two transports with generated reads and a way to end (end of stream or error with or without bytes, empty read, failing write, local close, both directions at once, deleted transport), or already closed when the stack gets it, with errors of all kinds (timeouts too), stepped in a generated order, with or without waiting in between; three kinds of observers count the announcements and what had arrived by then; two stacks over bounded byte streams under the library's own socket connections with idle times up to hours; non-trivial: at least one connection ended (stream: a message was sent)",
		Parts: []Part{
			part("connections", 3000, genLifeCase, runLifeCase),
			part("stream", 80, genStreamCase, runStreamCase),
		},
	})
}
