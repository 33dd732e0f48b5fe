package verif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C18: every message is delivered once, in order, to the listener or the channel

type LisOp struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

type LisCase struct {
	Stack bool    `json:"stack"` // through a stack, else directly into the channel
	Ops   []LisOp `json:"ops"`
}

func genLisCase(t *rapid.T) LisCase {
	c := LisCase{Stack: drawBool(t, "stack")}
	for i, n := 0, drawUni(t, 2, 30, "n"); i < n; i++ {
		c.Ops = append(c.Ops, LisOp{Op: drawOf(t, "op", "feed", "feed", "feed", "listen", "listen", "none", "take", "block", "unblock", "burst", "quick"), N: drawUni(t, 1, 9, "n")})
	}
	return c
}

func runLisCase(e *Env, c LisCase) {
	e.Bubble(func() {
		ep := newEP("E", 0)
		conn := newMemConn("c")
		if c.Stack {
			st := ustack.NewUStack().AddEndPoint(ep).AppendDataProcessor(ustack.NewBytesCodec())
			tp := newMemTransport("T")
			st.AddTransport(tp).Run()
			tp.offer(conn)
			synctest.Wait()
		}
		var mu sync.Mutex
		type rec struct{ id, by int }
		var got []rec
		current := 0 // 0: none
		serial, fed := 0, 0
		var gate chan struct{} // the one that holds the current listener
		var held bool          // a listener call does not return
		busy := 0              // one at a time, also when there is another listener meanwhile
		listener := func(id int, g chan struct{}) func(ustack.EndPoint, ustack.EndPointData) {
			return func(who ustack.EndPoint, d ustack.EndPointData) {
				b, ok := d.GetData().([]byte)
				if !ok || len(b) != 4 || who != ep {
					e.Fail("the listener got something else")
					return
				}
				mu.Lock()
				busy++
				if busy > 1 {
					e.Fail("message %d is delivered to listener %d while the one before is handled", binary.BigEndian.Uint32(b), id)
				}
				got = append(got, rec{int(binary.BigEndian.Uint32(b)), id})
				mu.Unlock()
				if g != nil {
					<-g
				}
				mu.Lock()
				busy--
				mu.Unlock()
			}
		}
		feed := func() {
			b := be32(uint32(fed))
			fed++
			if c.Stack {
				conn.feed(b)
			} else {
				ep.GetRxChannel() <- epd(conn, b)
			}
		}
		changes := 0
		for n, op := range c.Ops {
			at := fmt.Sprintf("op %d (%s)", n, op.Op)
			mu.Lock()
			seen := len(got)
			mu.Unlock()
			switch op.Op {
			case "feed":
				for i := 0; i < op.N; i++ {
					feed()
				}
			case "burst":
				// replaced while the data arrives
				for i := 0; i < op.N; i++ {
					feed()
					if i == op.N/2 && current != 0 && !held {
						serial++
						current = serial
						ep.SetDataListener(listener(serial, nil))
						gate = nil
						changes++
					}
				}
			case "quick":
				// off and on again
				if current != 0 && !held {
					for i := 0; i < op.N; i++ {
						feed()
					}
					serial++
					ep.SetDataListener(nil)
					ep.SetDataListener(listener(serial, nil))
					current, gate = serial, nil
					changes++
					e.Class("off-on")
				}
			case "listen":
				if !held {
					serial++
					current, gate = serial, nil
					ep.SetDataListener(listener(serial, nil))
					changes++
				}
			case "block":
				// the listener takes its time with the next message
				if !held {
					serial++
					current = serial
					gate = make(chan struct{})
					ep.SetDataListener(listener(serial, gate))
					feed()
					synctest.Wait()
					held = true
					for i := 0; i < op.N; i++ {
						feed()
					}
					changes++
					e.Class("blocked")
				}
			case "unblock":
				if held {
					if op.N%3 == 0 {
						// replaced in the meantime
						serial++
						current = serial
						ep.SetDataListener(listener(serial, nil))
						e.Class("replaced-while-running")
					}
					if op.N%3 == 1 {
						// removed and set again in the meantime
						serial++
						current = serial
						ep.SetDataListener(nil)
						ep.SetDataListener(listener(serial, nil))
						synctest.Wait()
						e.Class("off-on-while-running")
					}
					if op.N > 4 {
						// it takes long
						synctest.Wait()
						time.Sleep([]time.Duration{time.Second, 10 * time.Second, time.Minute, time.Hour, 24 * time.Hour}[op.N-5])
						e.Class("slow-listener")
					}
					close(gate)
					held, gate = false, nil
				}
			case "none":
				if !held {
					ep.SetDataListener(nil)
					current = 0
				} else if op.N%2 == 0 {
					ep.SetDataListener(nil)
					current = 0
					close(gate)
					held, gate = false, nil
					e.Class("removed-while-running")
				}
			case "take":
				if current == 0 {
					synctest.Wait()
					for _, d := range drain(ep.GetRxChannel()) {
						b, _ := d.GetData().([]byte)
						mu.Lock()
						got = append(got, rec{int(binary.BigEndian.Uint32(b)), 0})
						mu.Unlock()
					}
				}
			}
			synctest.Wait()
			mu.Lock()
			for i, r := range got {
				if r.id != i {
					e.Fail("%s: message %d was delivered where message %d is due", at, r.id, i)
				}
			}
			if current != 0 && !held && len(got) != fed {
				e.Fail("%s: %d messages sent, the listener got %d", at, fed, len(got))
			}
			if op.Op == "feed" && current != 0 && !held {
				for _, r := range got[seen:] {
					if r.by != current {
						e.Fail("%s: message %d went to listener %d, the listener is %d", at, r.id, r.by, current)
					}
				}
			}
			if op.Op == "unblock" && current != 0 && !held {
				for _, r := range got[seen:] {
					if r.by != current {
						e.Fail("%s: message %d went to listener %d, the listener is %d", at, r.id, r.by, current)
					}
				}
			}
			if (op.Op == "feed" || op.Op == "none") && current == 0 && len(got) != seen {
				e.Fail("%s: there is no listener, but %d messages were delivered", at, len(got)-seen)
			}
			mu.Unlock()
			if e.Failed() {
				return
			}
		}
		if held {
			close(gate)
		}
		if current == 0 {
			ep.SetDataListener(listener(serial+1, nil))
		}
		synctest.Wait()
		mu.Lock()
		n := len(got)
		mu.Unlock()
		e.Check(n == fed, "%d messages sent, %d delivered", fed, n)
		if changes > 0 && fed > 3 {
			e.NonTrivial()
		}
	})
}

// ---- listeners come and go while data arrives

type TogCase struct {
	N     int  `json:"n"`
	Tog   int  `json:"tog"`
	Spin  int  `json:"spin"`
	Stack bool `json:"stack"`
}

func genTogCase(t *rapid.T) TogCase {
	return TogCase{N: drawUni(t, 10, 1500, "n"), Tog: drawUni(t, 2, 300, "tog"), Spin: drawUni(t, 0, 40, "spin"), Stack: drawBool(t, "stack")}
}

func runTogCase(e *Env, c TogCase) {
	e.Bubble(func() {
		ep := newEP("e", 0)
		conn := newMemConn("c")
		if c.Stack {
			r := newRig("r", 64, ustack.NewBytesCodec())
			r.st.AddEndPoint(ep)
			r.st.Run()
			r.tp.offer(conn)
			synctest.Wait()
		}
		var mu sync.Mutex
		var got []int
		listener := func(x ustack.EndPoint, d ustack.EndPointData) {
			b, _ := d.GetData().([]byte)
			mu.Lock()
			if len(b) == 4 {
				got = append(got, int(binary.BigEndian.Uint32(b)))
			}
			mu.Unlock()
		}
		e.Go(func() {
			for i := 0; i < c.N; i++ {
				if c.Stack {
					conn.feed(be32(uint32(i)))
				} else {
					ep.GetRxChannel() <- epd(conn, be32(uint32(i)))
				}
			}
		})
		spin := 0
		for i := 0; i < c.Tog; i++ {
			ep.SetDataListener(listener)
			for k := (i * 7) % (c.Spin + 1); k > 0; k-- {
				runtime.Gosched()
				spin++
			}
			ep.SetDataListener(nil)
			for k := (i * 3) % (c.Spin + 1); k > 0; k-- {
				spin++
			}
		}
		ep.SetDataListener(listener)
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		for i, id := range got {
			e.Check(id == i, "message %d was delivered where message %d is due", id, i)
		}
		e.Check(len(got) == c.N, "%d messages arrived, %d were delivered", c.N, len(got))
		ep.SetDataListener(nil)
		e.NonTrivial()
	})
}

// ---- end to end over sockets

type E2ECase struct {
	Kind     string  `json:"kind"` // tcp, uds, both, reference
	Codec    string  `json:"codec"`
	Layers   []Layer `json:"layers"`
	MTU      int     `json:"mtu"`
	Clients  int     `json:"clients"`
	Sessions []int   `json:"sessions"`
	Up       int     `json:"up"`   // messages per session and client
	Down     int     `json:"down"` // the other way
	Max      int     `json:"max"`
	Listen   bool    `json:"listen"` // listener instead of channel
	Late     bool    `json:"late"`   // the server comes later
	Slow     int     `json:"slow"`   // us per message at the receiver
	Delete   bool    `json:"delete"`
}

func genE2ECase(t *rapid.T) E2ECase {
	c := E2ECase{
		Kind: drawOf(t, "kind", "tcp", "uds", "both"), Codec: drawOf(t, "codec", "bytes", "string", "generic"),
		MTU: drawOf(t, "mtu", 2048, 128, 512, 5000), Clients: drawUni(t, 1, 4, "clients"),
		Up: drawInt(t, 0, 700, "up"), Down: drawInt(t, 0, 700, "down"), Listen: drawBool(t, "listen"), Delete: drawBool(t, "delete"),
	}
	c.Layers = []Layer{{Kind: "session"}, {Kind: "frame"}}
	for _, k := range []string{"stat", "heartbeat", "flow"} {
		if drawPct(t, 40, "has") {
			i := drawUni(t, 0, len(c.Layers)-1, "where")
			c.Layers = append(c.Layers[:i:i], append([]Layer{{Kind: k}}, c.Layers[i:]...)...)
		}
	}
	for i, n := 0, drawUni(t, 1, 3, "sessions"); i < n; i++ {
		c.Sessions = append(c.Sessions, []int{0, 7, 100000}[i])
	}
	if drawPct(t, 12, "large") {
		c.MTU = 300000
		c.Up, c.Down = min(c.Up, 15), min(c.Down, 15)
	}
	room := c.MTU - overheadOf(c.Layers) - 13 - 8 // header, and the generic codec's
	c.Max = drawUni(t, 0, room, "max")
	if drawPct(t, 30, "late") && c.Kind != "both" {
		c.Late = true
	}
	if drawPct(t, 20, "slow") {
		c.Slow = drawUni(t, 1, 50, "us")
		if c.Up > 200 {
			c.Up = 200
		}
	}
	return c
}

// e2ePayload is self-describing
func e2ePayload(codec string, client, session, dir, seq, max int) interface{} {
	b := []byte{1, byte(client), byte(dir)}
	b = append(b, be32(uint32(session))...)
	b = append(b, be32(uint32(seq))...)
	n := 0
	if max > 0 {
		n = int(uint32(seq*7919+client*31+session) % uint32(max+1))
	}
	b = append(b, pattern(seq+client*1000003+session*17+dir, n)...)
	if codec == "string" {
		return string(b)
	}
	return b
}

func e2eParse(data interface{}) (client, session, dir, seq int, ok bool) {
	var b []byte
	switch x := data.(type) {
	case []byte:
		b = x
	case string:
		b = []byte(x)
	}
	if len(b) < 11 || b[0] != 1 {
		return
	}
	return int(b[1]), int(binary.BigEndian.Uint32(b[3:])), int(b[2]), int(binary.BigEndian.Uint32(b[7:])), true
}

func e2eEqual(a, b interface{}) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

func runE2ECase(e *Env, c E2ECase) {
	type stackOf struct {
		st     ustack.UStack
		eps    map[int]ustack.EndPoint
		tps    []ustack.Transport
		mu     sync.Mutex
		conns  []ustack.TransportConnection
		closed map[ustack.TransportConnection]int
		newc   chan ustack.TransportConnection
	}
	done := make(chan struct{})
	var finished sync.Once
	finish := func() { finished.Do(func() { close(done) }) }
	e.Cleanup(finish)

	build := func(name string) *stackOf {
		s := &stackOf{st: ustack.NewUStack().SetName(name).SetOption("MTU", c.MTU), eps: map[int]ustack.EndPoint{},
			closed: map[ustack.TransportConnection]int{}, newc: make(chan ustack.TransportConnection, 100)}
		s.st.AppendDataProcessor(newCodec(c.Codec))
		for _, l := range c.Layers {
			s.st.AppendDataProcessor(newLayer(l))
		}
		s.st.SetEventListener(func(ev ustack.Event) {
			switch ev.Type {
			case ustack.UStackEventNewConnection:
				s.mu.Lock()
				s.conns = append(s.conns, ev.Data.(ustack.TransportConnection))
				s.mu.Unlock()
				s.newc <- ev.Data.(ustack.TransportConnection)
			case ustack.UStackEventConnectionClosed:
				s.mu.Lock()
				s.closed[ev.Data.(ustack.TransportConnection)]++
				s.mu.Unlock()
			}
		})
		for _, x := range c.Sessions {
			s.eps[x] = newEP(fmt.Sprint(name, x), x)
			s.st.AddEndPoint(s.eps[x])
		}
		return s
	}

	kinds := []string{c.Kind}
	if c.Kind == "both" {
		kinds = []string{"tcp", "uds"}
	}
	var addrs []string
	server := build("server")
	for _, k := range kinds {
		_, a := sockAddr(k)
		addrs = append(addrs, a)
		tp := role(newSockTransport(k, k), true).SetAddress(a)
		server.tps = append(server.tps, tp)
		server.st.AddTransport(tp)
		e.Cleanup(func() {
			if k == "uds" {
				os.Remove(a)
			}
		})
	}
	var clients []*stackOf
	for i := 0; i < c.Clients; i++ {
		s := build(fmt.Sprint("client", i))
		j := i % len(kinds)
		tp := role(newSockTransport(kinds[j], "c"), false).SetAddress(addrs[j]).
			SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 1<<30)
		s.tps = append(s.tps, tp)
		s.st.AddTransport(tp)
		clients = append(clients, s)
	}
	e.Cleanup(func() {
		for _, s := range append([]*stackOf{server}, clients...) {
			for _, tp := range s.tps {
				tp.Stop()
			}
		}
	})
	e.ClassIf(c.Max > 65536, "large")
	upTotal := c.Clients * len(c.Sessions) * c.Up
	downTotal := c.Clients * len(c.Sessions) * c.Down
	var mu sync.Mutex
	upGot, downGot := 0, 0
	progress := make(chan struct{}, 1)
	kick := func() {
		select {
		case progress <- struct{}{}:
		default:
		}
	}
	// receiving at the server
	next := map[[2]int]int{}
	connOf := map[int]ustack.TransportConnection{}
	receive := func(s *stackOf, session int, fn func(ustack.EndPointData)) {
		ep := s.eps[session]
		if c.Listen {
			ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { fn(d) })
			return
		}
		e.Go(func() {
			for {
				select {
				case d := <-ep.GetRxChannel():
					fn(d)
				case <-done:
					return
				}
			}
		})
	}
	for _, x := range c.Sessions {
		receive(server, x, func(d ustack.EndPointData) {
			if c.Slow > 0 {
				time.Sleep(time.Duration(c.Slow) * time.Microsecond)
			}
			cl, session, dir, seq, ok := e2eParse(d.GetData())
			mu.Lock()
			defer mu.Unlock()
			defer kick()
			if !ok || session != x || dir != 0 || cl >= c.Clients {
				e.Fail("session %d of the server received a foreign message: %v", x, ok)
				return
			}
			if want := next[[2]int{cl, session}]; seq != want {
				e.Fail("session %d of the server received number %d of client %d, the next is %d", x, seq, cl, want)
				return
			}
			next[[2]int{cl, session}]++
			upGot++
			if !e2eEqual(d.GetData(), e2ePayload(c.Codec, cl, session, 0, seq, c.Max)) {
				e.Fail("session %d of the server: number %d of client %d is damaged", x, seq, cl)
			}
			if k := connOf[cl]; k == nil {
				connOf[cl] = d.GetConnection()
			} else if k != d.GetConnection() {
				e.Fail("client %d has two connections at the server", cl)
			}
		})
	}
	nextDown := map[[2]int]int{}
	peerOf := map[int]int{}
	for i, s := range clients {
		for _, x := range c.Sessions {
			receive(s, x, func(d ustack.EndPointData) {
				k, session, dir, seq, ok := e2eParse(d.GetData())
				mu.Lock()
				defer mu.Unlock()
				defer kick()
				if !ok || session != x || dir != 1 {
					e.Fail("session %d of client %d received a foreign message", x, i)
					return
				}
				if want := nextDown[[2]int{i, session}]; seq != want {
					e.Fail("session %d of client %d received number %d, the next is %d", x, i, seq, want)
					return
				}
				nextDown[[2]int{i, session}]++
				downGot++
				if !e2eEqual(d.GetData(), e2ePayload(c.Codec, k, session, 1, seq, c.Max)) {
					e.Fail("session %d of client %d: number %d is damaged", x, i, seq)
				}
				if p, ok := peerOf[i]; !ok {
					peerOf[i] = k
				} else if p != k {
					e.Fail("client %d received what was sent to connection %d and %d", i, p, k)
				}
			})
		}
	}
	// sending
	waitConn := func(s *stackOf) ustack.TransportConnection {
		select {
		case x := <-s.newc:
			return x
		case <-done:
			return nil
		}
	}
	put := func(ep ustack.EndPoint, d ustack.EndPointData) bool {
		select {
		case ep.GetTxChannel() <- d:
			return true
		case <-done:
			return false
		}
	}
	for i, s := range clients {
		e.Go(func() {
			conn := waitConn(s)
			if conn == nil {
				return
			}
			for _, x := range c.Sessions {
				e.Go(func() {
					for n := 0; n < c.Up; n++ {
						if !put(s.eps[x], epd(conn, e2ePayload(c.Codec, i, x, 0, n, c.Max))) {
							return
						}
					}
				})
			}
		})
	}
	e.Go(func() {
		for k := 0; k < c.Clients; k++ {
			conn := waitConn(server)
			if conn == nil {
				return
			}
			for _, x := range c.Sessions {
				e.Go(func() {
					for n := 0; n < c.Down; n++ {
						if !put(server.eps[x], epd(conn, e2ePayload(c.Codec, k, x, 1, n, c.Max))) {
							return
						}
					}
				})
			}
		}
	})
	if c.Late {
		for _, s := range clients {
			s.st.Run()
		}
		time.Sleep(2 * time.Millisecond)
		server.st.Run()
		e.Class("late")
	} else {
		server.st.Run()
		// the file has to be there, or the client just retries
		for _, s := range clients {
			s.st.Run()
		}
	}
	last := time.Now()
	seen := -1
	for {
		mu.Lock()
		n := upGot + downGot
		mu.Unlock()
		if e.Failed() {
			return
		}
		if n == upTotal+downTotal {
			break
		}
		if n != seen {
			seen, last = n, time.Now()
		}
		if time.Since(last) > patience {
			mu.Lock()
			defer mu.Unlock()
			e.Fail("nothing arrives any more: %d of %d messages to the server, %d of %d to the clients", upGot, upTotal, downGot, downTotal)
			return
		}
		select {
		case <-progress:
		case <-time.After(10 * time.Millisecond):
		}
	}
	until := func(what string, ok func() bool) {
		end := time.Now().Add(patience)
		for !ok() {
			e.Check(time.Now().Before(end), "%s", what)
			time.Sleep(200 * time.Microsecond)
		}
	}
	until("the server did not get all connections", func() bool {
		server.mu.Lock()
		defer server.mu.Unlock()
		return len(server.conns) == c.Clients
	})
	if c.Delete {
		// one client goes, the server notices it, the others stay
		until("client 0 has no connection", func() bool {
			clients[0].mu.Lock()
			defer clients[0].mu.Unlock()
			return len(clients[0].conns) == 1
		})
		clients[0].st.DeleteTransport(clients[0].tps[0])
		until("the server was not told that the connection is closed", func() bool {
			server.mu.Lock()
			defer server.mu.Unlock()
			return len(server.closed) == 1
		})
		until("the client was not told that the connection is closed", func() bool {
			clients[0].mu.Lock()
			defer clients[0].mu.Unlock()
			return len(clients[0].closed) == 1
		})
		time.Sleep(time.Millisecond)
		server.mu.Lock()
		if len(server.closed) != 1 {
			e.Fail("one client left, the server lost %d connections", len(server.closed))
		}
		for conn, n := range server.closed {
			if n != 1 || !conn.Closed() {
				e.Fail("ConnectionClosed %d times, closed: %v", n, conn.Closed())
			}
		}
		server.mu.Unlock()
		e.Class("deleted")
	} else {
		for i, s := range append([]*stackOf{server}, clients...) {
			s.mu.Lock()
			if len(s.closed) > 0 {
				e.Fail("stack %d lost a connection", i)
			}
			s.mu.Unlock()
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if upGot != upTotal || downGot != downTotal {
		e.Fail("more messages than were sent: %d of %d to the server, %d of %d to the clients", upGot, upTotal, downGot, downTotal)
	}
	if upTotal+downTotal > 50 {
		e.NonTrivial()
	}
	e.ClassIf(c.Up > 0 && c.Down > 0, "both-directions")
	e.ClassIf(upTotal > 600, "more-than-a-channel")
}

func init() {
	register(&Property{
		ID:   "C18",
		Rule: "a case is a history of messages, listener changes (also while the listener is running) and taking from the channel on one endpoint (listener), or a server stack and up to four client stacks over real TCP and Unix sockets with up to three sessions and numbered messages in both directions (endtoend); every message has to arrive once, in order, intact, at its session, from its connection; non-trivial: a listener change and more than three messages (listener), more than 50 messages (endtoend)",
		Parts: []Part{
			part("listener", 2000, genLisCase, runLisCase),
			part("toggle", 60, genTogCase, runTogCase),
			part("stream", 50, genStreamCase, runStreamCase),
			part("endtoend", 60, genE2ECase, runE2ECase).real(),
		},
	})
}
