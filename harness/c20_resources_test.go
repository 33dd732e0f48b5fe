package verif

import (
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
	"weak"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C20: what is gone leaves nothing behind

type ResConn struct {
	Feed [][]byte `json:"feed"`
	Send []int    `json:"send,omitempty"` // sizes of messages sent to it
	End  string   `json:"end"`
	Life int      `json:"life,omitempty"` // milliseconds it lives
	Del  bool     `json:"del,omitempty"`  // belongs to the transport that is deleted
}

type ResEp struct {
	Session int  `json:"s"`
	Lis     bool `json:"lis,omitempty"`
	Pending int  `json:"pend,omitempty"`  // messages put into it after its deletion
	Full    bool `json:"full,omitempty"`  // its channel is full when it is deleted
	Late    bool `json:"late,omitempty"`  // deleted after the connections ended
	Stuck   int  `json:"stuck,omitempty"` // messages it has to send when it is deleted, the first cannot be written
}

type ResCase struct {
	Layers   []Layer   `json:"layers"`
	Interval int       `json:"interval"`
	Collect  int       `json:"collect"`
	Timeout  int       `json:"timeout"`
	Conns    []ResConn `json:"conns"`
	Eps      []ResEp   `json:"eps"`
	Together bool      `json:"together,omitempty"` // all connections are open before the first ends
	OffEnd   []int     `json:"offend,omitempty"`   // these layers are switched off when connections end
}

var resEnds = []string{"eof", "err", "close", "writefail", "both", "late"}

func genResCase(t *rapid.T) ResCase {
	c := ResCase{
		Layers:   genLayers(t, []string{"frame", "session", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "probe", "frame", "heartbeat"}, 5),
		Interval: drawUni(t, 1, 4, "interval"),
		Collect:  drawOf(t, "collect", 0, 0, 1, 3),
		Timeout:  drawOf(t, "timeout", 30, 2, 5),
		Together: drawPct(t, 60, "together"),
	}
	for i := range c.Layers {
		c.Layers[i].Off = c.Layers[i].Kind == "lb"
	}
	for i := range c.Layers {
		if drawPct(t, 15, "offend") {
			c.OffEnd = append(c.OffEnd, i)
		}
	}
	for n := drawUni(t, 0, 5, "nconns"); n > 0; n-- {
		rc := ResConn{End: drawOf(t, "end", resEnds...), Del: drawPct(t, 25, "del")}
		for k := drawUni(t, 0, 4, "nfeed"); k > 0; k-- {
			var b []byte
			switch drawUni(t, 0, 5, "what") {
			case 4, 5: // what a layer keeps for itself
				var own []int
				for i, l := range c.Layers {
					if l.Kind == "heartbeat" || l.Kind == "stat" {
						own = append(own, i)
					}
				}
				b = []byte("?")
				if len(own) > 0 {
					i := drawOf(t, "own", own...)
					switch {
					case c.Layers[i].Kind == "heartbeat":
						b = []byte{0x83}
					case drawBool(t, "request"):
						b = []byte{0x10}
					default:
						b = append(append([]byte{0x23}, make([]byte, 16)...), "other"...)
					}
					b = wrap(c.Layers[i+1:], b, 0)
				}
			case 0: // a part of a frame
				b = append(be32(uint32(drawUni(t, 1, 40, "l"))), make([]byte, drawUni(t, 0, 10, "n"))...)
			case 1:
				b = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "bytes")
			case 2:
				b = be32(5)[:drawUni(t, 1, 4, "k")]
			default:
				b = wrap(c.Layers, []byte("hello"), uint32(drawUni(t, 0, 3, "to")))
			}
			rc.Feed = append(rc.Feed, b)
		}
		for k := drawUni(t, 0, 3, "nsend"); k > 0; k-- {
			rc.Send = append(rc.Send, drawUni(t, 1, 60, "size"))
		}
		if drawPct(t, 40, "lives") {
			rc.Life = drawUni(t, 0, 9000, "life")
		}
		c.Conns = append(c.Conns, rc)
	}
	for n := drawUni(t, 0, 3, "neps"); n > 0; n-- {
		c.Eps = append(c.Eps, ResEp{Session: drawUni(t, 0, 3, "s"), Lis: drawPct(t, 30, "lis"), Pending: drawUni(t, 0, 2, "pend"), Full: drawPct(t, 15, "full"), Late: drawPct(t, 50, "late"), Stuck: max(0, drawUni(t, -6, 4, "stuck"))})
	}
	return c
}

func runResCase(e *Env, c ResCase) {
	e.Bubble(func() {
		procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
		for _, l := range c.Layers {
			p := newLayer(l)
			switch l.Kind {
			case "heartbeat":
				p.SetOption("IntervalInSecond", c.Interval)
				p.SetOption("TimeoutInSecond", c.Timeout)
			case "stat":
				p.SetOption("Collect.IntervalInSecond", c.Collect)
			}
			procs = append(procs, p)
		}
		r := newRig("s", 256, procs...)
		main := newEP("main", 0)
		r.st.AddEndPoint(main)
		r.st.Run()
		// a first connection, so that everything that is made once is made
		warm := newMemConn("warm")
		r.tp.offer(warm)
		warm.feedErr([]byte{0, 0}, io.EOF)
		time.Sleep(10 * time.Second)
		synctest.Wait()
		drain(main.GetRxChannel())
		before := runtime.NumGoroutine()

		var conns []weak.Pointer[memConn]
		var ends []string
		var epsWeak []weak.Pointer[ustack.DefaultEndPoint]
		var tpWeak weak.Pointer[memTransport]
		history := func() {
			tp2 := newMemTransport("second")
			if len(c.Conns) > 0 {
				tpWeak = weak.Make(tp2)
				r.st.AddTransport(tp2)
			}
			var eps []ustack.EndPoint
			for i, re := range c.Eps {
				ep := newEP(fmt.Sprint("ep", i), re.Session)
				if d, ok := ep.(*ustack.DefaultEndPoint); ok {
					epsWeak = append(epsWeak, weak.Make(d))
				}
				if re.Lis {
					ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
				}
				if re.Full {
					for len(ep.GetRxChannel()) < cap(ep.GetRxChannel()) {
						ep.GetRxChannel() <- ustack.NewEndPointData()
					}
				}
				r.st.AddEndPoint(ep)
				eps = append(eps, ep)
			}
			deleteEp := func(i int) {
				var stuck *memConn
				if n := c.Eps[i].Stuck; n > 0 {
					stuck = newMemConn("stuck")
					conns = append(conns, weak.Make(stuck))
					ends = append(ends, "stuck")
					stuck.setGate(make(chan struct{}))
					r.tp.offer(stuck)
					synctest.Wait()
					for ; n > 0; n-- {
						eps[i].GetTxChannel() <- epd(stuck, []byte("stuck"))
					}
					synctest.Wait()
				}
				r.st.DeleteEndPoint(eps[i])
				if stuck != nil {
					stuck.Close()
					synctest.Wait()
				}
				for k := 0; k < c.Eps[i].Pending; k++ {
					eps[i].GetTxChannel() <- epd(warm, []byte("late"))
				}
				eps[i].SetDataListener(nil)
			}
			end := func(cn *memConn, rc ResConn) {
				for _, i := range c.OffEnd {
					procs[i+1].SetEnable(false)
					defer procs[i+1].SetEnable(!c.Layers[i].Off)
				}
				switch rc.End {
				case "eof":
					cn.feedErr(nil, io.EOF)
				case "err":
					cn.feedErr([]byte{0, 0, 0, 9, 1}, errPeer)
				case "close":
					cn.Close()
				case "writefail":
					cn.setFailAfter(0)
					main.GetTxChannel() <- epd(cn, []byte("x"))
				case "late":
					// a read returns after the failing write closed it
					gate := make(chan struct{})
					cn.mu.Lock()
					cn.lateGate, cn.late = gate, [][]byte{{0, 0, 0}, {9, 1}}
					if len(rc.Feed) > 0 {
						cn.late = append(cn.late, append([]byte(nil), rc.Feed[0]...))
					}
					cn.mu.Unlock()
					cn.setFailAfter(0)
					main.GetTxChannel() <- epd(cn, []byte("x"))
					synctest.Wait()
					close(gate)
				default:
					cn.setFailAfter(0)
					cn.feedErr(nil, errPeer)
					main.GetTxChannel() <- epd(cn, []byte("x"))
				}
				synctest.Wait()
				drain(main.GetRxChannel())
			}
			var open []*memConn
			for i, rc := range c.Conns {
				cn := newMemConn(fmt.Sprint("c", i))
				conns = append(conns, weak.Make(cn))
				ends = append(ends, rc.End)
				if rc.Del {
					tp2.offer(cn)
				} else {
					r.tp.offer(cn)
				}
				synctest.Wait()
				for _, b := range rc.Feed {
					cn.feed(b)
				}
				for _, n := range rc.Send {
					main.GetTxChannel() <- epd(cn, pattern(n, n))
				}
				synctest.Wait()
				time.Sleep(time.Duration(rc.Life) * time.Millisecond)
				drain(main.GetRxChannel())
				if c.Together {
					open = append(open, cn)
				} else {
					end(cn, rc)
				}
			}
			for i := range eps {
				if !c.Eps[i].Late {
					deleteEp(i)
				}
			}
			for i, cn := range open {
				end(cn, c.Conns[i])
			}
			for i := range eps {
				if c.Eps[i].Late {
					deleteEp(i)
				}
			}
			if len(c.Conns) > 0 {
				r.st.DeleteTransport(tp2)
			}
			// the transport of the harness
			r.tp.mu.Lock()
			r.tp.conns = nil
			r.tp.mu.Unlock()
		}
		history()
		synctest.Wait()
		drain(main.GetRxChannel())
		// what runs once per interval notices the end then
		time.Sleep(time.Duration(max(c.Interval, c.Collect)+40) * time.Second)
		synctest.Wait()

		left := 0
		for i := 0; i < 200; i++ {
			if left = runtime.NumGoroutine() - before; left <= 0 {
				break
			}
			realPause(10 * time.Millisecond)
		}
		e.Check(left <= 0, "%d goroutines more than before the %d connections and %d endpoints came and went", left, len(c.Conns), len(c.Eps))

		kept := func() string {
			for i, w := range conns {
				if w.Value() != nil {
					return fmt.Sprintf("connection %d (%s)", i, ends[i])
				}
			}
			for i, w := range epsWeak {
				if w.Value() != nil {
					return fmt.Sprintf("endpoint %d", i)
				}
			}
			if tpWeak.Value() != nil {
				return "the transport"
			}
			return ""
		}
		if len(conns) > 0 || len(c.Eps) > 0 {
			what := "?"
			for i := 0; i < 12 && what != ""; i++ {
				if i > 2 {
					realPause(10 * time.Millisecond)
				}
				runtime.GC()
				what = kept()
			}
			e.Check(what == "", "%s still kept in memory after its end", what)
		}
		runtime.KeepAlive(r)
		e.ClassIf(len(conns) > 1, "several-connections")
		for _, rc := range c.Conns {
			e.Class("end-" + rc.End)
			e.ClassIf(rc.Del, "deleted-transport")
		}
		for _, re := range c.Eps {
			e.ClassIf(re.Full, "full-endpoint")
		}
		if len(conns) > 0 && len(c.Layers) > 0 {
			e.NonTrivial()
		}
	})
}

// realPause sleeps outside the clock of the bubble
func realPause(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

// ---- sockets: descriptors and goroutines

type ResSockCase struct {
	Kind   string  `json:"kind"`
	Layers []Layer `json:"layers"`
	Rounds []struct {
		Clients int  `json:"clients"`
		Raw     int  `json:"raw"`    // peers without a stack
		Msgs    int  `json:"msgs"`   // per client and direction
		First   bool `json:"first"`  // the server goes first
		Closes  int  `json:"closes"` // connections the clients close themselves
	} `json:"rounds"`
}

func genResSockCase(t *rapid.T) ResSockCase {
	c := ResSockCase{Kind: drawOf(t, "kind", "tcp", "uds")}
	c.Layers = genLayers(t, []string{"session", "stat", "flow", "filter", "probe"}, 3)
	c.Layers = append(c.Layers, Layer{Kind: "frame"})
	for n := drawUni(t, 1, 3, "rounds"); n > 0; n-- {
		r := struct {
			Clients int  `json:"clients"`
			Raw     int  `json:"raw"`
			Msgs    int  `json:"msgs"`
			First   bool `json:"first"`
			Closes  int  `json:"closes"`
		}{drawUni(t, 0, 3, "clients"), drawUni(t, 0, 3, "raw"), drawUni(t, 0, 5, "msgs"), drawBool(t, "first"), drawUni(t, 0, 2, "closes")}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

func countFDs() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// eventually waits until f is true
func eventually(f func() bool) bool {
	end := time.Now().Add(patience)
	for pause := 50 * time.Microsecond; ; pause = min(2*pause, 20*time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(pause)
	}
}

func runResSockCase(e *Env, c ResSockCase) {
	// what the runtime opens once
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	stack := func(name string) (ustack.UStack, ustack.EndPoint, chan ustack.TransportConnection) {
		st := ustack.NewUStack().SetName(name)
		st.AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range c.Layers {
			st.AppendDataProcessor(newLayer(l))
		}
		ep := newEP(name, 0)
		st.AddEndPoint(ep)
		ch := make(chan ustack.TransportConnection, 100)
		st.SetEventListener(func(ev ustack.Event) {
			if ev.Type == ustack.UStackEventNewConnection {
				ch <- ev.Data.(ustack.TransportConnection)
			}
		})
		return st, ep, ch
	}
	take := func(ch chan ustack.TransportConnection) ustack.TransportConnection {
		select {
		case x := <-ch:
			return x
		case <-time.After(patience):
			return nil
		}
	}
	recv := func(ep ustack.EndPoint, n int) bool {
		for i := 0; i < n; i++ {
			select {
			case <-ep.GetRxChannel():
			case <-time.After(patience):
				return false
			}
		}
		return true
	}
	network, addr := sockAddr(c.Kind)
	e.Cleanup(func() {
		if c.Kind == "uds" {
			os.Remove(addr)
		}
	})
	before, fds := runtime.NumGoroutine(), countFDs()
	server, sep, sch := stack("server")
	server.Run()
	all := 0
	for i, rd := range c.Rounds {
		tp := newSockTransport(c.Kind, "s").ForServer(true).SetAddress(addr)
		server.AddTransport(tp)
		var raws []net.Conn
		for k := 0; k < rd.Raw; k++ {
			n, err := dialRetry(network, addr)
			e.Check(err == nil, "round %d: %v", i, err)
			raws = append(raws, n)
			n.Write([]byte{0, 0, 0, 9, 1})
			e.Check(take(sch) != nil, "round %d: the server does not see a connection", i)
		}
		type client struct {
			st ustack.UStack
			ep ustack.EndPoint
			tp ustack.Transport
			c  ustack.TransportConnection
		}
		var cls []client
		for k := 0; k < rd.Clients; k++ {
			st, ep, ch := stack("client")
			ct := newSockTransport(c.Kind, "c").ForServer(false).SetAddress(addr).SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 1<<30)
			st.AddTransport(ct)
			st.Run()
			cc := take(ch)
			sc := take(sch)
			e.Check(cc != nil && sc != nil, "round %d: client %d is not connected", i, k)
			cls = append(cls, client{st, ep, ct, cc})
			for m := 0; m < rd.Msgs; m++ {
				ep.GetTxChannel() <- epd(cc, []byte("up"))
				sep.GetTxChannel() <- epd(sc, []byte("down"))
			}
			e.Check(recv(sep, rd.Msgs) && recv(ep, rd.Msgs), "round %d: messages of client %d are missing", i, k)
			all++
		}
		for k := 0; k < rd.Closes && k < len(cls); k++ {
			cls[k].c.Close()
		}
		stop := func() { server.DeleteTransport(tp) }
		if rd.First {
			stop()
		}
		for _, cl := range cls {
			cl.st.DeleteTransport(cl.tp)
			cl.st.DeleteEndPoint(cl.ep)
		}
		for _, n := range raws {
			n.Close()
		}
		if !rd.First {
			stop()
		}
	}
	server.DeleteEndPoint(sep)
	e.Check(eventually(func() bool { return countFDs() <= fds }), "%d file descriptors are open, %d before", countFDs(), fds)
	if !eventually(func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		e.Fatal("%d goroutines, %d before\n%s", runtime.NumGoroutine(), before, trimStack(buf[:runtime.Stack(buf, true)]))
	}
	e.Class(c.Kind)
	if all > 0 {
		e.NonTrivial()
	}
}

// ---- a server whose clients come and go

type ResGoneCase struct {
	Kind   string   `json:"kind"`
	Layers []Layer  `json:"layers"`
	Conns  []string `json:"conns"` // how each one ends: peer, own
	Keep   int      `json:"keep"`  // this many more stay open
}

func genResGoneCase(t *rapid.T) ResGoneCase {
	c := ResGoneCase{Kind: drawOf(t, "kind", "tcp", "uds")}
	c.Layers = genLayers(t, []string{"session", "stat", "flow", "filter", "probe", "heartbeat"}, 3)
	c.Layers = append(c.Layers, Layer{Kind: "frame"})
	for n := drawUni(t, 8, 30, "conns"); n > 0; n-- {
		c.Conns = append(c.Conns, drawOf(t, "end", "peer", "own"))
	}
	c.Keep = drawUni(t, 1, 3, "keep")
	return c
}

// weakly returns a function that tells whether the connection is still there
func weakly(c ustack.TransportConnection) func() bool {
	switch x := c.(type) {
	case *ustack.TCPTransportConnection:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	case *ustack.UDSTransportConnection:
		w := weak.Make(x)
		return func() bool { return w.Value() != nil }
	}
	return func() bool { return false }
}

func runResGoneCase(e *Env, c ResGoneCase) {
	network, addr := sockAddr(c.Kind)
	e.Cleanup(func() {
		if c.Kind == "uds" {
			os.Remove(addr)
		}
	})
	st := ustack.NewUStack().SetName("server")
	st.AppendDataProcessor(ustack.NewBytesCodec())
	for _, l := range c.Layers {
		st.AppendDataProcessor(newLayer(l))
	}
	ep := newEP("server", 0)
	st.AddEndPoint(ep)
	tp := newSockTransport(c.Kind, "s").ForServer(true).SetAddress(addr)
	st.AddTransport(tp)
	began, ended := make(chan ustack.TransportConnection, 100), make(chan bool, 100)
	st.SetEventListener(func(ev ustack.Event) {
		switch ev.Type {
		case ustack.UStackEventNewConnection:
			began <- ev.Data.(ustack.TransportConnection)
		case ustack.UStackEventConnectionClosed:
			ended <- true
		}
	})
	st.Run()
	e.Cleanup(func() { st.DeleteTransport(tp); st.DeleteEndPoint(ep) })
	var there []func() bool
	var open []net.Conn
	one := func(i int, how string) {
		n, err := dialRetry(network, addr)
		e.Check(err == nil, "connection %d: %v", i, err)
		var tc ustack.TransportConnection
		select {
		case tc = <-began:
		case <-time.After(patience):
			e.Fatal("connection %d is not announced", i)
		}
		ep.GetTxChannel() <- epd(tc, pattern(i, 10))
		n.Write([]byte{0, 0, 0, 9, 1})
		switch how {
		case "keep":
			open = append(open, n)
			return
		case "own":
			tc.Close()
		}
		if how == "peer" {
			n.Close()
		}
		select {
		case <-ended:
		case <-time.After(patience):
			e.Fatal("the end of connection %d is not announced", i)
		}
		n.Close()
		there = append(there, weakly(tc))
	}
	for i, how := range c.Conns {
		one(i, how)
	}
	for i := 0; i < c.Keep; i++ {
		one(len(c.Conns)+i, "keep")
	}
	left := 0
	ok := eventually(func() bool {
		runtime.GC()
		left = 0
		for _, f := range there {
			if f() {
				left++
			}
		}
		return left <= 3
	})
	for _, n := range open {
		n.Close()
	}
	e.Check(ok, "%d connections ended, %d of them are still reachable", len(there), left)
	e.Class(c.Kind)
	e.NonTrivial()
}

// ---- socket transports whose connections nobody takes

type ResWaitCase struct {
	Kind   string `json:"kind"`
	Rounds []struct {
		Dials int    `json:"dials"`
		Takes int    `json:"takes"`
		Close string `json:"close"` // who closes first: stop, peers, some
	} `json:"rounds"`
}

func genResWaitCase(t *rapid.T) ResWaitCase {
	c := ResWaitCase{Kind: drawOf(t, "kind", "tcp", "uds")}
	for n := drawUni(t, 1, 4, "rounds"); n > 0; n-- {
		c.Rounds = append(c.Rounds, struct {
			Dials int    `json:"dials"`
			Takes int    `json:"takes"`
			Close string `json:"close"`
		}{drawUni(t, 0, 40, "dials"), drawUni(t, 0, 8, "takes"), drawOf(t, "close", "stop", "peers", "some")})
	}
	return c
}

func runResWaitCase(e *Env, c ResWaitCase) {
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	network, addr := sockAddr(c.Kind)
	var peers []net.Conn
	e.Cleanup(func() {
		for _, p := range peers {
			p.Close()
		}
		if c.Kind == "uds" {
			os.Remove(addr)
		}
	})
	before, fds := runtime.NumGoroutine(), countFDs()
	tp := newSockTransport(c.Kind, "s").ForServer(true).SetAddress(addr)
	e.Cleanup(func() { tp.Stop() })
	most := 0
	for i, rd := range c.Rounds {
		tp.Run()
		for k := 0; k < rd.Dials; k++ {
			n, err := dialRetry(network, addr)
			e.Check(err == nil, "round %d: %v", i, err)
			peers = append(peers, n)
		}
		for k := 0; k < rd.Takes && k < rd.Dials; k++ {
			e.Check(within(func() { tp.NextConnection() }), "round %d: connection %d is not handed out", i, k)
		}
		most = max(most, rd.Dials-rd.Takes)
		if rd.Close != "stop" {
			for k, p := range peers {
				if rd.Close == "peers" || k%2 == 0 {
					p.Close()
				}
			}
		}
		e.Check(within(func() { tp.Stop() }), "round %d: Stop does not return", i)
		for _, p := range peers {
			p.Close()
		}
		peers = nil
	}
	e.Check(eventually(func() bool { return countFDs() <= fds }), "%d file descriptors are open, %d before", countFDs(), fds)
	if !eventually(func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		e.Fatal("%d goroutines, %d before, after %d connections were not taken\n%s", runtime.NumGoroutine(), before, most, trimStack(buf[:runtime.Stack(buf, true)]))
	}
	e.ClassIf(most > 16, "more-than-16")
	if most > 0 {
		e.NonTrivial()
	}
}

// ---- reference transports

type ResRefCase struct {
	Rounds []struct {
		Order string `json:"order"` // of the ends: sc, cs
		Up    int    `json:"up"`    // objects on the way to the server
		Down  int    `json:"down"`
		Taken int    `json:"taken"` // of those that the server takes
		Size  int    `json:"size"`  // of the queue
		Next  bool   `json:"next"`  // the client's connection is taken
		Close bool   `json:"close"` // the connections are closed by hand
		Stack bool   `json:"stack"` // the server belongs to a stack
	} `json:"rounds"`
}

func genResRefCase(t *rapid.T) ResRefCase {
	var c ResRefCase
	for n := drawUni(t, 1, 3, "rounds"); n > 0; n-- {
		r := struct {
			Order string `json:"order"`
			Up    int    `json:"up"`
			Down  int    `json:"down"`
			Taken int    `json:"taken"`
			Size  int    `json:"size"`
			Next  bool   `json:"next"`
			Close bool   `json:"close"`
			Stack bool   `json:"stack"`
		}{Order: drawOf(t, "order", "sc", "cs"), Up: drawUni(t, 0, 6, "up"), Down: drawUni(t, 0, 6, "down"), Taken: drawUni(t, 0, 3, "taken"),
			Size: drawUni(t, 6, 9, "size"), Next: drawPct(t, 80, "next"), Close: drawPct(t, 30, "close"), Stack: drawPct(t, 40, "stack")}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

type thing struct{ b [64]byte }

func runResRefCase(e *Env, c ResRefCase) {
	addr := fmt.Sprintf("res-%d", unique())
	var things []weak.Pointer[thing]
	var conns []weak.Pointer[ustack.ReferenceTransportConnection]
	var tps []weak.Pointer[ustack.ReferenceTransport]
	e.Bubble(func() {
		st := ustack.NewUStack().SetName("server")
		st.AppendDataProcessor(ustack.NewBytesCodec())
		st.Run()
		before := runtime.NumGoroutine()
		for i, rd := range c.Rounds {
			s := ustack.NewReferenceTransport(styled("s")).ForServer(true).SetAddress(addr).SetOption("MaxQueueSize", rd.Size)
			k := ustack.NewReferenceTransport(styled("c")).ForServer(false).SetAddress(addr).SetOption("MaxQueueSize", rd.Size)
			for _, x := range []ustack.Transport{s, k} {
				if r, ok := x.(*ustack.ReferenceTransport); ok {
					tps = append(tps, weak.Make(r))
				}
			}
			var taken []ustack.TransportConnection
			next := func(x ustack.Transport) ustack.TransportConnection {
				tc := x.NextConnection()
				if r, ok := tc.(*ustack.ReferenceTransportConnection); ok {
					conns = append(conns, weak.Make(r))
				}
				taken = append(taken, tc)
				return tc
			}
			put := func(tc ustack.TransportConnection, n int) {
				for ; n > 0; n-- {
					x := new(thing)
					things = append(things, weak.Make(x))
					e.Check(tc.SetReference(x) == nil, "round %d: SetReference failed", i)
				}
			}
			if rd.Stack {
				st.AddTransport(s)
			} else {
				s.Run()
			}
			k.Run()
			if rd.Next {
				put(next(k), rd.Up)
			}
			if !rd.Stack {
				tc := next(s)
				put(tc, rd.Down)
				for j := 0; j < rd.Taken && j < rd.Up && rd.Next; j++ {
					tc.GetReference()
				}
			}
			synctest.Wait()
			if rd.Close {
				for _, tc := range taken {
					tc.Close()
				}
			}
			endS := func() {
				if rd.Stack {
					st.DeleteTransport(s)
				} else {
					s.Stop()
				}
			}
			if rd.Order == "sc" {
				endS()
				k.Stop()
			} else {
				k.Stop()
				endS()
			}
			synctest.Wait()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		left := 0
		for i := 0; i < 200; i++ {
			if left = runtime.NumGoroutine() - before; left <= 0 {
				break
			}
			realPause(10 * time.Millisecond)
		}
		e.Check(left <= 0, "%d goroutines more than before the reference transports came and went", left)
		what := "?"
		for i := 0; i < 12 && what != ""; i++ {
			if i > 2 {
				realPause(10 * time.Millisecond)
			}
			runtime.GC()
			what = ""
			for i, w := range things {
				if w.Value() != nil {
					what = fmt.Sprintf("object %d of %d", i, len(things))
				}
			}
			for i, w := range conns {
				if w.Value() != nil {
					what = fmt.Sprintf("connection %d of %d", i, len(conns))
				}
			}
			for i, w := range tps {
				if w.Value() != nil {
					what = fmt.Sprintf("transport %d of %d", i, len(tps))
				}
			}
		}
		e.Check(what == "", "%s still kept in memory after both sides were stopped", what)
		runtime.KeepAlive(st)
	})
	e.ClassIf(len(things) > 0, "objects-on-the-way")
	if len(things) > 0 && len(conns) > 0 {
		e.NonTrivial()
	}
}

// ---- messages and events: a stack that runs on does not keep them

type ResMsgCase struct {
	Layers []Layer `json:"layers"`
	Conns  int     `json:"conns"`
	Kinds  []int   `json:"kinds"` // what is done, again and again
	Rounds int     `json:"rounds"`
}

var resMsgKinds = []string{"out", "in", "out-too-long", "out-no-connection", "out-not-encodable", "in-unknown-session", "out-closed", "event", "listener", "in-garbage", "out-dest"}

func genResMsgCase(t *rapid.T) ResMsgCase {
	c := ResMsgCase{
		Layers: genLayers(t, []string{"frame", "session", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "probe"}, 5),
		Conns:  drawUni(t, 1, 3, "conns"),
		Rounds: drawUni(t, 80, 200, "rounds"),
	}
	for i := range c.Layers {
		c.Layers[i].Off = c.Layers[i].Kind == "lb"
	}
	for n := drawUni(t, 1, 5, "nkinds"); n > 0; n-- {
		c.Kinds = append(c.Kinds, drawUni(t, 0, len(resMsgKinds)-1, "kind"))
	}
	return c
}

func runResMsgCase(e *Env, c ResMsgCase) {
	e.Bubble(func() {
		gone := map[string][]func() bool{}
		var mu sync.Mutex
		note := func(what string, f func() bool) {
			mu.Lock()
			gone[what] = append(gone[what], f)
			mu.Unlock()
		}
		bytesGone := func(what string, b []byte) {
			w := weak.Make(&b[0])
			note(what, func() bool { return w.Value() == nil })
		}
		epdGone := func(what string, d ustack.EndPointData) {
			if x, ok := d.(*ustack.DefaultEndPointData); ok {
				w := weak.Make(x)
				note(what, func() bool { return w.Value() == nil })
			}
		}
		procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
		watch := func(way string) func(ustack.Context) bool {
			return func(ctx ustack.Context) bool {
				if ub := ctx.GetBuffer(); ub != nil {
					w := weak.Make(ub)
					note("buffers on the way "+way, func() bool { return w.Value() == nil })
				}
				return true
			}
		}
		for _, l := range c.Layers {
			p := newLayer(l)
			if x, ok := p.(*probe); ok {
				x.onUp, x.onLow = watch("down"), watch("up")
			}
			procs = append(procs, p)
		}
		r := newRig("s", 256, procs...)
		main := newEP("main", 0)
		r.st.AddEndPoint(main)
		r.st.SetEventListener(func(ustack.Event) {})
		main.SetEventListener(func(ustack.EndPoint, ustack.Event) {})
		r.st.Run()
		var conns []*memConn
		for i := 0; i < c.Conns; i++ {
			cn := newMemConn(fmt.Sprint("c", i))
			cn.setOnWrite(func([]byte) {})
			r.tp.offer(cn)
			conns = append(conns, cn)
		}
		ended := newMemConn("ended")
		r.tp.offer(ended)
		synctest.Wait()
		ended.feedErr(nil, io.EOF)
		synctest.Wait()

		round := func(n int, kind string) {
			cn := conns[n%len(conns)]
			data := pattern(n, 64+n%100)
			what := kind + " messages"
			send := func(to ustack.TransportConnection) ustack.EndPointData {
				d := ustack.NewEndPointData().SetData(data)
				if to != nil {
					d.SetConnection(to)
				}
				bytesGone(what, data)
				epdGone(what, d)
				return d
			}
			switch kind {
			case "out":
				main.GetTxChannel() <- send(cn)
			case "out-dest":
				main.GetTxChannel() <- send(cn).SetDestinationSession(n)
			case "out-too-long":
				data = pattern(n, 400)
				main.GetTxChannel() <- send(cn)
			case "out-no-connection":
				main.GetTxChannel() <- send(nil)
			case "out-not-encodable":
				v := &[64]byte{}
				w := weak.Make(v)
				note(what, func() bool { return w.Value() == nil })
				main.GetTxChannel() <- send(cn).SetData(v)
			case "out-closed":
				main.GetTxChannel() <- send(ended)
			case "in":
				cn.feed(wrap(c.Layers, data, 0))
			case "in-unknown-session":
				cn.feed(wrap(c.Layers, data, uint32(n+1)))
			case "in-garbage":
				// a whole frame, if there are frames, with less than the layers need
				cn.feed(wrap(c.Layers, nil, 0))
			case "event":
				v := &[64]byte{}
				w := weak.Make(v)
				note("events", func() bool { return w.Value() == nil })
				r.st.PublishEvent(ustack.Event{Type: 1000 + n%3, Source: v, Data: v})
			case "listener":
				v := &[64]byte{}
				w := weak.Make(v)
				note("replaced listeners", func() bool { return w.Value() == nil })
				main.SetEventListener(func(ustack.EndPoint, ustack.Event) { v[0]++ })
			}
			synctest.Wait()
			for _, d := range drain(main.GetRxChannel()) {
				if b, ok := d.GetData().([]byte); ok && len(b) >= 32 {
					bytesGone("received data", b)
				}
				epdGone("received EndPointData", d)
			}
			for _, x := range conns {
				x.take()
			}
		}
		for n := 0; n < c.Rounds; n++ {
			for _, k := range c.Kinds {
				round(n, resMsgKinds[k])
			}
			if n%16 == 0 {
				time.Sleep(time.Second)
			}
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		for _, x := range conns {
			x.take()
		}
		var bad string
		for i := 0; i < 12; i++ {
			if i > 2 {
				realPause(10 * time.Millisecond)
			}
			runtime.GC()
			bad = ""
			mu.Lock()
			for what, fs := range gone {
				kept := 0
				for _, f := range fs {
					if !f() {
						kept++
					}
				}
				// a few may be kept for a while, but not the more the more there were
				if len(fs) >= 60 && kept > len(fs)/3 {
					bad = fmt.Sprintf("%d of %d %s", kept, len(fs), what)
				}
			}
			mu.Unlock()
			if bad == "" {
				break
			}
		}
		e.Check(bad == "", "%s still kept in memory", bad)
		runtime.KeepAlive(r)
		runtime.KeepAlive(main)
		for _, k := range c.Kinds {
			e.Class(resMsgKinds[k])
		}
		if len(gone) > 0 && len(c.Layers) > 0 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C20",
		Rule: "a case is a running stack with random layers and a history of connections that receive whole, partial and meaningless data, are sent messages, live for a while and end in five ways, and of endpoints and a transport that are added and deleted; afterwards the number of goroutines and the reachability of every connection, endpoint and transport is compared with before; or of rounds of stacks and raw peers over real sockets, after which the open descriptors and goroutines are counted; or of many connections to a server that runs on, one after the other, of which no more than three may stay reachable once they ended; or of rounds of a socket transport with connections that nobody takes, after which descriptors and goroutines are counted; or of rounds of a pair of reference transports that are stopped with objects on the way, after which no object, connection or transport may be reachable; or of many messages and events of generated kinds (received, sent, dropped for various reasons) through a stack that runs on, most of which may not be reachable afterwards; non-trivial: at least one connection and one layer",
		Parts: []Part{
			part("history", 300, genResCase, runResCase),
			part("sockets-real", 40, genResSockCase, runResSockCase).real(),
			part("come-and-go-real", 20, genResGoneCase, runResGoneCase).real(),
			part("not-taken-real", 15, genResWaitCase, runResWaitCase).real(),
			part("reference", 60, genResRefCase, runResRefCase),
			part("messages", 250, genResMsgCase, runResMsgCase),
		},
	})
}
