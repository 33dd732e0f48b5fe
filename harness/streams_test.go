package verif

import (
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// streamHalf is one direction of a byte stream with a bounded buffer
type streamHalf struct {
	mu      sync.Mutex
	buf     []byte
	limit   int
	held    bool // the network does not deliver
	ended   bool // no more writes, what is in the buffer can still be read
	broken  bool // nobody reads any more
	changed chan struct{}
}

func newStreamHalf(limit int) *streamHalf {
	return &streamHalf{limit: limit, changed: make(chan struct{})}
}

func (h *streamHalf) update(f func()) {
	h.mu.Lock()
	defer h.mu.Unlock()
	f()
	close(h.changed)
	h.changed = make(chan struct{})
}

// streamConn is a net.Conn in memory, it works with the fake clock
type streamConn struct {
	name    string
	in, out *streamHalf
	maxRead int
	mu      sync.Mutex
	rd, wd  time.Time
	writing chan struct{} // one writer at a time, as for a socket
	closed  chan struct{}
	once    sync.Once
}

func newStreamPair(limit, maxRead int) (*streamConn, *streamConn) {
	x, y := newStreamHalf(limit), newStreamHalf(limit)
	mk := func(name string, in, out *streamHalf) *streamConn {
		return &streamConn{name: name, in: in, out: out, maxRead: maxRead, writing: make(chan struct{}, 1), closed: make(chan struct{})}
	}
	return mk("a", x, y), mk("b", y, x)
}

type streamAddr string

func (a streamAddr) Network() string { return "stream" }
func (a streamAddr) String() string  { return string(a) }

func (c *streamConn) LocalAddr() net.Addr  { return streamAddr(c.name + "-local") }
func (c *streamConn) RemoteAddr() net.Addr { return streamAddr(c.name + "-remote") }

func (c *streamConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *streamConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	c.in.update(func() {})
	return nil
}

func (c *streamConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wd = t
	c.mu.Unlock()
	c.out.update(func() {})
	return nil
}

func (c *streamConn) wait(changed chan struct{}, write bool) error {
	c.mu.Lock()
	deadline := c.rd
	if write {
		deadline = c.wd
	}
	c.mu.Unlock()
	var timeout <-chan time.Time
	if !deadline.IsZero() {
		timer := time.NewTimer(time.Until(deadline))
		defer timer.Stop()
		timeout = timer.C
	}
	select {
	case <-changed:
		return nil
	case <-c.closed:
		return net.ErrClosed
	case <-timeout:
		return os.ErrDeadlineExceeded
	}
}

func (c *streamConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		select {
		case <-c.closed:
			return 0, net.ErrClosed
		default:
		}
		c.in.mu.Lock()
		if len(c.in.buf) > 0 && !c.in.held {
			if len(p) > c.maxRead {
				p = p[:c.maxRead]
			}
			n := copy(p, c.in.buf)
			c.in.buf = c.in.buf[n:]
			c.in.mu.Unlock()
			c.in.update(func() {})
			return n, nil
		}
		if c.in.ended && !c.in.held {
			c.in.mu.Unlock()
			return 0, io.EOF
		}
		changed := c.in.changed
		c.in.mu.Unlock()
		if err := c.wait(changed, false); err != nil {
			return 0, err
		}
	}
}

func (c *streamConn) Write(p []byte) (n int, err error) {
	select {
	case c.writing <- struct{}{}:
	case <-c.closed:
		return 0, net.ErrClosed
	}
	defer func() { <-c.writing }()
	for {
		select {
		case <-c.closed:
			return n, net.ErrClosed
		default:
		}
		c.out.mu.Lock()
		if c.out.broken {
			c.out.mu.Unlock()
			return n, io.ErrClosedPipe
		}
		room := c.out.limit - len(c.out.buf)
		if room > len(p) {
			room = len(p)
		}
		if room > 0 {
			c.out.buf = append(c.out.buf, p[:room]...)
			p = p[room:]
			n += room
		}
		c.out.mu.Unlock()
		if room > 0 {
			c.out.update(func() {})
		}
		if len(p) == 0 {
			return n, nil
		}
		c.out.mu.Lock()
		changed := c.out.changed
		full := len(c.out.buf) >= c.out.limit && !c.out.broken
		c.out.mu.Unlock()
		if !full {
			continue
		}
		if err := c.wait(changed, true); err != nil {
			return n, err
		}
	}
}

func (c *streamConn) Close() error {
	c.once.Do(func() {
		close(c.closed)
		c.out.update(func() { c.out.ended = true })
		c.in.update(func() { c.in.broken = true })
	})
	return nil
}

// ---- two stacks over such streams, with the connection types of the library

type StreamOp struct {
	Op   string `json:"op"` // send, idle, hold, go, mute, take
	Side int    `json:"s,omitempty"`
	Conn int    `json:"c,omitempty"`
	Ep   int    `json:"e,omitempty"`
	N    int    `json:"n,omitempty"`
	Size int    `json:"z,omitempty"`
}

type StreamCase struct {
	Layers  []Layer    `json:"layers"`
	MTU     int        `json:"mtu"`
	Kinds   []string   `json:"kinds"` // of the connections: tcp, unix
	Limit   int        `json:"limit"` // bytes that fit into a stream
	MaxRead int        `json:"maxread"`
	Eps     int        `json:"eps"`
	Ops     []StreamOp `json:"ops"`
	Ends    []int      `json:"ends"` // 0, 1: that side closes, 2: both at once
}

func genStreamCase(t *rapid.T) StreamCase {
	c := StreamCase{
		MTU:     drawOf(t, "mtu", 64, 300, 2048),
		Limit:   drawOf(t, "limit", 1, 50, 1000, 70000),
		MaxRead: drawOf(t, "maxread", 1, 7, 64, 70000),
		Eps:     drawUni(t, 1, 3, "eps"),
	}
	c.Layers = genLayers(t, []string{"stat", "flow", "filter", "forwarder", "probe", "lb"}, 3)
	for i := range c.Layers {
		c.Layers[i].Off = false
		if c.Layers[i].Kind == "lb" {
			c.Layers[i].Off = true
		}
	}
	c.Layers = append([]Layer{{Kind: "session"}}, c.Layers...)
	c.Layers = append(c.Layers, Layer{Kind: "frame"})
	for i, n := 0, drawUni(t, 1, 3, "conns"); i < n; i++ {
		c.Kinds = append(c.Kinds, drawOf(t, "kind", "tcp", "unix"))
		c.Ends = append(c.Ends, drawUni(t, 0, 2, "end"))
	}
	room := c.MTU - overheadOf(c.Layers)
	for n := drawUni(t, 2, 12, "ops"); n > 0; n-- {
		op := StreamOp{Side: drawUni(t, 0, 1, "s"), Conn: drawUni(t, 0, len(c.Kinds)-1, "c"), Ep: drawUni(t, 0, c.Eps-1, "e")}
		switch drawOf(t, "op", "send", "send", "send", "idle", "hold", "go", "mute", "take") {
		case "send":
			op.Op = "send"
			op.N = drawOf(t, "n", 1, 2, 5, 30)
			op.Size = drawUni(t, 8, room, "z")
		case "idle":
			op.Op = "idle"
			op.N = drawOf(t, "secs", 1, 5, 29, 61, 125, 700, 8000)
		case "hold":
			op.Op = "hold"
		case "go":
			op.Op = "go"
		case "mute":
			op.Op = "mute"
		case "take":
			op.Op = "take"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func streamPayload(side, conn, ep, n, size int) []byte {
	b := pattern(side*7+conn*3+ep+n, size)
	copy(b, []byte{byte(side), byte(conn), byte(ep), byte(n >> 16), byte(n >> 8), byte(n), byte(size >> 8), byte(size)})
	return b
}

func runStreamCase(e *Env, c StreamCase) {
	e.Bubble(func() {
		type flow struct{ side, conn, ep int } // side: the sender
		var mu sync.Mutex
		idx := [2]map[ustack.TransportConnection]int{{}, {}}
		announced := [2]map[int]int{{}, {}}
		closed := [2]map[int]int{{}, {}}
		next := map[flow]int{}
		sizes := map[flow][]int{}
		var rigs [2]*rig
		var eps [2][]ustack.EndPoint
		muted := map[[2]int]bool{}
		for s := range rigs {
			procs := append([]ustack.DataProcessor{ustack.NewBytesCodec()}, layersOf(c.Layers)...)
			r := newRig(fmt.Sprint("stack", s), c.MTU, procs...)
			rigs[s] = r
			for i := 0; i < c.Eps; i++ {
				ep := newEP(fmt.Sprint("ep", i), i)
				r.st.AddEndPoint(ep)
				eps[s] = append(eps[s], ep)
			}
			r.st.SetEventListener(func(ev ustack.Event) {
				mu.Lock()
				defer mu.Unlock()
				tc, ok := ev.Data.(ustack.TransportConnection)
				if !ok {
					return
				}
				i, ok := idx[s][tc]
				if !ok {
					e.Fail("side %d: event %d with an unknown connection", s, ev.Type)
					return
				}
				switch ev.Type {
				case ustack.UStackEventNewConnection:
					announced[s][i]++
				case ustack.UStackEventConnectionClosed:
					closed[s][i]++
				}
			})
			r.st.Run()
		}
		var raw [2][]*streamConn
		var tcs [2][]ustack.TransportConnection
		for i, kind := range c.Kinds {
			a, b := newStreamPair(c.Limit, c.MaxRead)
			for s, sc := range []*streamConn{a, b} {
				var tc ustack.TransportConnection
				if kind == "tcp" {
					tc = ustack.NewTCPTransportConnection(styled(fmt.Sprint("c", i)), sc)
				} else {
					tc = ustack.NewUDSTransportConnection(styled(fmt.Sprint("c", i)), sc)
				}
				raw[s] = append(raw[s], sc)
				tcs[s] = append(tcs[s], tc)
				mu.Lock()
				idx[s][tc] = i
				mu.Unlock()
				rigs[s].tp.next <- tc
			}
		}
		synctest.Wait()
		record := func(s, ep int, d ustack.EndPointData) {
			mu.Lock()
			ci, ok := idx[s][d.GetConnection()]
			mu.Unlock()
			b, _ := d.GetData().([]byte)
			f := flow{1 - s, ci, ep}
			n := next[f]
			e.Check(ok, "side %d endpoint %d received a message of an unknown connection", s, ep)
			e.Check(n < len(sizes[f]), "side %d endpoint %d received %d messages on connection %d, %d were sent; the last is %s", s, ep, n+1, ci, len(sizes[f]), short(b))
			want := streamPayload(1-s, ci, ep, n, sizes[f][n])
			e.Check(string(b) == string(want), "side %d endpoint %d on connection %d: message %d is %s, sent was %s", s, ep, ci, n, short(b), short(want))
			next[f]++
		}
		collect := func(all bool) bool {
			any := false
			for s := range eps {
				for i, ep := range eps[s] {
					if muted[[2]int{s, i}] && !all {
						continue
					}
					for _, d := range drain(ep.GetRxChannel()) {
						record(s, i, d)
						any = true
					}
				}
			}
			return any
		}
		left := [2][]int{make([]int, c.Eps), make([]int, c.Eps)}
		for s := range left {
			for i := range left[s] {
				left[s][i] = 400
			}
		}
		open := func(when string) {
			mu.Lock()
			defer mu.Unlock()
			for s := range tcs {
				for i, tc := range tcs[s] {
					e.Check(announced[s][i] == 1, "side %d: connection %d was announced %d times", s, i, announced[s][i])
					e.Check(closed[s][i] == 0 && !tc.Closed(), "side %d: connection %d ended %s", s, i, when)
				}
			}
		}
		idle, heldBack := false, false
		for _, op := range c.Ops {
			switch op.Op {
			case "send":
				f := flow{op.Side, op.Conn, op.Ep}
				for k := 0; k < op.N && left[op.Side][op.Ep] > 0; k++ {
					left[op.Side][op.Ep]--
					b := streamPayload(op.Side, op.Conn, op.Ep, len(sizes[f]), op.Size)
					sizes[f] = append(sizes[f], op.Size)
					eps[op.Side][op.Ep].GetTxChannel() <- epd(tcs[op.Side][op.Conn], b)
				}
			case "idle":
				time.Sleep(time.Duration(op.N) * time.Second)
				idle = true
			case "hold":
				h := raw[op.Side][op.Conn].in
				h.update(func() { h.held = true })
				heldBack = true
			case "go":
				h := raw[op.Side][op.Conn].in
				h.update(func() { h.held = false })
			case "mute":
				muted[[2]int{op.Side, op.Ep}] = true
			case "take":
				delete(muted, [2]int{op.Side, op.Ep})
			}
			synctest.Wait()
			collect(false)
			open("although nobody closed it")
		}
		for s := range raw {
			for _, sc := range raw[s] {
				sc.in.update(func() { sc.in.held = false })
			}
		}
		for {
			synctest.Wait()
			if !collect(true) {
				break
			}
		}
		for f, zs := range sizes {
			e.Check(next[f] == len(zs), "side %d endpoint %d received %d of the %d messages sent on connection %d", 1-f.side, f.ep, next[f], len(zs), f.conn)
		}
		open("although nobody closed it")
		for i, end := range c.Ends {
			switch end {
			case 2:
				go tcs[0][i].Close()
				tcs[1][i].Close()
			default:
				tcs[end][i].Close()
			}
			synctest.Wait()
			mu.Lock()
			for s := range tcs {
				for k, tc := range tcs[s] {
					want := 0
					if k <= i {
						want = 1
					}
					e.Check(closed[s][k] == want && tc.Closed() == (want == 1), "side %d: connection %d has %d closed events and closed is %v when connection %d was closed", s, k, closed[s][k], tc.Closed(), i)
				}
			}
			mu.Unlock()
		}
		e.ClassIf(idle, "idle")
		e.ClassIf(heldBack, "held-back")
		if len(sizes) > 0 {
			e.NonTrivial()
		}
	})
}

// ---- the same with real sockets and the real clock: nothing happens for a while

type IdleCase struct {
	Secs   int  `json:"secs"`
	Bytes  int  `json:"bytes"`  // more than the sockets take
	Client bool `json:"client"` // the side that does not take its data
}

func genIdleCase(t *rapid.T) IdleCase {
	secs := []int{11}
	if envInt("VERIF_SCALE_PCT", 100) > 1000 {
		secs = []int{11, 17, 31}
	}
	return IdleCase{Secs: drawOf(t, "secs", secs...), Bytes: drawUni(t, 9<<20, 14<<20, "bytes"), Client: drawBool(t, "client")}
}

// runSockIdleCase: connections on which nothing happens and ones whose peer does not
// read stay as they are, however long it takes
func runSockIdleCase(e *Env, c IdleCase) {
	type link struct {
		tc   ustack.TransportConnection
		peer net.Conn
	}
	type side struct {
		kind              string
		client            bool
		tp                ustack.Transport
		network, address  string
		idle, stuck, full link
		waiter            chan ustack.TransportConnection
		written           chan error
	}
	data := pattern(c.Bytes%251, c.Bytes)
	var sides []*side
	for _, what := range []string{"tcp", "uds", "tcp client", "uds client"} {
		kind, client := what[:3], len(what) > 3
		s := &side{kind: what, client: client, waiter: make(chan ustack.TransportConnection, 1), written: make(chan error, 1)}
		s.network, s.address = sockAddr(kind)
		connect := func() (l link) {
			if client {
				ln, err := net.Listen(s.network, s.address)
				e.Check(err == nil, "cannot listen: %v", err)
				defer ln.Close()
				tp := role(newSockTransport(kind, "idle"), false).SetAddress(s.address)
				e.Cleanup(func() { tp.Stop() })
				tp.Run()
				e.Check(within(func() { l.peer, err = ln.Accept() }) && err == nil, "%s: the client does not connect: %v", kind, err)
				e.Check(within(func() { l.tc = tp.NextConnection() }) && l.tc != nil, "%s: the connection is not handed out", kind)
				s.tp = tp
			} else {
				if s.tp == nil {
					s.tp = role(newSockTransport(kind, "idle"), true).SetAddress(s.address)
					e.Cleanup(func() { s.tp.Stop() })
					s.tp.Run()
				}
				var err error
				l.peer, err = dialRetry(s.network, s.address)
				e.Check(err == nil, "%s: the server cannot be connected: %v", kind, err)
				e.Check(within(func() { l.tc = s.tp.NextConnection() }) && l.tc != nil, "%s: the connection is not handed out", kind)
			}
			e.Cleanup(func() { l.peer.Close() })
			return l
		}
		s.idle, s.stuck, s.full = connect(), connect(), connect()
		// its peer does not read
		go func() {
			n, err := s.stuck.tc.Write(data)
			if err == nil && n != len(data) {
				err = fmt.Errorf("%d of %d bytes written", n, len(data))
			}
			s.written <- err
		}()
		// nobody reads from it here
		go s.full.peer.Write(data)
		go func() { s.waiter <- s.tp.NextConnection() }()
		sides = append(sides, s)
	}
	// servers whose application does not take the connections for a while
	type crowd struct {
		kind  string
		tp    ustack.Transport
		peers []net.Conn
	}
	var crowds []*crowd
	for _, kind := range []string{"tcp", "uds"} {
		k := &crowd{kind: kind}
		network, address := sockAddr(kind)
		k.tp = role(newSockTransport(kind, "untaken"), true).SetAddress(address)
		e.Cleanup(func() { k.tp.Stop() })
		k.tp.Run()
		for i := 0; i < 20+c.Bytes%30; i++ {
			p, err := dialRetry(network, address)
			e.Check(err == nil, "%s: the server cannot be connected: %v", kind, err)
			e.Cleanup(func() { p.Close() })
			p.Write([]byte(fmt.Sprintf("%4d", i)))
			k.peers = append(k.peers, p)
		}
		crowds = append(crowds, k)
	}
	time.Sleep(time.Duration(c.Secs) * time.Second)
	for _, k := range crowds {
		got := map[string]bool{}
		for i := range k.peers {
			var tc ustack.TransportConnection
			e.Check(within(func() { tc = k.tp.NextConnection() }) && tc != nil, "%s: %d peers are connected, %d connections were handed out after %d seconds", k.kind, len(k.peers), i, c.Secs)
			b, err := readFull(tc, 4)
			e.Check(err == nil && !got[string(b)], "%s: connection %d that was handed out after %d seconds does not carry what the peer wrote: %q %v", k.kind, i, c.Secs, b, err)
			got[string(b)] = true
		}
	}
	for _, s := range sides {
		for what, l := range map[string]link{"on which nothing happens": s.idle, "whose peer does not read": s.stuck, "from which nobody reads": s.full} {
			e.Check(!l.tc.Closed(), "%s: a connection %s ended after %d seconds", s.kind, what, c.Secs)
		}
		select {
		case tc := <-s.waiter:
			e.Fatal("%s: NextConnection returned %v although nobody connected and the transport runs", s.kind, tc)
		case err := <-s.written:
			// the system may have room for all of it
			e.Check(err == nil, "%s: a write that waits for its peer failed: %v", s.kind, err)
			s.written <- nil
		default:
		}
		_, err := s.idle.peer.Write([]byte("ping"))
		e.Check(err == nil, "%s: a connection on which nothing happened for %d seconds cannot be written by the peer: %v", s.kind, c.Secs, err)
		b, err := readFull(s.idle.tc, 4)
		e.Check(err == nil && string(b) == "ping", "%s: a connection on which nothing happened for %d seconds cannot be read: %q %v", s.kind, c.Secs, b, err)
		n, err := s.idle.tc.Write([]byte("pong"))
		e.Check(n == 4 && err == nil, "%s: a connection on which nothing happened for %d seconds cannot be written: %v", s.kind, c.Secs, err)
		got := make([]byte, 4)
		s.idle.peer.SetReadDeadline(time.Now().Add(patience))
		_, err = io.ReadFull(s.idle.peer, got)
		e.Check(err == nil && string(got) == "pong", "%s: a connection on which nothing happened for %d seconds does not carry data to the peer: %q %v", s.kind, c.Secs, got, err)

		got = make([]byte, len(data))
		s.stuck.peer.SetReadDeadline(time.Now().Add(patience))
		k, err := io.ReadFull(s.stuck.peer, got)
		e.Check(err == nil && string(got) == string(data), "%s: a peer that went on after %d seconds received %d of %d bytes (%v) or other ones", s.kind, c.Secs, k, len(data), err)
		var werr error
		e.Check(within(func() { werr = <-s.written }), "%s: the write does not return after the peer went on", s.kind)
		e.Check(werr == nil, "%s: a write that waited for its peer failed: %v", s.kind, werr)
		got, err = readFull(s.full.tc, len(data))
		e.Check(err == nil && string(got) == string(data), "%s: data that waited for %d seconds does not arrive: %v", s.kind, c.Secs, err)
		if !s.client {
			p, err := dialRetry(s.network, s.address)
			e.Check(err == nil, "%s: the server cannot be connected after %d seconds: %v", s.kind, c.Secs, err)
			defer p.Close()
			var tc ustack.TransportConnection
			e.Check(within(func() { tc = <-s.waiter }) && tc != nil, "%s: the waiter does not get the new connection after %d seconds", s.kind, c.Secs)
		}
	}
	e.Class("idle-real")
	e.NonTrivial()
}

// runStackIdleCase: two stacks over sockets, the application of one does not take its data
func runStackIdleCase(e *Env, c IdleCase) {
	type pair struct {
		kind     string
		eps      [2][2]ustack.EndPoint
		conns    [2]ustack.TransportConnection
		mu       sync.Mutex
		events   int
		sent     int
		received int
	}
	const mtu = 60000
	msg := func(n int) []byte { return streamPayload(0, 0, 0, n, mtu-500) }
	count := c.Bytes / (mtu - 500)
	var pairs []*pair
	for _, kind := range []string{"tcp", "uds"} {
		p := &pair{kind: kind}
		_, address := sockAddr(kind)
		var ready [2]chan ustack.TransportConnection
		for s := range p.eps {
			ready[s] = make(chan ustack.TransportConnection, 1)
			st := ustack.NewUStack().SetOption("MTU", mtu).
				AppendDataProcessor(ustack.NewBytesCodec()).
				AppendDataProcessor(ustack.NewSessionResolver()).
				AppendDataProcessor(ustack.NewFrameDecoder())
			for i := range p.eps[s] {
				p.eps[s][i] = newEP(fmt.Sprint("ep", i), i)
				st.AddEndPoint(p.eps[s][i])
			}
			st.SetEventListener(func(ev ustack.Event) {
				switch ev.Type {
				case ustack.UStackEventNewConnection:
					ready[s] <- ev.Data.(ustack.TransportConnection)
				case ustack.UStackEventConnectionClosed:
					p.mu.Lock()
					p.events++
					p.mu.Unlock()
				}
			})
			tp := role(newSockTransport(kind, "idle"), s == 0).SetAddress(address)
			st.AddTransport(tp)
			e.Cleanup(func() { tp.Stop() })
			st.Run()
		}
		for s := range ready {
			e.Check(within(func() { p.conns[s] = <-ready[s] }), "%s: the stacks do not connect", kind)
		}
		// nobody takes the data of endpoint 0 of the other side
		s := 0
		if c.Client {
			s = 1
		}
		go func() {
			for n := 0; n < count+512; n++ {
				p.eps[s][0].GetTxChannel() <- epd(p.conns[s], msg(n))
			}
		}()
		p.sent = count + 512
		pairs = append(pairs, p)
	}
	time.Sleep(time.Duration(c.Secs) * time.Second)
	for _, p := range pairs {
		s := 0
		if c.Client {
			s = 1
		}
		p.mu.Lock()
		e.Check(p.events == 0, "%s: a connection ended after %d seconds in which the application did not take its data", p.kind, c.Secs)
		p.mu.Unlock()
		// the other direction works
		p.eps[1-s][1].GetTxChannel() <- epd(p.conns[1-s], []byte("other direction"))
		var d ustack.EndPointData
		e.Check(within(func() { d = <-p.eps[s][1].GetRxChannel() }), "%s: the direction that is not stuck does not work after %d seconds", p.kind, c.Secs)
		b, _ := d.GetData().([]byte)
		e.Check(string(b) == "other direction", "%s: the direction that is not stuck delivers %s", p.kind, short(b))
		for n := 0; n < p.sent; n++ {
			e.Check(within(func() { d = <-p.eps[1-s][0].GetRxChannel() }), "%s: message %d of %d does not arrive after the application was stuck for %d seconds", p.kind, n, p.sent, c.Secs)
			b, _ = d.GetData().([]byte)
			e.Check(string(b) == string(msg(n)), "%s: message %d after %d seconds is %s", p.kind, n, c.Secs, short(b))
		}
	}
	e.Class("idle-real")
	e.NonTrivial()
}
