package verif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C12: the socket transports can be run and stopped at any time

// patience is how long something that has to happen may take on a busy machine
const patience = 20 * time.Second

// sockAddr is an address nobody else uses
func sockAddr(kind string) (network, address string) {
	n := unique()
	if kind == "uds" {
		return "unix", filepath.Join(scratchDir, fmt.Sprintf("s%d", n))
	}
	pid := os.Getpid()
	// below the range of the local ports that dialing takes
	return "tcp", fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+(n/250)%250, 1+n%250, 12000+(pid/250)%5000)
}

func newSockTransport(kind, name string) ustack.Transport {
	if kind == "uds" {
		return ustack.NewUDSTransport(styled(name))
	}
	return ustack.NewTCPTransport(styled(name))
}

// within runs f and tells whether it came back in time
func within(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		return false
	}
}

func dialRetry(network, address string) (net.Conn, error) {
	end := time.Now().Add(patience)
	for {
		c, err := net.DialTimeout(network, address, patience)
		if err == nil {
			return c, nil
		}
		if time.Now().After(end) {
			return nil, err
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// sockPeer is the other side of a connection, without any ustack code
type sockPeer struct {
	net.Conn
	id     uint64
	tc     ustack.TransportConnection // after it was handed out
	closed bool                       // by us
	dead   bool                       // has to be closed by the transport
	seen   bool
}

// sawClose reads until the connection ends. Linux does not tell a TCP client
// whose handshake raced with the close of the listening socket that nobody is
// there until the client sends something (seen without any ustack code), so
// something is sent from time to time; a connection that somebody holds open
// does not end by that.
func (p *sockPeer) sawClose() error {
	end := time.Now().Add(patience)
	wait := 20 * time.Millisecond
	buf := make([]byte, 4096)
	for {
		p.SetReadDeadline(time.Now().Add(wait))
		_, err := p.Read(buf)
		if err == nil {
			continue
		}
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			return nil
		}
		if time.Now().After(end) {
			return err
		}
		wait = 500 * time.Millisecond
		p.SetWriteDeadline(time.Now().Add(wait))
		p.Write([]byte{0})
	}
}

func readFull(c ustack.TransportConnection, n int) (b []byte, err error) {
	b = make([]byte, n)
	got := 0
	ok := within(func() {
		for got < n {
			k, e := c.Read(b[got:])
			if k > 0 {
				got += k
			}
			if e != nil || k == 0 {
				err = fmt.Errorf("read %d of %d bytes: %v", got, n, e)
				return
			}
		}
	})
	if !ok {
		return nil, fmt.Errorf("only some of %d bytes arrived", n)
	}
	return b, err
}

type SockOp struct {
	Op string `json:"op"`
	N  int    `json:"n"`
	P  int    `json:"p"`
}

// size of a transfer, some are larger than any buffer of the system
func (op SockOp) size() int {
	if op.P >= 7 {
		return 60000 + op.N*100
	}
	return op.N + 1
}

// transferOut writes to the transport's side, the peer has to read the same
func transferOut(e *Env, at string, tc ustack.TransportConnection, peer net.Conn, data []byte) {
	type res struct {
		n   int
		err error
	}
	written := make(chan res, 1)
	go func() {
		n, err := tc.Write(data)
		written <- res{n, err}
	}()
	peer.SetReadDeadline(time.Now().Add(patience))
	b := make([]byte, len(data))
	n, err := io.ReadFull(peer, b)
	e.Check(err == nil, "%s: the peer received %d of %d bytes: %v", at, n, len(data), err)
	e.Check(bytes.Equal(b, data), "%s: the peer received something else", at)
	select {
	case r := <-written:
		e.Check(r.n == len(data) && r.err == nil, "%s: Write: %d, %v", at, r.n, r.err)
	case <-time.After(patience):
		e.Fatal("%s: Write does not return", at)
	}
	e.ClassIf(len(data) > 65536, "large")
}

// lastWords reads what is left of data that was written before the close.
func (p *sockPeer) lastWords(e *Env, at string, early, data []byte) {
	b := make([]byte, len(data)-len(early))
	p.SetReadDeadline(time.Now().Add(patience))
	n, err := io.ReadFull(p.Conn, b)
	e.Check(err == nil && bytes.Equal(append(early, b...), data), "%s: the peer received %d of the %d bytes written before the close, or others: %v", at, len(early)+n, len(data), err)
}

// writeThenRead writes data; the peer reads only as much as it takes for the
// Write to return, and what it read is returned.
func writeThenRead(e *Env, at string, p *sockPeer, data []byte) (early []byte) {
	type res struct {
		n   int
		err error
	}
	written := make(chan res, 1)
	go func() {
		n, err := p.tc.Write(data)
		written <- res{n, err}
	}()
	wait := 20 * time.Millisecond
	for start := time.Now(); time.Since(start) < patience; {
		select {
		case r := <-written:
			e.Check(r.n == len(data) && r.err == nil, "%s: Write: %d, %v", at, r.n, r.err)
			return early
		case <-time.After(wait):
		}
		wait = time.Millisecond
		b := make([]byte, min(8192, len(data)-len(early)))
		p.SetReadDeadline(time.Now().Add(wait))
		n, _ := p.Conn.Read(b)
		early = append(early, b[:n]...)
	}
	e.Fatal("%s: Write does not return", at)
	return nil
}

type SockCase struct {
	Rep   int      `json:"rep,omitempty"` // the steps are done that many times
	Kind  string   `json:"kind"`
	Stale bool     `json:"stale,omitempty"` // a process that died left its socket file
	Ops   []SockOp `json:"ops"`
}

func genSockCase(t *rapid.T) SockCase {
	c := SockCase{Kind: drawOf(t, "kind", "tcp", "uds")}
	c.Stale = c.Kind == "uds" && drawPct(t, 30, "stale")
	n := drawUni(t, 3, 25, "n")
	if drawPct(t, 80, "run") {
		c.Ops = append(c.Ops, SockOp{Op: "run"})
	}
	for i := 0; i < n; i++ {
		op := drawOf(t, "op", "dial", "dial", "next", "next", "send", "send", "recv", "run", "run", "stop", "run-stop", "wait-dial", "wait-stop",
			"close", "peer-close", "dials", "stop-run", "use-closed", "move", "write-stop")
		c.Ops = append(c.Ops, SockOp{Op: op, N: drawInt(t, 0, 5000, "n"), P: drawUni(t, 0, 9, "p")})
	}
	return c
}

func runSockCase(e *Env, c SockCase) {
	network, address := sockAddr(c.Kind)
	all := []string{address}
	tp := role(newSockTransport(c.Kind, "server"), true).SetAddress(address)
	if c.Stale {
		if l, err := net.ListenUnix("unix", &net.UnixAddr{Name: address, Net: "unix"}); err == nil {
			l.SetUnlinkOnClose(false)
			l.Close()
			e.Class("stale-file")
		}
	}
	var peers []*sockPeer
	pending := map[uint64]*sockPeer{}
	running := false
	var serialID uint64
	e.Cleanup(func() {
		tp.Stop()
		for _, p := range peers {
			p.Close()
		}
		for _, a := range all {
			if c.Kind == "uds" {
				os.Remove(a)
			}
		}
	})

	dial := func(at string) *sockPeer {
		conn, err := dialRetry(network, address)
		e.Check(err == nil, "%s: the server runs but cannot be connected: %v", at, err)
		serialID++
		p := &sockPeer{Conn: conn, id: serialID}
		conn.Write(binary.BigEndian.AppendUint64(nil, p.id))
		peers = append(peers, p)
		pending[p.id] = p
		return p
	}
	next := func(at string) ustack.TransportConnection {
		var tc ustack.TransportConnection
		e.Check(within(func() { tc = tp.NextConnection() }), "%s: NextConnection does not return", at)
		return tc
	}
	take := func(at string, tc ustack.TransportConnection) {
		e.Check(tc != nil, "%s: NextConnection returned nil, %d connections wait", at, len(pending))
		e.Check(!tc.Closed(), "%s: a new connection is closed", at)
		b, err := readFull(tc, 8)
		e.Check(err == nil, "%s: a new connection: %v", at, err)
		id := binary.BigEndian.Uint64(b)
		p := pending[id]
		e.Check(p != nil, "%s: connection %d was not expected (handed out before, or of an earlier run)", at, id)
		delete(pending, id)
		p.tc = tc
	}
	stopped := func(at string) {
		for _, p := range peers {
			if p.seen {
				continue
			}
			if p.tc != nil {
				e.Check(p.tc.Closed(), "%s: connection %d is still open after Stop", at, p.id)
			}
			if !p.closed {
				err := p.sawClose()
				e.Check(err == nil, "%s: the peer of connection %d does not see it closed after Stop: %v", at, p.id, err)
			}
			p.seen, p.dead = true, true
		}
		pending = map[uint64]*sockPeer{}
		conn, err := net.DialTimeout(network, address, patience)
		if err == nil {
			conn.Close()
		}
		e.Check(err != nil, "%s: a stopped server can still be connected", at)
	}
	stop := func(at string) {
		e.Check(within(func() { tp.Stop() }), "%s: Stop does not return", at)
		if running {
			stopped(at)
			e.Class("stopped")
		}
		running = false
	}
	run := func(at string) {
		e.Check(within(func() { tp.Run() }), "%s: Run does not return", at)
		running = true
	}
	pick := func(k int) *sockPeer {
		var open []*sockPeer
		for _, p := range peers {
			if p.tc != nil && !p.dead && !p.closed {
				open = append(open, p)
			}
		}
		if len(open) == 0 {
			if !running {
				return nil
			}
			if len(pending) == 0 {
				dial("a connection to use")
			}
			tc := next("a connection to use")
			take("a connection to use", tc)
			for _, p := range peers {
				if p.tc == tc {
					return p
				}
			}
		}
		return open[k%len(open)]
	}

	restarts, stops := 0, 0
	for i, op := range repeated(c.Ops, c.Rep) {
		at := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch op.Op {
		case "run":
			if !running && stops > 0 {
				restarts++
			}
			run(at)
		case "stop":
			if running {
				stops++
			}
			stop(at)
		case "write-stop":
			// what was written before the transport stops still arrives
			if p := pick(op.P); p != nil && running {
				last := pattern(i, op.N+1)
				if op.N%3 == 0 {
					last = pattern(i, 300000+op.N*100)
				}
				early := writeThenRead(e, at, p, last)
				e.Check(within(func() { tp.Stop() }), "%s: Stop does not return", at)
				p.lastWords(e, at, early, last)
				e.Class("written-before-stop")
				stops++
				stop(at)
			}
		case "run-stop":
			if !running {
				run(at)
				stop(at)
				stops++
			}
		case "stop-run":
			if running {
				e.ClassIf(len(pending) > 0, "stopped-with-pending")
				e.Check(within(func() { tp.Stop(); tp.Run() }), "%s: does not return", at)
				for _, p := range peers {
					if p.tc != nil {
						e.Check(p.tc.Closed(), "%s: connection %d is still open after Stop", at, p.id)
					}
					if !p.closed && !p.seen {
						err := p.sawClose()
						e.Check(err == nil, "%s: the peer of connection %d does not see it closed after Stop: %v", at, p.id, err)
					}
					p.seen, p.dead = true, true
				}
				pending = map[uint64]*sockPeer{}
				stops++
				restarts++
			}
		case "move":
			if !running {
				_, address = sockAddr(c.Kind)
				all = append(all, address)
				tp.SetAddress(address)
				e.Check(tp.GetAddress() == address, "%s: the address is %s", at, tp.GetAddress())
				e.ClassIf(stops > 0, "moved")
			}
		case "dial":
			if running {
				dial(at)
			}
		case "dials":
			if running {
				for k := 0; k < 20; k++ {
					dial(at)
				}
				e.Class("many-pending")
			}
		case "next":
			if running && len(pending) > 0 {
				take(at, next(at))
			}
		case "wait-dial":
			if running && len(pending) == 0 {
				got := make(chan ustack.TransportConnection, 1)
				go func() { got <- tp.NextConnection() }()
				time.Sleep(time.Duration(op.N%300) * time.Microsecond)
				dial(at)
				select {
				case tc := <-got:
					take(at, tc)
				case <-time.After(patience):
					e.Fatal("%s: NextConnection does not return the new connection", at)
				}
			}
		case "wait-stop":
			if running && len(pending) == 0 {
				got := make(chan ustack.TransportConnection, 1)
				go func() { got <- tp.NextConnection() }()
				time.Sleep(time.Duration(op.N%300) * time.Microsecond)
				stop(at)
				stops++
				select {
				case tc := <-got:
					e.Check(tc == nil || tc.Closed(), "%s: NextConnection returned an open connection after Stop", at)
				case <-time.After(patience):
					e.Fatal("%s: NextConnection still waits after Stop", at)
				}
			}
		case "send":
			if p := pick(op.P); p != nil {
				transferOut(e, at, p.tc, p.Conn, pattern(i, op.size()))
			}
		case "recv":
			if p := pick(op.P); p != nil {
				data := pattern(i, op.size())
				go p.Write(data)
				b, err := readFull(p.tc, len(data))
				e.Check(err == nil && bytes.Equal(b, data), "%s: received something else (%v)", at, err)
			}
		case "close":
			if p := pick(op.P); p != nil {
				var last, early []byte
				if op.P%3 != 0 {
					// what was written before still arrives
					last = pattern(i, op.N+1)
					if op.N%3 == 0 {
						// more than the peer's side takes without reading
						last = pattern(i, 300000+op.N*100)
						e.Class("much-written-before-close")
					}
					early = writeThenRead(e, at, p, last)
				}
				p.tc.Close()
				e.Check(p.tc.Closed(), "%s: Closed is false after Close", at)
				if last != nil {
					time.Sleep(time.Duration(op.N%7) * 100 * time.Microsecond)
					p.lastWords(e, at, early, last)
					e.Class("written-before-close")
				}
				err := p.sawClose()
				e.Check(err == nil, "%s: the peer does not see the close: %v", at, err)
				p.closed = true
				if op.N%2 == 0 {
					p.tc.Close()
				}
			}
		case "peer-close":
			if p := pick(op.P); p != nil {
				var last, got []byte
				if op.P%2 == 0 {
					last = pattern(i, op.N+1)
					p.SetWriteDeadline(time.Now().Add(patience))
					p.Write(last)
				}
				p.Close()
				p.closed = true
				ok := within(func() {
					b := make([]byte, 64+op.N)
					for {
						n, err := p.tc.Read(b)
						got = append(got, b[:n]...)
						if n == 0 || err != nil {
							return
						}
					}
				})
				e.Check(ok, "%s: Read does not return after the peer closed", at)
				e.Check(bytes.Equal(got, last), "%s: %d bytes were read before the end, the peer wrote %d before it closed, or they differ", at, len(got), len(last))
			}
		case "use-closed":
			for _, p := range peers {
				if p.tc == nil || !p.tc.Closed() {
					continue
				}
				e.Class("use-closed")
				n, _ := p.tc.Read(make([]byte, 8))
				e.Check(n == 0, "%s: read %d bytes from a closed connection", at, n)
				n, _ = p.tc.Write([]byte("12345678"))
				e.Check(n == 0, "%s: wrote %d bytes to a closed connection", at, n)
				p.tc.Close()
				break
			}
		}
		for _, p := range peers {
			if p.tc != nil && !p.dead && !p.closed {
				e.Check(!p.tc.Closed(), "%s: connection %d was closed by nobody", at, p.id)
			}
		}
	}
	// everything that waits is handed out
	if running {
		if len(pending) > 16 {
			e.Class("more-than-16-taken")
		}
		for len(pending) > 0 {
			take("end", next("end"))
		}
	}
	stop("end")
	time.Sleep(time.Millisecond)
	stopped("end")
	e.ClassIf(restarts > 0, "restarted")
	if len(peers) > 0 && stops > 0 {
		e.NonTrivial()
	}
}

// ---- client side

type SockCliCase struct {
	Kind string   `json:"kind"`
	Ops  []SockOp `json:"ops"`
}

func genSockCliCase(t *rapid.T) SockCliCase {
	c := SockCliCase{Kind: drawOf(t, "kind", "tcp", "uds")}
	n := drawUni(t, 3, 14, "n")
	for i := 0; i < n; i++ {
		op := drawOf(t, "op", "listen", "listen", "run", "run", "run", "connect", "connect", "send", "recv", "stop", "unlisten", "peer-close", "stop-run")
		c.Ops = append(c.Ops, SockOp{Op: op, N: drawInt(t, 0, 5000, "n"), P: drawUni(t, 0, 9, "p")})
	}
	return c
}

func runSockCliCase(e *Env, c SockCliCase) {
	network, address := sockAddr(c.Kind)
	tp := role(newSockTransport(c.Kind, "client"), false).SetAddress(address).
		SetOption("MaxRetryCount", 1<<30).SetOption("RetryIntervalInSecond", 0)
	var ln net.Listener
	running := false
	var tc ustack.TransportConnection
	var olds []ustack.TransportConnection
	var peer net.Conn
	var all []net.Conn
	serialID := 0
	e.Cleanup(func() {
		tp.Stop()
		if ln != nil {
			ln.Close()
		}
		for _, p := range all {
			p.Close()
		}
	})
	accept := func(at string) net.Conn {
		type deadliner interface{ SetDeadline(time.Time) error }
		ln.(deadliner).SetDeadline(time.Now().Add(patience))
		p, err := ln.Accept()
		e.Check(err == nil, "%s: the client runs but does not connect: %v", at, err)
		all = append(all, p)
		return p
	}
	ends := func(at string, p net.Conn) {
		sp := &sockPeer{Conn: p}
		err := sp.sawClose()
		e.Check(err == nil, "%s: the peer does not see the connection closed: %v", at, err)
	}
	// connected: a connection of this run is known to the peer
	connect := func(at string) {
		if !running || ln == nil || peer != nil {
			return
		}
		var x ustack.TransportConnection
		e.Check(within(func() { x = tp.NextConnection() }), "%s: the server listens, NextConnection does not return", at)
		e.Check(x != nil && !x.Closed(), "%s: the server listens, NextConnection returned %v", at, x)
		for _, o := range olds {
			e.Check(o != x, "%s: NextConnection returned an old connection", at)
		}
		tc = x
		serialID++
		id := fmt.Sprintf("%08d", serialID)
		tc.Write([]byte(id))
		for {
			p := accept(at)
			p.SetReadDeadline(time.Now().Add(patience))
			b := make([]byte, 8)
			if _, err := io.ReadFull(p, b); err == nil {
				e.Check(string(b) == id, "%s: the peer received %q instead of %q", at, b, id)
				peer = p
				break
			} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
				e.Fatal("%s: a connection of an earlier run is still open", at)
			}
			// one of an earlier run that was on the way
		}
		e.Class("connected")
	}
	afterStop := func(at string) {
		if tc != nil {
			e.Check(tc.Closed(), "%s: the connection is still open after Stop", at)
			olds = append(olds, tc)
			if peer != nil {
				ends(at, peer)
			}
		}
		tc, peer = nil, nil
	}
	stops := 0
	for i, op := range c.Ops {
		at := fmt.Sprintf("op %d (%s)", i, op.Op)
		switch op.Op {
		case "listen":
			if ln == nil {
				l, err := net.Listen(network, address)
				if err != nil {
					continue
				}
				ln = l
				e.ClassIf(running, "listen-later")
			}
		case "unlisten":
			// only when it is certain that there is no connection on the way
			if ln != nil && (!running || peer != nil) {
				ln.Close()
				ln = nil
			}
		case "run":
			e.Check(within(func() { tp.Run() }), "%s: Run does not return", at)
			running = true
		case "connect":
			connect(at)
		case "stop", "stop-run":
			if op.Op == "stop-run" && !running {
				break
			}
			var got chan ustack.TransportConnection
			waiting := running && (peer != nil || ln == nil)
			if waiting {
				got = make(chan ustack.TransportConnection, 1)
				go func() { got <- tp.NextConnection() }()
				time.Sleep(time.Duration(op.N%300) * time.Microsecond)
			}
			e.Check(within(func() { tp.Stop() }), "%s: Stop does not return", at)
			if waiting {
				select {
				case x := <-got:
					e.Check(x == nil || x.Closed(), "%s: NextConnection returned an open connection after Stop", at)
				case <-time.After(patience):
					e.Fatal("%s: NextConnection still waits after Stop", at)
				}
			}
			if running {
				stops++
				afterStop(at)
				// what was on the way is closed as well
				if ln != nil {
					ln.(interface{ SetDeadline(time.Time) error }).SetDeadline(time.Now().Add(3 * time.Millisecond))
					for {
						p, err := ln.Accept()
						if err != nil {
							break
						}
						all = append(all, p)
						ends(at+" on the way", p)
						e.Class("stopped-on-the-way")
					}
				}
			}
			running = false
			if op.Op == "stop-run" {
				e.Check(within(func() { tp.Run() }), "%s: Run does not return", at)
				running = true
			}
		case "send":
			if tc != nil {
				transferOut(e, at, tc, peer, pattern(i, op.size()))
			}
		case "recv":
			if tc != nil {
				data := pattern(i, op.size())
				go peer.Write(data)
				b, err := readFull(tc, len(data))
				e.Check(err == nil && bytes.Equal(b, data), "%s: received something else (%v)", at, err)
			}
		case "peer-close":
			if tc != nil {
				peer.Close()
				ok := within(func() {
					n, err := tc.Read(make([]byte, 8))
					if n != 0 || err == nil {
						e.Fail("%s: Read: %d, %v", at, n, err)
					}
				})
				e.Check(ok, "%s: Read does not return after the peer closed", at)
				tp.Stop()
				running = false
				stops++
				tc, peer = nil, nil
			}
		}
		if tc != nil {
			e.Check(!tc.Closed(), "%s: the connection was closed by nobody", at)
		}
	}
	if !running {
		tp.Run()
		running = true
	}
	if ln == nil {
		l, err := net.Listen(network, address)
		if err != nil {
			return
		}
		ln = l
	}
	connect("end")
	if stops > 0 {
		e.NonTrivial()
	}
}

// ---- retries of the client, with a fake clock

type RetryCase struct {
	Kind     string `json:"kind"`
	Count    int    `json:"count"`    // MaxRetryCount
	Interval int    `json:"interval"` // RetryIntervalInSecond
	ListenMs int    `json:"listen_ms"`
	StopMs   int    `json:"stop_ms"`           // -1: never
	Default  int    `json:"default,omitempty"` // 1: count not set, 2: interval not set, 4: set to something else
	Again    bool   `json:"again,omitempty"`   // it was run before, with other values
}

func genRetryCase(t *rapid.T) RetryCase {
	c := RetryCase{Kind: drawOf(t, "kind", "uds", "tcp"), Count: drawUni(t, 1, 8, "count"), Interval: drawUni(t, 1, 5, "interval"), StopMs: -1}
	if drawPct(t, 25, "default") {
		c.Default = drawUni(t, 1, 7, "which")
		if c.Default&1 != 0 {
			c.Count = 180
		}
		if c.Default&2 != 0 {
			c.Interval = 1
		}
	}
	c.Again = drawPct(t, 30, "again")
	total := c.Count * c.Interval * 1000
	c.ListenMs = drawUni(t, 0, total+2000, "listen")
	if drawPct(t, 40, "stop") {
		c.StopMs = drawUni(t, 1, total+2000, "stopms")
	}
	// away from the moments of the attempts
	fix := func(ms int) int {
		if ms > 0 && ms%1000 < 100 {
			ms += 100
		} else if ms%1000 > 900 {
			ms -= 100
		}
		return ms
	}
	c.ListenMs = fix(c.ListenMs)
	if c.StopMs >= 0 {
		c.StopMs = fix(c.StopMs)
		if c.StopMs == c.ListenMs {
			c.StopMs += 50
		}
	}
	return c
}

func runRetryCase(e *Env, c RetryCase) {
	network, address := sockAddr(c.Kind)
	var ln net.Listener
	attempts := 0 // that succeeded
	e.Bubble(func() {
		tp := role(newSockTransport(c.Kind, "client"), false).SetAddress(address)

		if c.Again {
			other := 1
			if c.Count < 3 {
				other = c.Count + 2
			}
			tp.SetOption("MaxRetryCount", other).SetOption("RetryIntervalInSecond", c.Interval+3)
			tp.Run()
			synctest.Wait()
			time.Sleep(500 * time.Millisecond)
			tp.Stop()
			if c.Default&1 != 0 {
				tp.SetOption("MaxRetryCount", nil)
			}
			if c.Default&2 != 0 {
				tp.SetOption("RetryIntervalInSecond", nil)
			}
			e.Class("run-before")
		}
		start := time.Now()

		// a value that is no number is as good as none
		if c.Default&1 == 0 {
			tp.SetOption("MaxRetryCount", c.Count)
		} else if c.Default&4 != 0 {
			tp.SetOption("MaxRetryCount", "3")
		}
		if c.Default&2 == 0 {
			tp.SetOption("RetryIntervalInSecond", c.Interval)
		} else if c.Default&4 != 0 {
			tp.SetOption("RetryIntervalInSecond", 2.5)
		}
		if c.ListenMs == 0 {
			ln, _ = net.Listen(network, address)
		}
		type res struct {
			tc ustack.TransportConnection
			at time.Duration
		}
		got := make(chan res, 1)
		tp.Run()
		go func() {
			tc := tp.NextConnection()
			got <- res{tc, time.Since(start)}
		}()
		at := func(ms int) { time.Sleep(time.Until(start.Add(time.Duration(ms) * time.Millisecond))) }
		listen := func() {
			if ln == nil && c.ListenMs > 0 {
				at(c.ListenMs)
				var err error
				ln, err = net.Listen(network, address)
				if err != nil {
					panic(err)
				}
			}
		}
		if c.StopMs >= 0 && c.StopMs < c.ListenMs {
			at(c.StopMs)
			tp.Stop()
			listen()
		} else {
			listen()
			if c.StopMs >= 0 {
				at(c.StopMs)
				tp.Stop()
			}
		}
		// the first attempt after it listens
		step := c.Interval * 1000
		attempt := (c.ListenMs + step - 1) / step
		okMs := attempt * step
		giveUp := attempt >= c.Count
		r := <-got
		ms := int(r.at / time.Millisecond)
		switch {
		case giveUp && c.StopMs >= 0 && c.StopMs < (c.Count-1)*step:
			e.Check(r.tc == nil && ms == c.StopMs, "stopped at %d ms: NextConnection returned %v at %d ms", c.StopMs, r.tc, ms)
			e.Class("stopped")
			e.NonTrivial()
		case giveUp:
			// between the last attempt and one interval later
			e.Check(r.tc == nil, "the server listens after the last attempt, but there is a connection")
			e.Check(ms >= (c.Count-1)*step, "%d attempts in intervals of %d s: gave up at %d ms", c.Count, c.Interval, ms)
			e.Check(ms <= c.Count*step || ms == c.StopMs, "%d attempts in intervals of %d s: NextConnection waited until %d ms", c.Count, c.Interval, ms)
			e.Class("gave-up")
			e.ClassIf(c.Count > 1, "gave-up-after-several")
			e.NonTrivial()
		case c.StopMs >= 0 && c.StopMs < okMs:
			e.Check(r.tc == nil && ms == c.StopMs, "stopped at %d ms: NextConnection returned %v at %d ms", c.StopMs, r.tc, ms)
			e.Class("stopped")
			e.NonTrivial()
		default:
			attempts = 1
			e.Check(r.tc != nil, "the server listens at %d ms, attempts every %d s: no connection", c.ListenMs, c.Interval)
			e.Check(ms >= c.ListenMs && ms <= okMs, "the server listens at %d ms, attempts every %d s: connected at %d ms", c.ListenMs, c.Interval, ms)
			e.Class("connected")
			if attempt > 0 {
				e.NonTrivial()
			}
			if c.StopMs < 0 {
				tp.Stop()
			}
			synctest.Wait()
			e.Check(r.tc.Closed(), "the connection is open after Stop")
		}
		tp.Stop()
		// nothing goes on after that
		time.Sleep(time.Hour)
	})
	if ln != nil {
		if !e.Failed() {
			ln.(interface{ SetDeadline(time.Time) error }).SetDeadline(time.Now().Add(500 * time.Microsecond))
			n := 0
			for {
				p, err := ln.Accept()
				if err != nil {
					break
				}
				n++
				p.Close()
			}
			e.guard(func() {
				e.Check(n == attempts, "%d connections reached the server, %d were expected: attempts go on after Stop or after the end", n, attempts)
			})
		}
		ln.Close()
	}
	if c.Kind == "uds" {
		os.Remove(address)
	}
}

// ---- run, stop, next and dial at the same time

type SockParCase struct {
	Kind    string  `json:"kind"`
	Threads [][]int `json:"threads"` // 0 run 1 stop
	Dialers int     `json:"dialers"`
	Takers  int     `json:"takers"`
	Dials   int     `json:"dials"`
}

func genSockParCase(t *rapid.T) SockParCase {
	c := SockParCase{Kind: drawOf(t, "kind", "tcp", "uds"), Dialers: drawUni(t, 1, 4, "dialers"), Takers: drawUni(t, 1, 2, "takers"), Dials: drawUni(t, 3, 30, "dials")}
	for i, n := 0, drawUni(t, 1, 3, "threads"); i < n; i++ {
		var th []int
		for k, m := 0, drawUni(t, 1, 8, "ops"); k < m; k++ {
			th = append(th, drawUni(t, 0, 1, "op"))
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func runSockParCase(e *Env, c SockParCase) {
	network, address := sockAddr(c.Kind)
	tp := newSockTransport(c.Kind, "server").SetAddress(address)
	var mu sync.Mutex
	var peers []net.Conn
	var taken []ustack.TransportConnection
	e.Cleanup(func() {
		tp.Stop()
		for _, p := range peers {
			p.Close()
		}
		if c.Kind == "uds" {
			os.Remove(address)
		}
	})
	tp.Run()
	var wg, tg sync.WaitGroup
	finish := make(chan struct{})
	for i := 0; i < c.Takers; i++ {
		tg.Add(1)
		go func() {
			defer tg.Done()
			for {
				tc := tp.NextConnection()
				if tc != nil {
					mu.Lock()
					taken = append(taken, tc)
					mu.Unlock()
					continue
				}
				select {
				case <-finish:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
		}()
	}
	for i := 0; i < c.Dialers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.Dials; k++ {
				p, err := net.DialTimeout(network, address, patience)
				if err == nil {
					mu.Lock()
					peers = append(peers, p)
					mu.Unlock()
				} else {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}()
	}
	for _, th := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range th {
				if op == 0 {
					tp.Run()
				} else {
					tp.Stop()
				}
				time.Sleep(30 * time.Microsecond)
			}
		}()
	}
	e.Check(within(wg.Wait), "Run, Stop or dialing does not return")
	close(finish)
	// Run may be in progress in the background, still there is nothing left after Stop
	e.Check(within(func() { tp.Stop() }), "Stop does not return")
	e.Check(within(tg.Wait), "NextConnection still waits after Stop")
	seen := map[ustack.TransportConnection]bool{}
	for _, tc := range taken {
		e.Check(!seen[tc], "a connection was handed out twice")
		seen[tc] = true
		e.Check(tc.Closed(), "a connection is open after Stop")
	}
	for i, p := range peers {
		err := (&sockPeer{Conn: p}).sawClose()
		e.Check(err == nil, "peer %d does not see its connection closed after Stop: %v", i, err)
	}
	p, err := net.DialTimeout(network, address, patience)
	if err == nil {
		p.Close()
	}
	e.Check(err != nil, "a stopped server can still be connected")
	if len(taken) > 0 && len(c.Threads) > 0 {
		e.NonTrivial()
	}
	// and it still works
	tp.Run()
	q, err := dialRetry(network, address)
	e.Check(err == nil, "runs again, but cannot be connected: %v", err)
	defer q.Close()
	q.Write([]byte("hello"))
	var tc ustack.TransportConnection
	e.Check(within(func() { tc = tp.NextConnection() }) && tc != nil, "runs again, but the new connection is not handed out")
	b, err := readFull(tc, 5)
	e.Check(err == nil && string(b) == "hello", "runs again, but the new connection does not carry data: %v", err)
}

// ---- two transports that change their roles between the runs

type RolesCase struct {
	Kind   string `json:"kind"`
	Rounds []int  `json:"rounds"` // bit 0: which one is the server, bit 1: who stops first, bit 2: the address changes, bit 3: the client runs first
	Size   int    `json:"size"`
}

func genRolesCase(t *rapid.T) RolesCase {
	c := RolesCase{Kind: drawOf(t, "kind", "tcp", "uds"), Size: drawUni(t, 1, 3000, "size")}
	for n := drawUni(t, 2, 5, "n"); n > 0; n-- {
		c.Rounds = append(c.Rounds, drawUni(t, 0, 15, "round"))
	}
	return c
}

func runRolesCase(e *Env, c RolesCase) {
	_, address := sockAddr(c.Kind)
	tps := []ustack.Transport{newSockTransport(c.Kind, "A"), newSockTransport(c.Kind, "B")}
	for _, tp := range tps {
		tp.SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 1000000)
		e.Cleanup(func() { tp.Stop() })
	}
	for n, r := range c.Rounds {
		at := fmt.Sprintf("round %d", n)
		server, client := tps[r&1], tps[1-r&1]
		if r&4 != 0 {
			_, address = sockAddr(c.Kind)
		}
		server.ForServer(true).SetAddress(address)
		client.ForServer(false).SetAddress(address)
		if r&8 != 0 {
			client.Run()
			server.Run()
		} else {
			server.Run()
			client.Run()
		}
		var s, k ustack.TransportConnection
		e.Check(within(func() { s = server.NextConnection() }) && s != nil && !s.Closed(), "%s: the server has no connection", at)
		e.Check(within(func() { k = client.NextConnection() }) && k != nil && !k.Closed(), "%s: the client has no connection", at)
		for i, pair := range [][2]ustack.TransportConnection{{s, k}, {k, s}} {
			data := pattern(n*2+i, c.Size)
			go pair[0].Write(data)
			b, err := readFull(pair[1], len(data))
			e.Check(err == nil && bytes.Equal(b, data), "%s: direction %d: something else arrived, or nothing: %v", at, i, err)
		}
		first, second := server, client
		if r&2 != 0 {
			first, second = client, server
		}
		e.Check(within(func() { first.Stop(); second.Stop() }), "%s: Stop does not return", at)
		e.Check(s.Closed() && k.Closed(), "%s: a connection is open after Stop", at)
		e.ClassIf(n > 0 && r&1 != c.Rounds[n-1]&1, "swapped")
	}
	e.NonTrivial()
}

func init() {
	register(&Property{
		ID:   "C12",
		Rule: "a case is a history of Run, Stop, NextConnection, dialing, transferring and closing on a real TCP (loopback) or Unix socket transport, sequential or from several goroutines, or a client that retries with a fake clock; after Stop every connection and peer has to see the close, nobody may listen or wait, and Run has to work again; non-trivial: there was a connection and a Stop (history, parallel), a Stop (client), the first attempt failed (retry), a message was sent (stream: the connection types over an in-memory socket with idle times) or the idle connections were used again (idle); parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("lifecycle", 350, genSockCase, runSockCase).real(),
			part("long", 12, func(t *rapid.T) SockCase {
				c := genSockCase(t)
				c.Rep = 200/max(1, len(c.Ops)) + 1
				return c
			}, runSockCase).real(),
			part("lifecycle-client", 150, genSockCliCase, runSockCliCase).real(),
			part("roles", 60, genRolesCase, runRolesCase).real(),
			part("retry", 300, genRetryCase, runRetryCase).real(),
			part("lifecycle-parallel", 80, genSockParCase, runSockParCase).real(),
			part("stream", 40, genStreamCase, runStreamCase),
			part("idle", 1, genIdleCase, runSockIdleCase).real().few(),
		},
	})
}
