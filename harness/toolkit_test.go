package verif

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"

	"pgregory.net/rapid"
	"ustack"
)

// ------------------------------------------------------------ connection

var errPeer = errors.New("peer failure")

// errKinds are errors that reads and writes of connections end with, some of
// them call themselves temporary
var errKinds = []error{errPeer, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, net.ErrClosed, syscall.EAGAIN, io.ErrShortWrite,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, syscall.EINTR, io.EOF, fmt.Errorf("wrapped: %w", io.EOF)}

func errOf(k int) error { return errKinds[(k%len(errKinds)+len(errKinds))%len(errKinds)] }

var errMemClosed = errors.New("connection is closed")

type readItem struct {
	data []byte
	err  error
}

// memConn is a connection whose peer is the harness
type memConn struct {
	name  string
	shown string
	items chan readItem
	done  chan struct{}
	// one item may need several reads
	pending readItem
	hasPend bool

	mu         sync.Mutex
	isClosed   bool
	closes     int
	writes     [][]byte
	writeCalls int
	gate       chan struct{} // not nil: writes wait until it is closed
	failAfter  int           // >= 0: the bytes that may still be written
	failErr    error         // how the writes fail
	written    int
	onWrite    func([]byte)
	maxRead    int // > 0: at most that many bytes per Read
	reads      int
	late       [][]byte      // what a read still returns after the close ...
	lateGate   chan struct{} // ... once this is closed
	ref        bool
	refs       chan interface{}
	sentRefs   []interface{}
}

// nameStyle says how the objects of the current case are called: names are
// for people, nothing may depend on them
var nameStyle atomic.Int32

func styled(name string) string {
	switch nameStyle.Load() {
	case 1:
		return "same"
	case 2:
		return ""
	}
	return name
}

// roleStyle says how the current case makes a transport a server: servers are
// the default, and the last call counts
var roleStyle atomic.Int32

func role(tp ustack.Transport, server bool) ustack.Transport {
	switch roleStyle.Load() {
	case 1:
		if server {
			return tp
		}
	case 2:
		tp.ForServer(!server)
	}
	return tp.ForServer(server)
}

// newEP is an endpoint with a name in the style of the case
func newEP(name string, session int) ustack.EndPoint {
	if epStyle.Load() == 1 {
		return ustack.NewEndPoint("", session^5).SetSession(session).SetName(styled(name))
	}
	return ustack.NewEndPoint(styled(name), session)
}

// epStyle says how the current case makes its endpoints and their data: in one
// call or setting by setting, with the library's types or its own
var epStyle atomic.Int32

// newAnyEP is a newEP, or an endpoint of a type of the application
func newAnyEP(name string, session int) ustack.EndPoint {
	if epStyle.Load() == 2 {
		return &appEP{name: styled(name), session: session, tx: make(chan ustack.EndPointData, 300), rx: make(chan ustack.EndPointData, 300)}
	}
	return newEP(name, session)
}

// appEP is an endpoint as an application would write one; without data listener
type appEP struct {
	name    string
	session int
	tx, rx  chan ustack.EndPointData
	mu      sync.Mutex
	events  func(ustack.EndPoint, ustack.Event)
}

func (a *appEP) SetName(name string) ustack.EndPoint    { a.name = name; return a }
func (a *appEP) GetName() string                        { return a.name }
func (a *appEP) SetSession(session int) ustack.EndPoint { a.session = session; return a }
func (a *appEP) GetSession() int                        { return a.session }
func (a *appEP) GetTxChannel() chan ustack.EndPointData { return a.tx }
func (a *appEP) GetRxChannel() chan ustack.EndPointData { return a.rx }
func (a *appEP) SetDataListener(func(ustack.EndPoint, ustack.EndPointData)) ustack.EndPoint {
	panic("not used")
}
func (a *appEP) SetEventListener(f func(ustack.EndPoint, ustack.Event)) ustack.EndPoint {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.events = f
	return a
}
func (a *appEP) OnEvent(ev ustack.Event) {
	a.mu.Lock()
	f := a.events
	a.mu.Unlock()
	if f != nil {
		f(a, ev)
	}
}

// appEPD is what an application may put into a channel
type appEPD struct {
	conn ustack.TransportConnection
	data interface{}
	has  bool
	dest int
}

func (d *appEPD) SetConnection(c ustack.TransportConnection) ustack.EndPointData {
	d.conn = c
	return d
}
func (d *appEPD) GetConnection() ustack.TransportConnection    { return d.conn }
func (d *appEPD) SetData(data interface{}) ustack.EndPointData { d.data = data; return d }
func (d *appEPD) GetData() interface{}                         { return d.data }
func (d *appEPD) HasDestinationSession() bool                  { return d.has }
func (d *appEPD) SetDestinationSession(s int) ustack.EndPointData {
	d.dest, d.has = s, true
	return d
}
func (d *appEPD) GetDestinationSession() int { return d.dest }
func (d *appEPD) ClearDestinationSession() ustack.EndPointData {
	d.dest, d.has = 77, false
	return d
}

func newMemConn(name string) *memConn {
	return &memConn{
		name:      name,
		shown:     styled(name),
		items:     make(chan readItem, 1<<10),
		done:      make(chan struct{}),
		failAfter: -1,
	}
}

// refErr ends a stream of references
type refErr struct{ error }

func newRefConn(name string) *memConn {
	c := newMemConn(name)
	c.ref = true
	c.refs = make(chan interface{}, 1024)
	return c
}

func (c *memConn) GetName() string { return c.shown }

func (c *memConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	c.reads++
	c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if !c.hasPend {
		select {
		case <-c.done:
			return c.readLate(p)
		default:
		}
		select {
		case it := <-c.items:
			c.pending, c.hasPend = it, true
		case <-c.done:
			return c.readLate(p)
		}
	}
	if c.maxRead > 0 && len(p) > c.maxRead {
		p = p[:c.maxRead]
	}
	n := copy(p, c.pending.data)
	c.pending.data = c.pending.data[n:]
	if len(c.pending.data) == 0 {
		c.hasPend = false
		return n, c.pending.err
	}
	return n, nil
}

// readLate is a read that got its data before the connection was closed, but
// returns only after that
func (c *memConn) readLate(p []byte) (int, error) {
	c.mu.Lock()
	gate := c.lateGate
	c.mu.Unlock()
	if gate != nil {
		<-gate
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.late) == 0 {
		return 0, errMemClosed
	}
	n := copy(p, c.late[0])
	if c.late[0] = c.late[0][n:]; len(c.late[0]) == 0 {
		c.late = c.late[1:]
	}
	return n, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	c.writeCalls++
	gate := c.gate
	closed := c.isClosed
	c.mu.Unlock()
	if closed {
		return 0, errMemClosed
	}
	if gate != nil {
		select {
		case <-gate:
		case <-c.done:
			return 0, errMemClosed
		}
	}
	c.mu.Lock()
	n := len(p)
	var err error
	if c.failAfter >= 0 && n > c.failAfter {
		n, err = c.failAfter, errPeer
		if c.failErr != nil {
			err = c.failErr
		}
	}
	if c.failAfter >= 0 {
		c.failAfter -= n
	}
	if n > 0 {
		c.writes = append(c.writes, append([]byte(nil), p[:n]...))
	}
	c.written += n
	fn := c.onWrite
	c.mu.Unlock()
	if fn != nil && n > 0 {
		fn(append([]byte(nil), p[:n]...))
	}
	return n, err
}

func (c *memConn) UseReference() bool { return c.ref }

func (c *memConn) GetReference() (interface{}, error) {
	if !c.ref {
		return nil, errors.New("no reference")
	}
	select {
	case r := <-c.refs:
		if err, ok := r.(refErr); ok {
			return nil, err.error
		}
		return r, nil
	case <-c.done:
		return nil, errMemClosed
	}
}

func (c *memConn) SetReference(p interface{}) error {
	if !c.ref {
		return errors.New("no reference")
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isClosed {
		return errMemClosed
	}
	c.sentRefs = append(c.sentRefs, p)
	return nil
}

func (c *memConn) Close() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if !c.isClosed {
		c.isClosed = true
		close(c.done)
	}
}

func (c *memConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.isClosed
}

// feed gives data to the reader, feedErr ends the stream
func (c *memConn) feed(b []byte) { c.items <- readItem{data: append([]byte(nil), b...)} }
func (c *memConn) feedErr(b []byte, err error) {
	c.items <- readItem{data: append([]byte(nil), b...), err: err}
}
func (c *memConn) setGate(g chan struct{})     { c.mu.Lock(); c.gate = g; c.mu.Unlock() }
func (c *memConn) bytesWritten() int           { c.mu.Lock(); defer c.mu.Unlock(); return c.written }
func (c *memConn) setFailAfter(n int)          { c.mu.Lock(); c.failAfter = n; c.mu.Unlock() }
func (c *memConn) setFailErr(e error)          { c.mu.Lock(); c.failErr = e; c.mu.Unlock() }
func (c *memConn) setOnWrite(f func(p []byte)) { c.mu.Lock(); c.onWrite = f; c.mu.Unlock() }
func (c *memConn) takeRefs() []interface{} {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := c.sentRefs
	c.sentRefs = nil
	return r
}

// take returns and forgets the writes so far
func (c *memConn) take() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	w := c.writes
	c.writes = nil
	return w
}

func (c *memConn) closeCount() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes
}

// pipe connects two connections: what one writes the other reads
func pipe(a, b *memConn) {
	a.onWrite = func(p []byte) { b.items <- readItem{data: p} }
	b.onWrite = func(p []byte) { a.items <- readItem{data: p} }
}

// ------------------------------------------------------------- transport

// memTransport hands out the connections the harness gives it
type memTransport struct {
	name    string
	shown   string
	mu      sync.Mutex
	running bool
	runs    int
	stops   int
	next    chan ustack.TransportConnection
	done    chan struct{}
	conns   []*memConn
	opts    map[string]interface{}
}

func newMemTransport(name string) *memTransport {
	return &memTransport{name: name, shown: styled(name), opts: map[string]interface{}{}}
}

func (t *memTransport) GetName() string { return t.shown }
func (t *memTransport) SetOption(n string, v interface{}) ustack.Transport {
	t.opts[n] = v
	return t
}
func (t *memTransport) GetOption(n string) interface{}             { return t.opts[n] }
func (t *memTransport) ForServer(bool) ustack.Transport            { return t }
func (t *memTransport) SetAddress(address string) ustack.Transport { return t }
func (t *memTransport) GetAddress() string {
	// an address says nothing about which transport it is
	if nameStyle.Load() == 1 {
		return ""
	}
	return "somewhere"
}

func (t *memTransport) NextConnection() ustack.TransportConnection {
	t.mu.Lock()
	next, done := t.next, t.done
	t.mu.Unlock()
	select {
	case c := <-next:
		return c
	case <-done:
		return nil
	}
}

func (t *memTransport) Run() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	if t.running {
		return t
	}
	t.running = true
	t.next = make(chan ustack.TransportConnection, 4096)
	t.done = make(chan struct{})
	t.conns = nil
	return t
}

func (t *memTransport) Stop() ustack.Transport {
	t.mu.Lock()
	conns := t.conns
	if t.running {
		close(t.done)
		t.running = false
	}
	t.stops++
	t.mu.Unlock()
	for _, c := range conns {
		c.Close()
	}
	return t
}

func (t *memTransport) isRunning() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.running
}

// offer makes the connection the next one, false if the transport does not run
func (t *memTransport) offer(c *memConn) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.running {
		return false
	}
	t.conns = append(t.conns, c)
	t.next <- c
	return true
}

// ----------------------------------------------------------------- probe

// probe is a transparent data processor that records what passes
type probe struct {
	ustack.ProcBase
	upper, lower ustack.DataProcessor
	onUp         func(ustack.Context) bool // data from the upper layer, false: keep
	onLow        func(ustack.Context) bool
	onEvent      func(ustack.Event)
	overhead     int
}

func newProbe(name string) *probe {
	p := &probe{ProcBase: ustack.NewProcBaseInstance(name)}
	p.ProcBase.SetWhere(p)
	return p
}

func (p *probe) SetUpper(u ustack.DataProcessor) ustack.DataProcessor {
	p.upper = u
	p.ProcBase.SetUpper(u)
	return p
}
func (p *probe) SetLower(l ustack.DataProcessor) ustack.DataProcessor {
	p.lower = l
	p.ProcBase.SetLower(l)
	return p
}
func (p *probe) GetOverhead() int { return p.overhead }
func (p *probe) OnUpperData(c ustack.Context) {
	if p.onUp == nil || p.onUp(c) {
		p.lower.OnUpperData(c)
	}
}
func (p *probe) OnLowerData(c ustack.Context) {
	if p.onLow == nil || p.onLow(c) {
		p.upper.OnLowerData(c)
	}
}
func (p *probe) OnEvent(e ustack.Event) {
	if p.onEvent != nil {
		p.onEvent(e)
	}
}

// ----------------------------------------------------- layers and wire format

// Layer describes one data processor below the codec
type Layer struct {
	Kind string `json:"k"`
	Off  bool   `json:"off,omitempty"`
}

// layerOverhead is what the layer takes from the MTU
func layerOverhead(k string) int {
	switch k {
	case "frame", "session":
		return 4
	case "stat", "heartbeat", "lb":
		return 1
	}
	return 0
}

func overheadOf(ls []Layer) int {
	n := 0
	for _, l := range ls {
		n += layerOverhead(l.Kind)
	}
	return n
}

func newLayer(l Layer) ustack.DataProcessor {
	var dp ustack.DataProcessor
	switch l.Kind {
	case "frame":
		dp = ustack.NewFrameDecoder()
	case "session":
		dp = ustack.NewSessionResolver()
	case "stat":
		dp = ustack.NewStatCounter()
	case "heartbeat":
		dp = ustack.NewHeartbeat()
	case "lb":
		dp = ustack.NewLoadBalancer()
	case "flow":
		dp = ustack.NewFlowController()
	case "filter":
		dp = ustack.NewFilter(func(ustack.Context, bool) bool { return true })
	case "forwarder":
		dp = ustack.NewForwarder(func(ustack.Context, bool) bool { return false })
	case "discarder":
		dp = ustack.NewDiscarder()
	case "echo":
		dp = ustack.NewEcho()
	case "probe":
		return newProbe("probe")
	default:
		panic("layer " + l.Kind)
	}
	if l.Off {
		dp.SetEnable(false)
	}
	if n := nameStyle.Load(); n > 0 {
		dp.SetName(styled(l.Kind)).ForServer(n == 2)
	}
	return dp
}

func be32(n uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, n)
	return b
}

// wrapLayer is the documented wire format of one layer, written
// independently of the code under test
func wrapLayer(l Layer, p []byte, session uint32) []byte {
	switch l.Kind {
	case "frame":
		if !l.Off {
			return append(be32(uint32(len(p))), p...)
		}
	case "session":
		if !l.Off {
			return append(be32(session), p...)
		}
	case "stat", "heartbeat":
		return append([]byte{0}, p...)
	case "lb":
		if !l.Off {
			return append([]byte{0x11}, p...)
		}
		return append([]byte{0}, p...)
	}
	return p
}

// inbound are the layers as a peer has to write for them: an enabled load
// balancer writes another tag than it accepts
func inbound(ls []Layer) []Layer {
	r := append([]Layer(nil), ls...)
	for i := range r {
		r[i].Off = r[i].Off || r[i].Kind == "lb"
	}
	return r
}

// wrap is the wire image of payload sent through the layers (top first)
func wrap(ls []Layer, p []byte, session uint32) []byte {
	out := append([]byte(nil), p...)
	for _, l := range ls {
		out = wrapLayer(l, out, session)
	}
	return out
}

// ------------------------------------------------------------------ rig

// rig is one ustack with its parts
type rig struct {
	st    ustack.UStack
	tp    *memTransport
	procs []ustack.DataProcessor
}

func newRig(name string, mtu int, procs ...ustack.DataProcessor) *rig {
	st := ustack.NewUStack().SetName(styled(name))
	if mtu > 0 {
		st.SetOption("MTU", mtu)
	}
	for _, p := range procs {
		st.AppendDataProcessor(p)
	}
	tp := newMemTransport(name + ".tp")
	st.AddTransport(tp)
	return &rig{st: st, tp: tp, procs: procs}
}

func layersOf(ls []Layer) []ustack.DataProcessor {
	var r []ustack.DataProcessor
	for _, l := range ls {
		r = append(r, newLayer(l))
	}
	return r
}

// msgs takes everything out of the channel that is in it
func drain(ch chan ustack.EndPointData) []ustack.EndPointData {
	var r []ustack.EndPointData
	for {
		select {
		case d := <-ch:
			r = append(r, d)
		default:
			return r
		}
	}
}

func epd(c ustack.TransportConnection, data interface{}) ustack.EndPointData {
	if epStyle.Load() == 3 {
		return (&appEPD{}).SetConnection(c).SetData(data)
	}
	return ustack.NewEndPointData().SetConnection(c).SetData(data)
}

// pattern is a recognisable payload
func pattern(id, n int) []byte {
	b := make([]byte, n)
	x := uint32(id)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	// content may look like the tags of the layers
	if id%5 == 2 && n > 0 {
		b[0] = []byte{0x83, 0x10, 0x23, 0x00, 0x19, 0x82, 0x11, 0x08}[id/5%8]
	}
	return b
}

func short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x(len %d)", b, len(b))
	}
	return fmt.Sprintf("%x..(len %d)", b[:24], len(b))
}

func lens(bs [][]byte) []int {
	var r []int
	for _, b := range bs {
		r = append(r, len(b))
	}
	return r
}

// -------------------------------------------------------------- generators

// drawInt prefers small values and the bounds
func drawInt(t *rapid.T, lo, hi int, label string) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// drawUni is about uniform, rapid prefers small values; 0 shrinks to lo
func drawUni(t *rapid.T, lo, hi int, label string) int {
	u := uint64(rapid.IntRange(0, 1<<24-1).Draw(t, label))
	h := u * 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return lo + int(h%uint64(hi-lo+1))
}

func drawBool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// drawPct is true in about pct percent, false is simpler
func drawPct(t *rapid.T, pct int, label string) bool {
	return drawUni(t, 0, 99, label) >= 100-pct
}

// repeated is s, rep times
func repeated[V any](s []V, rep int) []V {
	r := s[:len(s):len(s)]
	for ; rep > 1; rep-- {
		r = append(r, s...)
	}
	return r
}

// drawRep says how often n steps are repeated in a long history
func drawRep(t *rapid.T, n int) int {
	return drawOf(t, "long", 300, 1100, 1300)/max(1, n) + 1
}

// drawOf picks one, about uniformly, the first is the simplest
func drawOf[V any](t *rapid.T, label string, vs ...V) V {
	return vs[drawUni(t, 0, len(vs)-1, label)]
}
