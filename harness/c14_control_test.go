package verif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C14: processors that decide where data goes

type CtlLayer struct {
	Kind string   `json:"k"`
	Off  bool     `json:"off,omitempty"`
	Fns  []string `json:"fns,omitempty"` // what each function of a filter or forwarder says
}

type CtlOp struct {
	Op string `json:"op"`
	L  int    `json:"l"`
	C  int    `json:"c"`
	S  int    `json:"s"`
	N  int    `json:"n"`
	D  int    `json:"d"` // destination session, 0: none
	// that many messages more are under way at the same time, in this order
	Burst int `json:"burst,omitempty"`
	// where the frame decoder is the lowest layer that cares: the messages of a burst
	// arrive in pieces of this size, 0: one by one
	Piece int `json:"piece,omitempty"`
}

type CtlCase struct {
	Rep    int        `json:"rep,omitempty"` // the steps are done that many times
	Layers []CtlLayer `json:"layers"`
	Ops    []CtlOp    `json:"ops"`
}

var ctlSessions = []int{0, 5, 70000}

func genCtlCase(t *rapid.T) CtlCase {
	var c CtlCase
	add := func(kind string) {
		l := CtlLayer{Kind: kind, Off: drawPct(t, 15, "off")}
		if kind == "codec" {
			l.Off = false
		}
		if kind == "filter" || kind == "forwarder" {
			few, many := 3, drawPct(t, 5, "manyfns")
			if many {
				few = 12
			}
			for i, n := 0, drawUni(t, 0, few, "fns"); i < n; i++ {
				if many && i < n-1 {
					l.Fns = append(l.Fns, "no")
					continue
				}
				l.Fns = append(l.Fns, drawOf(t, "fn", "yes", "no", "up", "down", "odd", "conn0", "conn1", "long", "odd-up", "conn0-down"))
			}
			if kind == "filter" && len(l.Fns) == 0 && drawPct(t, 70, "fill") {
				l.Fns = []string{"yes"}
			}
		}
		c.Layers = append(c.Layers, l)
	}
	for i, n := 0, drawUni(t, 0, 2, "above"); i < n; i++ {
		add(drawOf(t, "kind", "filter", "forwarder", "echo", "discarder", "flow"))
	}
	add("codec")
	wire := []string{"session", "frame", "stat"}
	loop := false
	for i, n := 0, drawUni(t, 1, 6, "below"); i < n; i++ {
		if len(wire) > 0 && drawPct(t, 50, "wire") {
			k := drawUni(t, 0, len(wire)-1, "w")
			add(wire[k])
			wire = append(append([]string{}, wire[:k]...), wire[k+1:]...)
			continue
		}
		k := drawOf(t, "kind", "filter", "forwarder", "filter", "forwarder", "echo", "discarder", "flow", "loopback")
		if k == "loopback" {
			// an echo above a loopback never ends, by what they are
			for _, l := range c.Layers {
				loop = loop || l.Kind == "echo"
			}
			if loop {
				continue
			}
			loop = true
		}
		add(k)
	}
	for i, n := 0, drawUni(t, 1, 25, "n"); i < n; i++ {
		op := CtlOp{
			Op: drawOf(t, "op", "in", "in", "out", "out", "toggle"), L: drawUni(t, 0, len(c.Layers)-1, "l"),
			C: drawUni(t, 0, 1, "c"), S: drawUni(t, 0, 2, "s"), N: drawUni(t, 1, 120, "n"),
		}
		if drawPct(t, 20, "dest") {
			op.D = 5
		}
		if drawPct(t, 20, "burst") {
			op.Burst = drawUni(t, 1, 12, "burstn")
		}
		if drawPct(t, 40, "pieces") {
			op.Piece = drawOf(t, "piece", 100000, 3, 17, 60, 200)
		}
		if op.Op == "out" && drawPct(t, 10, "nowhere") {
			op.C = -1 // no connection
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCtlCase(e *Env, c CtlCase) {
	e.Bubble(func() {
		conns := []*memConn{newMemConn("c0"), newMemConn("c1")}
		off := make([]bool, len(c.Layers))
		taken := make([]atomic.Int32, len(c.Layers)) // how often a function of the forwarder took a message
		diverted := make([]int, len(c.Layers))       // how often one should have
		// the buffers that were taken, with what was in them
		type loot struct {
			b    *ustack.UBuf
			data []byte
		}
		var loots []loot
		var lootMu sync.Mutex
		msg, size := 0, 0 // the message that is on its way
		dec := func(fn string, conn int, toUpper bool) bool {
			switch fn {
			case "yes":
				return true
			case "no":
				return false
			case "up":
				return toUpper
			case "down":
				return !toUpper
			case "odd":
				return msg%2 == 1
			case "odd-up":
				return msg%2 == 1 && toUpper
			case "conn0":
				return conn == 0
			case "conn0-down":
				return conn == 0 && !toUpper
			case "conn1":
				return conn == 1
			}
			return size > 60
		}
		connOf := func(x ustack.TransportConnection) int {
			if x == nil {
				return -1
			}
			for i, k := range conns {
				if x == ustack.TransportConnection(k) {
					return i
				}
			}
			e.Fail("a function was called with an unknown connection")
			return 0
		}
		st := ustack.NewUStack().SetOption("MTU", 512)
		var procs []ustack.DataProcessor
		for i, l := range c.Layers {
			var dp ustack.DataProcessor
			switch l.Kind {
			case "codec":
				dp = ustack.NewBytesCodec()
			case "filter":
				var fns []ustack.FilterFn
				for _, fn := range l.Fns {
					fns = append(fns, func(ctx ustack.Context, up bool) bool { return dec(fn, connOf(ctx.GetConnection()), up) })
				}
				dp = ustack.NewFilter(fns...)
			case "forwarder":
				var fns []ustack.ForwardFn
				for _, fn := range l.Fns {
					fns = append(fns, func(ctx ustack.Context, up bool) bool {
						yes := dec(fn, connOf(ctx.GetConnection()), up)
						if yes {
							taken[i].Add(1)
							if b := ctx.GetBuffer(); b != nil {
								p := make([]byte, b.ReadableLength())
								b.Peek(p)
								lootMu.Lock()
								loots = append(loots, loot{b, p})
								lootMu.Unlock()
							}
						}
						return yes
					})
				}
				dp = ustack.NewForwarder(fns...)
			case "loopback":
				dp = ustack.NewLoopback()
			default:
				dp = newLayer(Layer{Kind: l.Kind})
			}
			off[i] = l.Off
			dp.SetEnable(!l.Off)
			procs = append(procs, dp)
			st.AppendDataProcessor(dp)
		}
		eps := map[int]ustack.EndPoint{}
		for _, s := range ctlSessions {
			eps[s] = newEP(fmt.Sprint("E", s), s)
			st.AddEndPoint(eps[s])
		}
		tp := newMemTransport("t")
		st.AddTransport(tp)
		st.Run()
		for _, k := range conns {
			tp.offer(k)
		}
		synctest.Wait()

		// the model: what goes up to an endpoint or down to a connection
		type delivery struct {
			session int
			conn    int
			data    []byte
		}
		type flow struct {
			data    []byte
			session int
			conn    int
		}
		var ups, downs []delivery
		returned := false
		var out, in func(i int, f flow)
		any := func(l CtlLayer, f flow, up bool) bool {
			for _, fn := range l.Fns {
				if dec(fn, f.conn, up) {
					return true
				}
			}
			return false
		}
		out = func(i int, f flow) {
			if i == len(c.Layers) {
				if f.conn >= 0 {
					downs = append(downs, delivery{conn: f.conn, data: f.data})
				}
				return
			}
			l := c.Layers[i]
			switch l.Kind {
			case "filter":
				if !off[i] && !any(l, f, false) {
					return
				}
			case "forwarder":
				if !off[i] && any(l, f, false) {
					diverted[i]++
					return
				}
			case "session":
				if !off[i] {
					f.data = append(be32(uint32(f.session)), f.data...)
				}
			case "frame":
				if !off[i] {
					f.data = append(be32(uint32(len(f.data))), f.data...)
				}
			case "stat":
				f.data = append([]byte{0}, f.data...)
			case "loopback":
				returned = true
				in(i-1, f)
				return
			}
			out(i+1, f)
		}
		in = func(i int, f flow) {
			if i < 0 {
				for _, s := range ctlSessions {
					if s == f.session {
						ups = append(ups, delivery{s, f.conn, f.data})
					}
				}
				return
			}
			l := c.Layers[i]
			switch l.Kind {
			case "filter":
				if !off[i] && !any(l, f, true) {
					return
				}
			case "forwarder":
				if !off[i] && any(l, f, true) {
					diverted[i]++
					return
				}
			case "session":
				if !off[i] {
					f.session = int(binary.BigEndian.Uint32(f.data))
					f.data = f.data[4:]
				}
			case "frame":
				if !off[i] {
					f.data = f.data[4:]
				}
			case "stat":
				f.data = f.data[1:]
			case "loopback":
				return
			case "discarder":
				if !off[i] {
					return
				}
			case "echo":
				if !off[i] {
					returned = true
					out(i+1, f)
					return
				}
			}
			in(i-1, f)
		}

		// a stream may be cut anywhere if nothing below the frame decoder looks at it
		framed := func(off []bool) bool {
			for i := len(c.Layers) - 1; i >= 0; i-- {
				switch k := c.Layers[i].Kind; {
				case k == "frame" && !off[i]:
					return true
				case k == "flow" || k == "frame", off[i] && (k == "filter" || k == "forwarder" || k == "echo" || k == "discarder" || k == "session"):
				default:
					return false
				}
			}
			return false
		}

		dropped, passed, toggled := 0, 0, 0
		for n, op := range repeated(c.Ops, c.Rep) {
			at := fmt.Sprintf("op %d (%s connection %d session %d)", n, op.Op, op.C, ctlSessions[op.S])
			ups, downs, returned = nil, nil, false
			msg, size = n, op.N
			switch op.Op {
			case "toggle":
				if c.Layers[op.L].Kind == "codec" {
					break
				}
				off[op.L] = !off[op.L]
				procs[op.L].SetEnable(!off[op.L])
				toggled++
			case "in":
				var all []byte
				for k := 0; k <= op.Burst; k++ {
					wire := pattern(n*100+k, op.N)
					for i, l := range c.Layers {
						wire = wrapLayer(Layer{Kind: l.Kind, Off: off[i]}, wire, uint32(ctlSessions[op.S]))
					}
					in(len(c.Layers)-1, flow{data: wire, conn: op.C})
					if op.Piece == 0 || !framed(off) {
						conns[op.C].feed(wire)
					} else {
						all = append(all, wire...)
					}
				}
				e.ClassIf(len(all) > 0, "in-pieces")
				for len(all) > 0 {
					k := min(op.Piece, len(all))
					conns[op.C].feed(all[:k])
					all = all[k:]
				}
			case "out":
				for k := 0; k <= op.Burst; k++ {
					p := pattern(n*100+k, op.N)
					f := flow{data: append([]byte(nil), p...), session: ctlSessions[op.S], conn: op.C}
					d := ustack.NewEndPointData().SetData(append([]byte(nil), p...))
					if op.C >= 0 {
						d.SetConnection(conns[op.C])
					}
					if op.D != 0 {
						f.session = op.D
						d.SetDestinationSession(op.D)
					}
					out(0, f)
					eps[ctlSessions[op.S]].GetTxChannel() <- d
				}
			}
			synctest.Wait()
			if op.Op != "toggle" {
				if len(ups)+len(downs) == 0 {
					dropped++
				} else {
					passed++
				}
				e.ClassIf(returned && len(ups)+len(downs) > 0, "returned")
				e.ClassIf(op.Burst > 0, "burst")
				e.ClassIf(op.C < 0 && len(ups) > 0, "without-connection")
			}
			for i := range c.Layers {
				e.Check(int(taken[i].Load()) == diverted[i], "%s: the functions of forwarder %d took %d messages so far, %d were to be diverted", at, i, taken[i].Load(), diverted[i])
			}
			for i, k := range conns {
				var want [][]byte
				for _, d := range downs {
					if d.conn == i {
						want = append(want, d.data)
					}
				}
				got := k.take()
				e.Check(len(got) == len(want), "%s: %d writes on connection %d, expected %d", at, len(got), i, len(want))
				for j := range got {
					e.Check(bytes.Equal(got[j], want[j]), "%s: connection %d sent %s, expected %s", at, i, short(got[j]), short(want[j]))
				}
				e.Check(!k.Closed(), "%s: connection %d was closed", at, i)
			}
			for _, s := range ctlSessions {
				var want []delivery
				for _, d := range ups {
					if d.session == s {
						want = append(want, d)
					}
				}
				got := drain(eps[s].GetRxChannel())
				e.Check(len(got) == len(want), "%s: session %d received %d messages, expected %d", at, s, len(got), len(want))
				for j := range got {
					b, _ := got[j].GetData().([]byte)
					e.Check(bytes.Equal(b, want[j].data), "%s: session %d received %s, expected %s", at, s, short(b), short(want[j].data))
					e.Check(connOf(got[j].GetConnection()) == want[j].conn, "%s: session %d received it from another connection", at, s)
				}
			}
		}
		for i, l := range loots {
			p := make([]byte, l.b.ReadableLength())
			l.b.Peek(p)
			e.Check(bytes.Equal(p, l.data), "taken message %d of %d was %s, its buffer has %s later", i, len(loots), short(l.data), short(p))
		}
		e.ClassIf(len(loots) > 1, "kept")
		if dropped > 0 && passed > 0 {
			e.NonTrivial()
		}
		e.ClassIf(toggled > 0, "toggled")
	})
}

// ---- the same on connections that carry references

func genCtlRefCase(t *rapid.T) CtlCase {
	var c CtlCase
	loop := false
	for i, n := 0, drawUni(t, 1, 6, "layers"); i < n; i++ {
		k := drawOf(t, "kind", "filter", "forwarder", "filter", "forwarder", "echo", "discarder", "flow", "loopback", "frame", "stat", "lb", "session")
		if k == "loopback" || k == "echo" {
			// an echo above a loopback never ends, by what they are
			if k == "loopback" && loop {
				continue
			}
			loop = true
		}
		l := CtlLayer{Kind: k, Off: drawPct(t, 25, "off") || k == "session"}
		if k == "filter" || k == "forwarder" {
			few, many := 3, drawPct(t, 5, "manyfns")
			if many {
				few = 12
			}
			for i, n := 0, drawUni(t, 0, few, "fns"); i < n; i++ {
				if many && i < n-1 {
					l.Fns = append(l.Fns, "no")
					continue
				}
				l.Fns = append(l.Fns, drawOf(t, "fn", "yes", "no", "up", "down", "odd", "conn0", "conn1", "odd-up", "conn0-down"))
			}
			if k == "filter" && len(l.Fns) == 0 && drawPct(t, 70, "fill") {
				l.Fns = []string{"yes"}
			}
		}
		c.Layers = append(c.Layers, l)
	}
	if len(c.Layers) == 0 {
		c.Layers = []CtlLayer{{Kind: "echo"}}
	}
	for i, n := 0, drawUni(t, 1, 20, "n"); i < n; i++ {
		op := CtlOp{
			Op: drawOf(t, "op", "in", "in", "out", "out", "toggle"), L: drawUni(t, 0, len(c.Layers)-1, "l"),
			C: drawUni(t, 0, 1, "c"), S: drawUni(t, 0, 2, "s"),
		}
		if drawPct(t, 20, "dest") {
			op.D = 5
		}
		if drawPct(t, 20, "burst") {
			op.Burst = drawUni(t, 1, 12, "burstn")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCtlRefCase(e *Env, c CtlCase) {
	e.Bubble(func() {
		conns := []*memConn{newRefConn("c0"), newRefConn("c1")}
		off := make([]bool, len(c.Layers))
		msg := 0
		dec := func(fn string, conn int, up bool) bool {
			switch fn {
			case "yes":
				return true
			case "up":
				return up
			case "down":
				return !up
			case "odd":
				return msg%2 == 1
			case "odd-up":
				return msg%2 == 1 && up
			case "conn0":
				return conn == 0
			case "conn0-down":
				return conn == 0 && !up
			case "conn1":
				return conn == 1
			}
			return false
		}
		connOf := func(x ustack.TransportConnection) int {
			for i, k := range conns {
				if x == ustack.TransportConnection(k) {
					return i
				}
			}
			return -1
		}
		st := ustack.NewUStack()
		var procs []ustack.DataProcessor
		for i, l := range c.Layers {
			var dp ustack.DataProcessor
			switch l.Kind {
			case "filter":
				var fns []ustack.FilterFn
				for _, fn := range l.Fns {
					fns = append(fns, func(ctx ustack.Context, up bool) bool { return dec(fn, connOf(ctx.GetConnection()), up) })
				}
				dp = ustack.NewFilter(fns...)
			case "forwarder":
				var fns []ustack.ForwardFn
				for _, fn := range l.Fns {
					fns = append(fns, func(ctx ustack.Context, up bool) bool { return dec(fn, connOf(ctx.GetConnection()), up) })
				}
				dp = ustack.NewForwarder(fns...)
			case "loopback":
				dp = ustack.NewLoopback()
			default:
				dp = newLayer(Layer{Kind: l.Kind})
			}
			off[i] = l.Off
			dp.SetEnable(!l.Off)
			procs = append(procs, dp)
			st.AppendDataProcessor(dp)
		}
		eps := map[int]ustack.EndPoint{}
		for _, s := range ctlSessions {
			eps[s] = newEP(fmt.Sprint("E", s), s)
			st.AddEndPoint(eps[s])
		}
		tp := newMemTransport("t")
		st.AddTransport(tp)
		st.Run()
		for _, k := range conns {
			tp.offer(k)
		}
		synctest.Wait()

		type flow struct {
			v       *refVal
			session int
			conn    int
		}
		var ups, downs []flow
		back := false
		var out, in func(i int, f flow)
		says := func(l CtlLayer, f flow, up bool) bool {
			for _, fn := range l.Fns {
				if dec(fn, f.conn, up) {
					return true
				}
			}
			return false
		}
		out = func(i int, f flow) {
			if i == len(c.Layers) {
				downs = append(downs, f)
				return
			}
			l := c.Layers[i]
			switch {
			case l.Kind == "filter" && !off[i] && !says(l, f, false):
			case l.Kind == "forwarder" && !off[i] && says(l, f, false):
			case l.Kind == "loopback":
				back = true
				in(i-1, f)
			default:
				out(i+1, f)
			}
		}
		in = func(i int, f flow) {
			if i < 0 {
				ups = append(ups, f)
				return
			}
			l := c.Layers[i]
			switch {
			case l.Kind == "filter" && !off[i] && !says(l, f, true):
			case l.Kind == "forwarder" && !off[i] && says(l, f, true):
			case l.Kind == "loopback":
			case l.Kind == "discarder" && !off[i]:
			case l.Kind == "echo" && !off[i]:
				back = true
				out(i+1, f)
			default:
				in(i-1, f)
			}
		}
		dropped, passed := 0, 0
		for n, op := range c.Ops {
			at := fmt.Sprintf("op %d (%s connection %d session %d)", n, op.Op, op.C, ctlSessions[op.S])
			ups, downs, back, msg = nil, nil, false, n
			switch op.Op {
			case "toggle":
				if c.Layers[op.L].Kind != "session" {
					off[op.L] = !off[op.L]
					procs[op.L].SetEnable(!off[op.L])
				}
				continue
			case "in":
				for k := 0; k <= op.Burst; k++ {
					v := &refVal{n*100 + k}
					in(len(c.Layers)-1, flow{v, 0, op.C})
					conns[op.C].refs <- v
				}
			case "out":
				for k := 0; k <= op.Burst; k++ {
					f := flow{&refVal{n*100 + k}, ctlSessions[op.S], op.C}
					d := epd(conns[op.C], f.v)
					if op.D != 0 {
						f.session = op.D
						d.SetDestinationSession(op.D)
					}
					out(0, f)
					eps[ctlSessions[op.S]].GetTxChannel() <- d
				}
			}
			synctest.Wait()
			if len(ups)+len(downs) == 0 {
				dropped++
			} else {
				passed++
			}
			e.ClassIf(back && len(ups)+len(downs) > 0, "returned")
			for i, k := range conns {
				var want []*refVal
				for _, d := range downs {
					if d.conn == i {
						want = append(want, d.v)
					}
				}
				got := k.takeRefs()
				e.Check(len(got) == len(want), "%s: %d references on connection %d, expected %d", at, len(got), i, len(want))
				for j := range got {
					e.Check(got[j] == interface{}(want[j]), "%s: connection %d: reference %d is another one", at, i, j)
				}
				e.Check(!k.Closed(), "%s: connection %d was closed", at, i)
			}
			for _, s := range ctlSessions {
				var want []flow
				for _, d := range ups {
					if d.session == s {
						want = append(want, d)
					}
				}
				got := drain(eps[s].GetRxChannel())
				e.Check(len(got) == len(want), "%s: session %d received %d references, expected %d", at, s, len(got), len(want))
				for j := range got {
					e.Check(got[j].GetData() == interface{}(want[j].v), "%s: session %d: reference %d is another one", at, s, j)
					e.Check(connOf(got[j].GetConnection()) == want[j].conn, "%s: session %d received it from another connection", at, s)
				}
			}
		}
		if dropped > 0 && passed > 0 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C14",
		Rule: "a case is a stack of filters, forwarders, discarders, echoes, a loopback and wire layers with random decisions, two connections, three sessions, and messages in both directions with layers switched on and off in between; every message is compared with a byte-exact model of the stack; or the same on connections that carry references; non-trivial: at least one message was consumed and at least one came through or back; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("history", 4000, genCtlCase, runCtlCase),
			part("long", 80, func(t *rapid.T) CtlCase {
				c := genCtlCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runCtlCase),
			part("reference", 400, genCtlRefCase, runCtlRefCase),
		},
	})
}
