package verif

import (
	"bytes"
	"fmt"
	"sort"
	"sync"
	"testing/synctest"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C07: layers compose: wire format, overhead, traversal order

type LayerStep struct {
	Out     bool  `json:"out,omitempty"`
	N       int   `json:"n"`
	Session int64 `json:"s"`
	Toggle  int   `json:"toggle"`          // >= 0: this layer is switched first
	Tag     byte  `json:"tag,omitempty"`   // the tag that the load balancers of the peer write
	Codec   bool  `json:"codec,omitempty"` // the codec is switched first
}

type LayerCase struct {
	Rep    int         `json:"rep,omitempty"` // the steps are done that many times
	MTU    int         `json:"mtu"`
	Layers []Layer     `json:"layers"`
	Steps  []LayerStep `json:"steps"`
}

var allKinds = []string{"frame", "session", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "discarder", "echo", "probe", "probe"}

func canToggle(k string) bool {
	switch k {
	case "frame", "session", "stat", "flow", "filter", "forwarder", "heartbeat", "lb":
		return true
	}
	return false
}

func genLayerCase(t *rapid.T) LayerCase {
	var c LayerCase
	most := 7
	if drawPct(t, 4, "tall") {
		most = 30
	}
	c.Layers = genLayers(t, allKinds, most)
	for i := range c.Layers {
		if c.Layers[i].Kind == "lb" {
			c.Layers[i].Off = drawPct(t, 60, "lboff")
		}
	}
	oh := overheadOf(c.Layers)
	c.MTU = oh + drawOf(t, "room", 1, 8, 50, 2000, drawUni(t, 1, 300, "roomn"))
	n := drawUni(t, 1, 8, "nsteps")
	for i := 0; i < n; i++ {
		s := LayerStep{Out: drawBool(t, "out"), Toggle: -1}
		room := c.MTU - oh
		s.N = drawOf(t, "n", 1, room, room+1, room-1, drawUni(t, 1, room, "nn"))
		s.N = max(1, s.N)
		s.Session = drawOf[int64](t, "s", 0, 1, 7, 1<<31, 1<<32-1)
		if !s.Out && drawPct(t, 10, "tag") {
			s.Tag = drawOf[byte](t, "tagv", 0x11, 0x19, 0x82, 0x08, 1, 255)
		}
		s.Codec = drawPct(t, 8, "codec")
		if len(c.Layers) > 0 && drawPct(t, 25, "toggle") {
			k := drawUni(t, 0, len(c.Layers)-1, "which")
			if canToggle(c.Layers[k].Kind) {
				s.Toggle = k
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runLayerCase(e *Env, c LayerCase) {
	e.Bubble(func() {
		layers := append([]Layer(nil), c.Layers...)
		procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
		type seen struct {
			probe int
			out   bool
			data  []byte
		}
		var trace []seen
		var traceMu sync.Mutex
		for i, l := range layers {
			dp := newLayer(l)
			if p, ok := dp.(*probe); ok {
				rec := func(out bool) func(ustack.Context) bool {
					return func(ctx ustack.Context) bool {
						if ctx.GetBuffer() == nil {
							return true // the codec is off
						}
						b := make([]byte, ctx.GetBuffer().ReadableLength())
						ctx.GetBuffer().Peek(b)
						traceMu.Lock()
						trace = append(trace, seen{i, out, b})
						traceMu.Unlock()
						return true
					}
				}
				p.onUp, p.onLow = rec(true), rec(false)
			}
			procs = append(procs, dp)
		}
		r := newRig("s", c.MTU, procs...)
		sessions := []int64{0, 1, 7, 1 << 31, 1<<32 - 1}
		eps := map[int64]ustack.EndPoint{}
		for _, s := range sessions {
			eps[s] = newEP("ep", int(s))
			r.st.AddEndPoint(eps[s])
		}
		r.st.Run()
		e.Check(r.st.GetOverhead() == overheadOf(layers), "overhead %d, the layers take %d", r.st.GetOverhead(), overheadOf(layers))
		e.Check(r.st.GetMTU() == c.MTU, "MTU %d, set %d", r.st.GetMTU(), c.MTU)
		conn := newMemConn("c")
		r.tp.offer(conn)
		synctest.Wait()

		// the heartbeats that the connection starts with
		var hb []string
		for i, l := range layers {
			if l.Kind == "heartbeat" {
				hb = append(hb, fmt.Sprintf("%x", wrap(layers[i+1:], []byte{0x83}, 0)))
			}
		}
		var first []string
		for _, w := range conn.take() {
			first = append(first, fmt.Sprintf("%x", w))
		}
		sort.Strings(hb)
		sort.Strings(first)
		e.Check(fmt.Sprint(hb) == fmt.Sprint(first), "the connection starts with %v, expected %v", first, hb)
		trace = nil

		room := c.MTU - overheadOf(layers)
		active := 0
		codecOff := false
		for n, s := range repeated(c.Steps, c.Rep) {
			if s.Toggle >= 0 {
				layers[s.Toggle].Off = !layers[s.Toggle].Off
				procs[s.Toggle+1].SetEnable(!layers[s.Toggle].Off)
				e.Class("toggled")
			}
			if s.Codec {
				codecOff = !codecOff
				procs[0].SetEnable(!codecOff)
				e.Class("codec-off")
			}
			hasSession := false
			for _, l := range layers {
				if l.Kind == "session" && !l.Off {
					hasSession = true
				}
			}
			payload := pattern(n, s.N)
			wire := wrap(layers, payload, uint32(s.Session))
			if len(wire) > len(payload) {
				active++
			}
			var wantTrace []seen
			if s.Out {
				eps[s.Session].GetTxChannel() <- epd(conn, append([]byte(nil), payload...))
				synctest.Wait()
				out := conn.take()
				if codecOff {
					e.Check(len(out) == 0, "step %d: the codec is off but %d writes were made", n, len(out))
				} else if s.N > room {
					e.Check(len(out) == 0, "step %d: %d bytes do not fit in %d but %d writes were made", n, s.N, room, len(out))
					e.Class("too-long")
				} else {
					e.Check(len(out) == 1, "step %d: one message made %d writes %v", n, len(out), lens(out))
					e.Check(bytes.Equal(out[0], wire), "step %d: on the wire %s, expected %s", n, short(out[0]), short(wire))
					for i, l := range layers {
						if l.Kind == "probe" {
							wantTrace = append(wantTrace, seen{i, true, wrap(layers[:i], payload, uint32(s.Session))})
						}
					}
				}
			} else {
				if s.N > room {
					continue
				}
				in := inbound(layers)
				stop := -1 // the layer that does not let it through
				images := make([][]byte, len(in)+1)
				images[0] = payload
				for i, l := range in {
					images[i+1] = wrapLayer(l, append([]byte(nil), images[i]...), uint32(s.Session))
					if l.Kind == "lb" {
						images[i+1][0] = s.Tag
						if !layers[i].Off && s.Tag != 0 {
							stop = i
						}
					}
				}
				wire = images[len(in)]
				conn.feed(wire)
				synctest.Wait()
				dest := s.Session
				if !hasSession {
					dest = 0
				}
				for _, id := range sessions {
					got := drain(eps[id].GetRxChannel())
					if codecOff {
						e.Check(len(got) == 0, "step %d: the codec is off but an endpoint got %d messages", n, len(got))
						continue
					}
					if stop >= 0 {
						e.Check(len(got) == 0, "step %d: %s on the wire, which is not for the layers above, endpoint got %d messages", n, short(wire), len(got))
						e.Class("not-for-us")
						continue
					}
					if id != dest {
						e.Check(len(got) == 0, "step %d: session %d got data for session %d", n, id, dest)
						continue
					}
					e.Check(len(got) == 1, "step %d: %s on the wire, endpoint got %d messages", n, short(wire), len(got))
					b, _ := got[0].GetData().([]byte)
					e.Check(bytes.Equal(b, payload), "step %d: endpoint got %s, expected %s", n, short(b), short(payload))
					e.Check(got[0].GetConnection() == ustack.TransportConnection(conn), "step %d: wrong connection", n)
				}
				e.Check(len(conn.take()) == 0, "step %d: received data was answered", n)
				for i := len(layers) - 1; i > stop; i-- {
					if layers[i].Kind == "probe" {
						wantTrace = append(wantTrace, seen{i, false, images[i]})
					}
				}
			}
			e.Check(len(trace) == len(wantTrace), "step %d: the probes saw the data %d times, expected %d", n, len(trace), len(wantTrace))
			for k := range trace {
				g, w := trace[k], wantTrace[k]
				e.Check(g.probe == w.probe && g.out == w.out, "step %d: layer %d handled the data in place %d, expected layer %d", n, g.probe, k, w.probe)
				e.Check(bytes.Equal(g.data, w.data), "step %d: layer %d got %s, expected %s", n, g.probe, short(g.data), short(w.data))
			}
			trace = nil
			e.ClassIf(s.N == room, "exactly-fits")
		}
		e.ClassIf(len(layers) >= 5, "five-layers")
		if active > 0 && len(layers) > 1 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C07",
		Rule: "a case is up to 7 data processors in any order, some disabled, below a bytes codec, an MTU and up to 8 messages sent or received, with layers switched on or off between them; the wire bytes are compared with an independent encoder, transparent probe layers record who saw which bytes in which order; non-trivial: at least two layers and at least one message to which a layer adds bytes; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("composition", 2500, genLayerCase, runLayerCase),
			part("long", 60, func(t *rapid.T) LayerCase {
				c := genLayerCase(t)
				c.Rep = drawRep(t, len(c.Steps))
				return c
			}, runLayerCase),
		},
	})
}
