package verif

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"testing/synctest"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C08: whatever bytes a peer sends, the stack survives and decodes
// exactly what an independent decoder finds in them

type HostileCase struct {
	Codec  string   `json:"codec"`
	MTU    int      `json:"mtu"`
	Cap    int      `json:"cap"`
	Layers []Layer  `json:"layers"`
	Chunks [][]byte `json:"chunks"`
	Good   []int    `json:"good"`            // after these chunks the well-behaved peer sends a message
	Split  []int    `json:"split,omitempty"` // > 0: that many bytes of the good message come before the chunk
	EOF    bool     `json:"eof,omitempty"`
}

var hostileKinds = []string{"frame", "frame", "session", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "discarder", "echo"}

func genHostile(t *rapid.T) HostileCase {
	c := HostileCase{Codec: drawOf(t, "codec", codecNames...)}
	c.Layers = genLayers(t, hostileKinds, 5)
	for i := range c.Layers {
		if k := c.Layers[i].Kind; k == "echo" || k == "discarder" || k == "lb" {
			c.Layers[i].Off = !drawPct(t, 30, "swallow")
		}
	}
	if drawPct(t, 50, "framed") {
		c.Layers = append(c.Layers, Layer{Kind: "frame"})
	}
	c.MTU = overheadOf(c.Layers) + drawOf(t, "room", 60, 20, 600, drawUni(t, 20, 200, "roomn"))
	if drawPct(t, 40, "opt") {
		c.Cap = drawUni(t, 5, 200, "cap")
	}
	room := c.MTU - overheadOf(c.Layers)
	var stream []byte
	nseg := drawUni(t, 1, 6, "nseg")
	for i := 0; i < nseg; i++ {
		session := drawOf[uint32](t, "s", 0, 1, 9)
		var p []byte
		if m := genMsg(t, c.Codec, room, i+1); m.fits(c.Codec, room) {
			p = m.encoded(c.Codec)
		} else {
			p = Msg{ID: i, N: 3}.encoded(c.Codec)
		}
		wire := wrap(inbound(c.Layers), p, session)
		switch drawUni(t, 0, 10, "seg") {
		case 0, 1: // valid
		case 2: // truncated
			wire = wire[:drawUni(t, 0, len(wire)-1, "cut")]
		case 3, 4: // changed
			wire = append([]byte(nil), wire...)
			for j := drawUni(t, 1, 3, "flips"); j > 0; j-- {
				k := drawInt(t, 0, len(wire)-1, "at")
				wire[k] = drawOf(t, "to", 0, 0xff, 0x10, 0x23, 0x83, 0x80, rapid.Byte().Draw(t, "b"))
			}
		case 5: // noise
			wire = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "noise")
		case 6: // a special header
			wire = append(be32(drawOf[uint32](t, "hdr", 0, 1, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0xfffffffb,
				uint32(cacheCap(c.MTU, c.Cap)), uint32(cacheCap(c.MTU, c.Cap))-4, uint32(cacheCap(c.MTU, c.Cap))-3, uint32(c.MTU))), wire...)
		case 7: // self messages and other tags inside the layers
			tag := drawOf[byte](t, "tag", 0x10, 0x23, 0x83, 0x11, 0x19, 0x82, 0x08, 0xff)
			body := append([]byte{tag}, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "body")...)
			k := drawUni(t, 0, len(c.Layers), "level")
			wire = wrap(inbound(c.Layers[k:]), body, session)
		case 8: // a self message that carries a whole message
			k := -1
			for j, l := range c.Layers {
				if l.Kind == "stat" || l.Kind == "heartbeat" {
					k = j
				}
			}
			if k < 0 {
				break
			}
			body := []byte{0x83}
			if c.Layers[k].Kind == "stat" {
				body = []byte{drawOf[byte](t, "self", 0x10, 0x23)}
				body = append(body, make([]byte, drawOf(t, "pad", 0, 16, 16+128, 16+127, 200))...)
			}
			wire = wrap(inbound(c.Layers[k+1:]), append(body, wrap(inbound(c.Layers[:k]), p, session)...), session)
		case 9: // more than the cache can hold
			hdr := be32(drawOf(t, "toolarge", uint32(cacheCap(c.MTU, c.Cap)), uint32(cacheCap(c.MTU, c.Cap))-3, 0xffffffff, 1<<20))
			wire = append(hdr, pattern(i, cacheCap(c.MTU, c.Cap)+drawUni(t, -4, 40, "more"))...)
		default: // doubled
			wire = append(append([]byte(nil), wire...), wire...)
		}
		stream = append(stream, wire...)
		if !drawPct(t, 30, "join") || i == nseg-1 {
			for len(stream) > 0 {
				n := len(stream)
				if drawPct(t, 30, "split") {
					n = drawUni(t, 1, len(stream), "splitat")
				}
				c.Chunks = append(c.Chunks, stream[:n])
				stream = stream[n:]
			}
			stream = nil
		}
	}
	for i := range c.Chunks {
		if drawPct(t, 40, "good") {
			c.Good = append(c.Good, i)
			c.Split = append(c.Split, 0)
			if drawPct(t, 60, "splitgood") {
				c.Split[len(c.Split)-1] = drawUni(t, 1, 30, "splitgoodat")
			}
		}
	}
	c.EOF = drawPct(t, 30, "eof")
	return c
}

// refDecoder is the independent decoder of one connection
type refDecoder struct {
	codec   string
	layers  []Layer
	cap     int
	caches  map[int][]byte
	unknown bool // a frame larger than the cache was announced: no claim from here on
	out     []refMsg
}

type refMsg struct {
	session uint32
	data    string // JSON
}

func refValue(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return fmt.Sprintf("b:%x", b)
	}
	if s, ok := v.(string); ok {
		return fmt.Sprintf("s:%x", s)
	}
	if r, ok := v.(*Rec); ok {
		n := normRec(*r)
		b, err := json.Marshal(n)
		if err != nil {
			sub := SubRec{}
			if n.Sub != nil {
				sub = *n.Sub
			}
			n.Sub = nil
			return fmt.Sprintf("r:%+v %+v", n, sub)
		}
		return "r:" + string(b)
	}
	return fmt.Sprintf("%T", v)
}

func (d *refDecoder) feed(level int, data []byte, session uint32) {
	if d.unknown {
		return
	}
	if level < 0 {
		if v, ok := refDecode(d.codec, data); ok {
			d.out = append(d.out, refMsg{session, refValue(v)})
		}
		return
	}
	l := d.layers[level]
	switch l.Kind {
	case "frame":
		if l.Off {
			break
		}
		buf := append(d.caches[level], data...)
		for len(buf) >= 4 {
			n := uint64(buf[0])<<24 | uint64(buf[1])<<16 | uint64(buf[2])<<8 | uint64(buf[3])
			if n+4 > uint64(d.cap) {
				d.unknown = true
				return
			}
			if uint64(len(buf)-4) < n {
				break
			}
			f := append([]byte(nil), buf[4:4+n]...)
			buf = buf[4+n:]
			if n > 0 {
				d.feed(level-1, f, session)
			}
		}
		d.caches[level] = append([]byte(nil), buf...)
		return
	case "session":
		if l.Off {
			break
		}
		if len(data) < 4 {
			return
		}
		session = uint32(data[0])<<24 | uint32(data[1])<<16 | uint32(data[2])<<8 | uint32(data[3])
		data = data[4:]
	case "stat":
		if len(data) < 1 {
			return
		}
		if !l.Off && (data[0] == 0x10 || data[0] == 0x23) {
			return
		}
		data = data[1:]
	case "heartbeat":
		if len(data) < 1 || data[0] == 0x83 {
			return
		}
		data = data[1:]
	case "lb":
		if len(data) < 1 || !l.Off && data[0] != 0 {
			return
		}
		data = data[1:]
	case "discarder", "echo":
		if !l.Off {
			return
		}
	}
	d.feed(level-1, data, session)
}

func refDecode(codec string, data []byte) (v interface{}, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	switch codec {
	case "bytes":
		return append([]byte(nil), data...), len(data) > 0
	case "string":
		return string(data), len(data) > 0
	case "json":
		if len(data) == 0 {
			return nil, false
		}
		r := &Rec{}
		return r, json.Unmarshal(data, r) == nil
	case "gob":
		r := &Rec{}
		return r, gob.NewDecoder(bytes.NewReader(data)).Decode(r) == nil
	case "generic":
		m, err := genericDecode(bytes.NewReader(data))
		return m, err == nil
	}
	panic(codec)
}

func runHostile(e *Env, c HostileCase) {
	e.Bubble(func() {
		layers := layersOf(c.Layers)
		for i, l := range c.Layers {
			if l.Kind == "frame" && c.Cap > 0 {
				layers[i].SetOption("CacheCapacity", c.Cap)
			}
		}
		r := newRig("s", c.MTU, append([]ustack.DataProcessor{newCodec(c.Codec)}, layers...)...)
		eps := map[uint32]ustack.EndPoint{0: newEP("0", 0), 1: newEP("1", 1)}
		r.st.AddEndPoint(eps[0])
		r.st.AddEndPoint(eps[1])
		r.st.Run()
		bad, good := newMemConn("bad"), newMemConn("good")
		r.tp.offer(bad)
		r.tp.offer(good)
		synctest.Wait()

		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)

		size := cacheCap(c.MTU, c.Cap)
		ref := &refDecoder{codec: c.Codec, layers: c.Layers, cap: size, caches: map[int][]byte{}}
		goodRef := &refDecoder{codec: c.Codec, layers: c.Layers, cap: size, caches: map[int][]byte{}}
		var got, goodGot []refMsg
		look := func(at string) {
			for s, ep := range eps {
				for _, d := range drain(ep.GetRxChannel()) {
					m := refMsg{s, refValue(d.GetData())}
					if d.GetConnection() == ustack.TransportConnection(good) {
						goodGot = append(goodGot, m)
					} else {
						got = append(got, m)
					}
				}
			}
			cmp := func(who string, got, want []refMsg) {
				var w []refMsg
				for _, m := range want {
					if m.session <= 1 {
						w = append(w, m)
					}
				}
				count := map[refMsg]int{}
				for _, m := range w {
					count[m]++
				}
				for _, m := range got {
					count[m]--
					e.Check(count[m] >= 0, "%s: %s peer: received %v which is not in the bytes that were sent", at, who, m)
				}
				e.Check(len(got) == len(w), "%s: %s peer: %d messages received, %d are in the bytes that were sent", at, who, len(got), len(w))
			}
			if !ref.unknown {
				cmp("hostile", got, ref.out)
			}
			if !goodRef.unknown {
				cmp("well-behaved", goodGot, goodRef.out)
			}
		}
		goodAt := map[int]int{} // chunk -> 1 + where the message is split
		for k, i := range c.Good {
			goodAt[i] = 1
			if k < len(c.Split) {
				goodAt[i] += c.Split[k]
			}
		}
		feedGood := func(b []byte) {
			if len(b) > 0 {
				good.feed(b)
				goodRef.feed(len(c.Layers)-1, b, 0)
			}
			synctest.Wait()
		}
		for i, ch := range c.Chunks {
			var rest []byte
			if goodAt[i] > 0 {
				if wire := wrap(inbound(c.Layers), Msg{ID: i + 1, N: 3}.encoded(c.Codec), 1); len(wire) <= c.MTU {
					k := min(goodAt[i]-1, len(wire))
					feedGood(wire[:k])
					rest = wire[k:]
					e.ClassIf(k > 0 && len(rest) > 0, "bystander-in-mid-message")
				}
			}
			if c.EOF && i == len(c.Chunks)-1 {
				bad.feedErr(ch, io.EOF)
			} else {
				bad.feed(ch)
			}
			// the stack reads at most the MTU at once
			for rest := ch; len(rest) > 0; {
				n := min(len(rest), c.MTU)
				ref.feed(len(c.Layers)-1, rest[:n], 0)
				rest = rest[n:]
			}
			synctest.Wait()
			look(fmt.Sprintf("chunk %d", i))
			feedGood(rest)
			look(fmt.Sprintf("well-behaved peer after chunk %d", i))
		}
		e.Check(!good.Closed(), "the connection of the well-behaved peer was closed")
		e.Check(c.EOF || !bad.Closed(), "a connection was closed because of what was received")

		runtime.ReadMemStats(&m1)
		e.Check(m1.TotalAlloc-m0.TotalAlloc < 64<<20, "%d MB were allocated for a few hundred bytes", (m1.TotalAlloc-m0.TotalAlloc)>>20)

		e.Class(c.Codec)
		e.ClassIf(ref.unknown, "announced-too-large")
		e.ClassIf(len(ref.out) > 0, "some-delivered")
		e.ClassIf(len(goodGot) > 0, "bystander-served")
		if len(c.Chunks) > 1 && len(c.Layers) > 0 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C08",
		Rule: "a case is a codec, up to 6 layers and a stream of valid, truncated, changed, doubled and random messages, special length fields and self messages, cut anywhere, fed by one peer while another peer behaves well; deliveries are compared with an independent decoder of the same bytes until it meets a frame announced larger than the cache; non-trivial: several segments and at least one layer",
		Parts: []Part{
			part("bytes", 2500, genHostile, runHostile),
		},
	})
}
