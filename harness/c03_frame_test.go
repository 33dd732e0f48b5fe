package verif

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"testing/synctest"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C03: a byte stream of frames is cut back into exactly those frames

type Stream struct {
	Frames []int `json:"frames"` // payload lengths, 0: an empty frame
	Cuts   []int `json:"cuts"`   // positions at which the stream is cut
}

type FrameCase struct {
	MTU    int    `json:"mtu"`
	Cap    int    `json:"cap"` // option CacheCapacity, 0: not set
	Below  string `json:"below,omitempty"`
	Codec  bool   `json:"codec,omitempty"`
	EOF    bool   `json:"eof,omitempty"` // the last bytes arrive together with the end of the stream
	Stream Stream `json:"stream"`
}

func (s Stream) bytes(id int) (stream []byte, payloads [][]byte, ends []int) {
	for i, n := range s.Frames {
		p := pattern(id*1000+i, n)
		if n > 0 && n < 40 && i%3 == 1 {
			// payload that looks like a frame header
			for j := range p {
				p[j] = byte(j % 5)
			}
		}
		stream = append(append(stream, be32(uint32(n))...), p...)
		if n > 0 {
			payloads = append(payloads, p)
			ends = append(ends, len(stream))
		}
	}
	return
}

func (s Stream) chunks(stream []byte) [][]byte {
	var r [][]byte
	last := 0
	for _, c := range s.Cuts {
		if c > last && c < len(stream) {
			r = append(r, stream[last:c])
			last = c
		}
	}
	if last < len(stream) {
		r = append(r, stream[last:])
	}
	return r
}

func genStream(t *rapid.T, maxLen, maxFrames int) Stream {
	var s Stream
	n := drawUni(t, 1, maxFrames, "nframes")
	tiny := maxFrames > 100
	total := 0
	var bounds []int
	for i := 0; i < n; i++ {
		var l int
		class := drawUni(t, 0, 7, "lenclass")
		if tiny {
			class %= 2
		}
		switch class {
		case 0:
			l = 0
		case 1:
			l = 1
		case 2:
			l = maxLen
		case 3:
			l = maxLen - drawInt(t, 0, 5, "d")
		case 4, 5:
			l = drawUni(t, 1, min(maxLen, 12), "l")
		default:
			l = drawUni(t, 0, maxLen, "l")
		}
		l = max(0, min(l, maxLen))
		s.Frames = append(s.Frames, l)
		total += 4 + l
		bounds = append(bounds, total)
	}
	set := map[int]bool{}
	switch drawUni(t, 0, 4, "cutmode") {
	case 0: // whole
	case 1: // byte by byte
		for i := 1; i < total && i < 600; i++ {
			set[i] = true
		}
	case 2: // around the boundaries
		for _, b := range bounds {
			k := drawInt(t, 0, 3, "k")
			for j := 0; j < k; j++ {
				set[b+drawUni(t, -5, 5, "d")] = true
			}
		}
	case 3: // regular
		step := drawUni(t, 1, max(2, total/2), "step")
		for i := step; i < total && len(set) < 400; i += step {
			set[i] = true
		}
	default: // anywhere
		k := drawUni(t, 0, 12, "k")
		for j := 0; j < k; j++ {
			set[drawUni(t, 1, total, "p")] = true
		}
	}
	for i := 1; i < total; i++ {
		if set[i] {
			s.Cuts = append(s.Cuts, i)
		}
	}
	return s
}

// cacheCap is the frame size limit (with header) that the option gives
func cacheCap(mtu, opt int) int {
	if opt > 0 {
		return opt
	}
	return 2 * mtu
}

func genFrameCase(t *rapid.T) FrameCase {
	var c FrameCase
	c.MTU = drawOf(t, "mtu", 64, 16, 2048, 5, 9, drawUni(t, 5, 300, "mtun"))
	if drawPct(t, 60, "opt") {
		c.Cap = drawOf(t, "cap", c.MTU, 5, 2*c.MTU, 8, 100, drawUni(t, 5, 400, "capn"))
	}
	c.Below = drawOf(t, "below", "", "", "probe", "flow", "filter")
	c.Codec = drawPct(t, 40, "codec")
	c.EOF = drawPct(t, 20, "eof")
	maxFrames := 9
	switch {
	case drawPct(t, 3, "huge"):
		// frames that need more than 16 bits of the length field
		c.MTU = drawOf(t, "hugemtu", 70000, 2048, 100000, 65536)
		c.Cap = drawOf(t, "hugecap", 140000, 65536+4, 70000, 65536+300)
		maxFrames = 4
	case drawPct(t, 10, "many"):
		maxFrames = 60
	case drawPct(t, 4, "tiny"):
		// hundreds of frames in one read
		c.MTU, c.Cap = drawOf(t, "tinymtu", 2048, 1024, 300), 0
		maxFrames = 600
	}
	c.Stream = genStream(t, cacheCap(c.MTU, c.Cap)-4, maxFrames)
	return c
}

func runFrameCase(e *Env, c FrameCase) {
	e.Bubble(func() {
		frame := ustack.NewFrameDecoder()
		if c.Cap > 0 {
			frame.SetOption("CacheCapacity", c.Cap)
		}
		var procs []ustack.DataProcessor

		var got [][]byte
		var kept []*ustack.UBuf
		ep := newEP("ep", 0)
		if c.Codec {
			procs = append(procs, ustack.NewBytesCodec())
		} else {
			top := newProbe("top")
			top.onLow = func(ctx ustack.Context) bool {
				b := ctx.GetBuffer()
				p := make([]byte, b.ReadableLength())
				b.Peek(p)
				got = append(got, p)
				kept = append(kept, b)
				return false
			}
			procs = append(procs, top)
		}
		procs = append(procs, frame)
		if c.Below != "" {
			procs = append(procs, newLayer(Layer{Kind: c.Below}))
		}
		r := newRig("s", c.MTU, procs...)
		r.st.AddEndPoint(ep)
		r.st.Run()
		conn := newMemConn("c")
		r.tp.offer(conn)
		synctest.Wait()

		stream, payloads, ends := c.Stream.bytes(1)
		chunks := c.Stream.chunks(stream)
		fed := 0
		split := false
		for i, ch := range chunks {
			if c.EOF && i == len(chunks)-1 {
				conn.feedErr(ch, io.EOF)
			} else {
				conn.feed(ch)
			}
			fed += len(ch)
			synctest.Wait()
			for _, d := range drain(ep.GetRxChannel()) {
				b, _ := d.GetData().([]byte)
				got = append(got, b)
			}
			want := 0
			for _, end := range ends {
				if end <= fed {
					want++
				}
			}
			e.Check(len(got) == want, "after %d bytes of the stream %d frames were delivered, %d are complete (lengths delivered %v, sent %v)",
				fed, len(got), want, lens(got), lens(payloads))
			for k := range got {
				e.Check(bytes.Equal(got[k], payloads[k]), "frame %d delivered as %s, sent %s", k, short(got[k]), short(payloads[k]))
			}
			if (want < len(ends) && (want == 0 || ends[want-1] != fed)) || (want < len(ends) && fed > 0 && want == 0) {
				split = true
			}
		}
		// what was delivered stays as it was
		for k, b := range kept {
			p := make([]byte, b.ReadableLength())
			b.Peek(p)
			e.Check(bytes.Equal(p, payloads[k]), "the buffer of frame %d changed after it was delivered: %s, sent %s", k, short(p), short(payloads[k]))
		}
		e.ClassIf(c.Cap > 0 && c.Cap < c.MTU, "cache-smaller-than-mtu")
		e.ClassIf(len(stream) > c.MTU, "stream-longer-than-mtu")
		e.ClassIf(split, "split-frame")
		for _, n := range c.Stream.Frames {
			e.ClassIf(n == 0, "empty-frame")
			e.ClassIf(n > 65535, "frame-over-64k")
			e.ClassIf(n == cacheCap(c.MTU, c.Cap)-4, "largest-frame")
		}
		if split && len(payloads) > 1 {
			e.NonTrivial()
		}
	})
}

// ---- C04: the streams of different connections do not mix

type MultiCase struct {
	MTU     int      `json:"mtu"`
	Layers  []Layer  `json:"layers"` // below the codec, the last one is the frame decoder
	Streams []Stream `json:"streams"`
	Sched   []int    `json:"sched"`
	EndAt   []int    `json:"end"`  // >= 0: the peer ends the connection after that many chunks
	Late    []int    `json:"late"` // the connection appears after that many steps
	Conc    bool     `json:"conc,omitempty"`
	Fail    bool     `json:"fail,omitempty"`  // ends with an error instead of EOF
	Crowd   int      `json:"crowd,omitempty"` // more connections, in the middle of a frame
	Nested  bool     `json:"nested,omitempty"`
	Local   []int    `json:"local,omitempty"` // > 0: it ends by a failing write instead, and that many segments less one come out of its reads after that
}

func genMultiCase(t *rapid.T, conc bool) MultiCase {
	var c MultiCase
	c.Conc = conc
	c.MTU = drawOf(t, "mtu", 64, 2048, 128, drawUni(t, 32, 400, "mtun"))
	for _, k := range []string{"session", "stat", "flow", "heartbeat"} {
		if drawPct(t, 25, k) {
			c.Layers = append(c.Layers, Layer{Kind: k})
		}
	}
	c.Layers = append(c.Layers, Layer{Kind: "frame"})
	c.Fail = drawPct(t, 30, "fail")
	c.Nested = drawPct(t, 30, "nested")
	if drawPct(t, 3, "crowded") {
		c.Crowd = drawOf(t, "crowd", 300, 70, 20, drawUni(t, 10, 1200, "crowdn"))
	}
	n := drawUni(t, 2, 5, "nconns")
	for i := 0; i < n; i++ {
		// payload of the codec, the layers above the frame need room
		s := genStream(t, c.MTU-overheadOf(c.Layers), 6)
		c.Streams = append(c.Streams, s)
		c.EndAt = append(c.EndAt, -1)
		if drawPct(t, 35, "ends") {
			c.EndAt[i] = drawUni(t, 0, len(s.Cuts), "endat")
		}
		c.Local = append(c.Local, 0)
		if !conc && c.EndAt[i] >= 0 && drawPct(t, 40, "local") {
			c.Local[i] = drawUni(t, 1, 4, "localn")
		}
		c.Late = append(c.Late, 0)
		if drawPct(t, 30, "late") {
			c.Late[i] = drawUni(t, 0, 10, "lateat")
		}
	}
	k := drawUni(t, 5, 60, "nsched")
	for i := 0; i < k; i++ {
		c.Sched = append(c.Sched, drawUni(t, 0, n-1, "s"))
	}
	return c
}

type connState struct {
	conn    *memConn
	msgs    [][]byte // payloads the peer sends
	ends    []int    // offset of the end of each in the stream
	chunks  [][]byte
	next    int
	fed     int
	ended   bool
	offered bool
	local   bool // ended by a failing write: not all needs to be delivered
	got     [][]byte
}

func (c MultiCase) states() []*connState {
	var r []*connState
	upper := c.Layers[:len(c.Layers)-1]
	for i, s := range c.Streams {
		st := &connState{}
		var stream []byte
		for j, n := range s.Frames {
			if n == 0 {
				stream = append(stream, be32(0)...)
				continue
			}
			p := pattern(i*1000+j, n)
			if c.Nested {
				// the content looks like frames itself
				inner := wrapLayer(Layer{Kind: "frame"}, wrap(upper, []byte{byte(i), byte(j)}, 0), 0)
				for k := range p {
					p[k] = inner[k%len(inner)]
				}
			}
			stream = append(stream, wrapLayer(Layer{Kind: "frame"}, wrap(upper, p, 0), 0)...)
			st.msgs = append(st.msgs, p)
			st.ends = append(st.ends, len(stream))
		}
		st.chunks = s.chunks(stream)
		r = append(r, st)
	}
	// the crowd: two small messages, the first segment ends within one of them
	for i := 0; i < c.Crowd; i++ {
		st := &connState{}
		var stream []byte
		for j := 0; j < 2; j++ {
			p := pattern(i*2+j+7777, 1+(i+j)%7)
			stream = append(stream, wrapLayer(Layer{Kind: "frame"}, wrap(upper, p, 0), 0)...)
			st.msgs = append(st.msgs, p)
			st.ends = append(st.ends, len(stream))
		}
		k := 1 + (i*5)%(len(stream)-1)
		st.chunks = [][]byte{stream[:k], stream[k:]}
		r = append(r, st)
	}
	return r
}

func (st *connState) complete() int {
	n := 0
	for _, e := range st.ends {
		if e <= st.fed {
			n++
		}
	}
	return n
}

func localOf(local []int, i int) int {
	if i < len(local) {
		return local[i]
	}
	return 0
}

func runMultiCase(e *Env, c MultiCase) {
	e.Bubble(func() {
		procs := append([]ustack.DataProcessor{ustack.NewBytesCodec()}, layersOf(c.Layers)...)
		r := newRig("s", c.MTU, procs...)
		ep := newEP("ep", 0)
		r.st.AddEndPoint(ep)
		r.st.Run()

		states := c.states()
		own := len(c.Streams)
		for i := 0; i < c.Crowd; i++ {
			end := -1
			if i%4 == 0 {
				end = 1
			}
			c.EndAt, c.Late = append(c.EndAt[:own+i:own+i], end), append(c.Late[:own+i:own+i], 0)
		}
		byConn := map[ustack.TransportConnection]*connState{}
		for i, st := range states {
			st.conn = newMemConn(fmt.Sprint("c", i))
			byConn[st.conn] = st
		}
		var mu sync.Mutex
		record := func(d ustack.EndPointData) {
			mu.Lock()
			defer mu.Unlock()
			st := byConn[d.GetConnection()]
			if st == nil {
				e.Fail("data of a connection that nobody made")
				return
			}
			b, _ := d.GetData().([]byte)
			st.got = append(st.got, b)
			k := len(st.got) - 1
			if k >= len(st.msgs) || !bytes.Equal(b, st.msgs[k]) {
				e.Fail("message %d of connection %s arrived as %s", k, st.conn.name, short(b))
			}
		}
		step := func(st *connState, endAt, local int) {
			if st.ended || st.next > len(st.chunks) {
				return
			}
			if st.next == endAt || st.next == len(st.chunks) {
				if endAt < 0 {
					return
				}
				st.ended = true
				if local > 0 {
					st.local = true
					gate := make(chan struct{})
					st.conn.mu.Lock()
					st.conn.lateGate = gate
					st.conn.late = append([][]byte(nil), st.chunks[st.next:min(len(st.chunks), st.next+local-1)]...)
					st.conn.mu.Unlock()
					st.conn.setFailAfter(0)
					ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(st.conn).SetData([]byte("x"))
					synctest.Wait()
					e.Check(st.conn.Closed(), "connection %s is open after a failing write", st.conn.name)
					close(gate)
					return
				}
				if c.Fail {
					st.conn.feedErr(nil, errPeer)
				} else {
					st.conn.feedErr(nil, io.EOF)
				}
				return
			}
			st.conn.feed(st.chunks[st.next])
			st.fed += len(st.chunks[st.next])
			st.next++
		}
		check := func() {
			for _, st := range states {
				e.Check(st.local || len(st.got) == st.complete(), "connection %s: %d messages delivered, %d arrived completely", st.conn.name, len(st.got), st.complete())
			}
		}
		if c.Conc {
			ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { record(d) })
			var wg sync.WaitGroup
			for i, st := range states {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.tp.offer(st.conn)
					for st.next < len(st.chunks) && !st.ended {
						step(st, c.EndAt[i], 0)
					}
				}()
			}
			wg.Wait()
			synctest.Wait()
			e.Check(!e.Failed(), "see above")
			mu.Lock()
			defer mu.Unlock()
			check()
		} else {
			round := 0
			one := func(i int) {
				st := states[i]
				for j, s := range states {
					if !s.offered && c.Late[j] <= round {
						s.offered = true
						r.tp.offer(s.conn)
					}
				}
				if !st.offered {
					round++
					return
				}
				step(st, c.EndAt[i], localOf(c.Local, i))
				synctest.Wait()
				for _, d := range drain(ep.GetRxChannel()) {
					record(d)
				}
				e.Check(!e.Failed(), "see above")
				check()
				round++
			}
			for i := range states[own:] {
				one(own + i)
			}
			for _, i := range c.Sched {
				one(i)
			}
			for i := range states[own:] {
				if c.EndAt[own+i] >= 0 {
					one(own + i)
				}
			}
			e.ClassIf(c.Crowd > 0, "crowd")
			for i, st := range states {
				for st.next < len(st.chunks) && !st.ended {
					one(i)
				}
			}
		}
		interleaved := 0
		for i, st := range states {
			if len(st.chunks) > 1 {
				interleaved++
			}
			e.ClassIf(c.EndAt[i] >= 0 && st.ended && st.complete() < len(st.msgs), "ended-in-the-middle")
			e.ClassIf(st.local, "ended-by-a-failing-write")
			e.ClassIf(c.Late[i] > 0, "late-connection")
		}
		if interleaved > 1 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C03",
		Rule: "a case is an MTU, a cache capacity, up to 9 frames (including empty, one byte and largest ones) and a segmentation of their byte stream (whole, byte by byte, around frame boundaries, regular, anywhere); after every segment the delivered frames are compared with those complete so far; non-trivial: at least two non-empty frames and a segment that ends inside a frame",
		Parts: []Part{
			part("reassembly", 2500, genFrameCase, runFrameCase),
		},
	})
	register(&Property{
		ID:   "C04",
		Rule: "a case is 2 to 5 connections (sometimes up to 1200 more), each with its own segmented stream of framed messages, an interleaving of the segments, peers that end in the middle of a frame and connections that appear late (or every connection fed by its own goroutine); non-trivial: at least two connections have streams of several segments",
		Parts: []Part{
			part("interleaved", 1500, func(t *rapid.T) MultiCase { return genMultiCase(t, false) }, runMultiCase),
			part("parallel", 1200, func(t *rapid.T) MultiCase { return genMultiCase(t, true) }, runMultiCase),
		},
	})
}
