package verif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C16: the statistics count every message once

type StatOp struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	N  int    `json:"n"`
	Z  int    `json:"z"` // size
	S  uint32 `json:"s"` // session of a request
}

type StatCase struct {
	Rep     int      `json:"rep,omitempty"` // the steps are done that many times
	Above   []Layer  `json:"above"`
	Below   []Layer  `json:"below"`
	Name    string   `json:"name"`
	Collect int      `json:"collect"`
	Conns   int      `json:"conns"`
	Ops     []StatOp `json:"ops"`
}

func genStatLayers(t *rapid.T) (above, below []Layer) {
	for _, k := range []string{"session", "lb", "flow", "frame", "stat"} {
		if !drawBool(t, "has") {
			continue
		}
		l := Layer{Kind: k, Off: k == "lb"}
		if drawBool(t, "above") {
			above = append(above, l)
		} else {
			below = append(below, l)
		}
	}
	return
}

func genStatCase(t *rapid.T) StatCase {
	c := StatCase{Name: rapid.StringMatching(`[A-Za-z0-9_. -]{0,40}`).Draw(t, "name"), Conns: drawUni(t, 1, 3, "conns")}
	if drawPct(t, 15, "longname") {
		c.Name += strings.Repeat("n", drawOf(t, "namelen", 24, 64, 88, 128, 160, 200))
	}
	c.Above, c.Below = genStatLayers(t)
	if drawPct(t, 30, "collect") {
		c.Collect = drawUni(t, 1, 5, "interval")
	}
	for i, n := 0, drawUni(t, 1, 25, "n"); i < n; i++ {
		op := StatOp{
			Op: drawOf(t, "op", "in", "in", "out", "out", "req", "req", "big", "off-on", "res", "sleep", "garbage", "fail", "close", "empty", "tag", "off-req", "ask-back", "mix", "nowhere", "rename"),
			C:  drawUni(t, 0, c.Conns-1, "c"), N: drawUni(t, 1, 9, "n"), Z: drawUni(t, 1, 150, "z"),
		}
		if c.Collect > 0 && op.Op == "sleep" && drawPct(t, 20, "long") {
			op.Z = drawUni(t, 300, 6000, "long")
		}
		if op.Op == "req" && drawPct(t, 30, "session") {
			op.S = uint32(drawUni(t, 1, 1<<20, "s"))
		}
		c.Ops = append(c.Ops, op)
	}
	c.Ops = append(c.Ops, StatOp{Op: "req", N: 1})
	return c
}

func runStatCase(e *Env, c StatCase) {
	e.Bubble(func() {
		name := c.Name
		stat := ustack.NewStatCounter()
		if c.Collect > 0 {
			stat.SetOption("Collect.IntervalInSecond", c.Collect)
		}
		st := ustack.NewUStack().SetName(name).SetOption("MTU", 300).AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range c.Above {
			st.AppendDataProcessor(newLayer(l))
		}
		st.AppendDataProcessor(stat)
		for _, l := range c.Below {
			st.AppendDataProcessor(newLayer(l))
		}
		all := append(append(append([]Layer{}, c.Above...), Layer{Kind: "stat"}), c.Below...)
		req := wrap(c.Below, []byte{0x10}, 0)
		ep := newEP("E", 0)
		st.AddEndPoint(ep)
		tp := newMemTransport("T")
		st.AddTransport(tp)
		st.Run()
		start := time.Now()
		var conns []*memConn
		requests := make([]int, c.Conns)
		for i := 0; i < c.Conns; i++ {
			k := newMemConn(fmt.Sprint("c", i))
			conns = append(conns, k)
			tp.offer(k)
		}
		synctest.Wait()
		var tx, rx uint64
		asked := 0
		// what was written without the collecting
		writes := func(at string, i int) [][]byte {
			synctest.Wait()
			var r [][]byte
			for _, w := range conns[i].take() {
				if c.Collect > 0 && bytes.Equal(w, req) {
					requests[i]++
				} else {
					r = append(r, w)
				}
			}
			return r
		}
		open := func(i int) bool { return !conns[i].Closed() }
		closedAt := make([]time.Duration, c.Conns)
		for i := range closedAt {
			closedAt[i] = -1
		}
		for n, op := range repeated(c.Ops, c.Rep) {
			at := fmt.Sprintf("op %d (%s connection %d)", n, op.Op, op.C)
			if !open(op.C) && op.Op != "sleep" && op.Op != "off-on" {
				continue
			}
			k := conns[op.C]
			switch op.Op {
			case "in":
				var want [][]byte
				for j := 0; j < op.N; j++ {
					p := pattern(n*10+j, op.Z)
					want = append(want, p)
					k.feed(wrap(all, p, 0))
					rx++
				}
				synctest.Wait()
				got := drain(ep.GetRxChannel())
				e.Check(len(got) == len(want), "%s: received %d messages of %d", at, len(got), len(want))
				for j := range got {
					b, _ := got[j].GetData().([]byte)
					e.Check(bytes.Equal(b, want[j]), "%s: received %s, sent %s", at, short(b), short(want[j]))
				}
			case "out":
				for j := 0; j < op.N; j++ {
					ep.GetTxChannel() <- epd(k, pattern(n*10+j, op.Z))
					tx++
				}
				got := writes(at, op.C)
				e.Check(len(got) == op.N, "%s: %d writes, sent %d messages", at, len(got), op.N)
				for j := range got {
					e.Check(bytes.Equal(got[j], wrap(all, pattern(n*10+j, op.Z), 0)), "%s: wrote %s", at, short(got[j]))
				}
			case "big":
				// does not fit, never comes to the counter
				ep.GetTxChannel() <- epd(k, pattern(n, 400))
				got := writes(at, op.C)
				e.Check(len(got) == 0, "%s: %d writes", at, len(got))
			case "garbage":
				// for a session nobody has: received, but not delivered
				withSession := false
				for _, l := range c.Above {
					withSession = withSession || l.Kind == "session"
				}
				if withSession {
					k.feed(wrap(all, pattern(n, op.Z), 9))
					rx++
					synctest.Wait()
					e.Check(len(drain(ep.GetRxChannel())) == 0, "%s: delivered", at)
					e.Class("not-delivered")
				}
			case "empty":
				// a message without content passes the counter, the codec has no use for it
				k.feed(wrap(c.Below, []byte{0}, 0))
				rx++
				synctest.Wait()
				e.Check(len(drain(ep.GetRxChannel())) == 0, "%s: delivered", at)
				e.Class("empty")
			case "tag":
				// everything that is neither a request nor a response is a message
				w := wrap(append(c.Above[:len(c.Above):len(c.Above)], Layer{Kind: "stat"}), pattern(n, op.Z), 0)
				w[0] = []byte{1, 0x11, 0x22, 0x24, 0x83, 0xff}[op.N%6]
				k.feed(wrap(c.Below, w, 0))
				rx++
				synctest.Wait()
				e.Check(len(drain(ep.GetRxChannel())) == 1, "%s: not delivered", at)
				e.Class("other-tag")
			case "off-on":
				// not counted while it is switched off
				stat.SetEnable(false)
				if open(op.C) {
					k.feed(wrap(all, pattern(n, op.Z), 0))
					ep.GetTxChannel() <- epd(k, pattern(n, op.Z))
					got := writes(at, op.C)
					e.Check(len(got) == 1 && bytes.Equal(got[0], wrap(all, pattern(n, op.Z), 0)), "%s: %d writes", at, len(got))
					e.Check(len(drain(ep.GetRxChannel())) == 1, "%s: not delivered", at)
				}
				stat.SetEnable(true)
				e.Class("off")
			case "off-req":
				// switched off it lets requests and responses through like everything else
				stat.SetEnable(false)
				w := wrap(append(c.Above[:len(c.Above):len(c.Above)], Layer{Kind: "stat"}), pattern(n, op.Z), 0)
				w[0] = []byte{0x10, 0x23}[op.N%2]
				k.feed(wrap(c.Below, w, 0))
				synctest.Wait()
				e.Check(len(writes(at, op.C)) == 0, "%s: answered while it is off", at)
				got := drain(ep.GetRxChannel())
				e.Check(len(got) == 1 && bytes.Equal(got[0].GetData().([]byte), pattern(n, op.Z)), "%s: %d messages delivered while it is off", at, len(got))
				stat.SetEnable(true)
				e.Class("request-while-off")
			case "ask-back":
				// the peer asks as soon as it has a message, which is counted then
				if c.Collect > 0 {
					break
				}
				base, seen := tx, uint64(0)
				ask := wrap(all, []byte("ask"), 0)
				var atLeast []uint64
				k.setOnWrite(func(p []byte) {
					if bytes.Equal(p, ask) {
						seen++
						atLeast = append(atLeast, base+seen)
						k.feed(req)
						realPause(300 * time.Microsecond)
					}
				})
				for j := 0; j < op.N%3+1; j++ {
					ep.GetTxChannel() <- epd(k, []byte("ask"))
					tx++
				}
				synctest.Wait()
				k.setOnWrite(nil)
				var counts []uint64
				for _, w := range k.take() {
					if !bytes.Equal(w, ask) && len(w) >= len(name)+17 {
						counts = append(counts, binary.BigEndian.Uint64(w[len(w)-len(name)-16:]))
					}
				}
				e.Check(len(counts) == len(atLeast) && len(counts) == op.N%3+1, "%s: %d messages, %d requests, %d responses", at, op.N%3+1, len(atLeast), len(counts))
				for j, v := range counts {
					e.Check(v >= atLeast[j] && v <= tx, "%s: the response says %d messages were sent, the peer had %d when it asked (at most %d)", at, v, atLeast[j], tx)
				}
				asked++
				e.Class("asked-back")
			case "res":
				// a response of somebody is not for the upper layers
				p := append([]byte{0x23}, make([]byte, 16)...)
				p = append(p, bytes.Repeat([]byte{'p'}, []int{4, 0, 1, 127, 128, 129, 250}[op.Z%7])...)
				if op.N == 1 {
					p = p[:1+op.Z%17]
				}
				k.feed(wrap(c.Below, p, 0))
				synctest.Wait()
				e.Check(len(drain(ep.GetRxChannel())) == 0, "%s: delivered", at)
				e.Check(len(writes(at, op.C)) == 0, "%s: answered", at)
			case "req":
				e.Check(len(writes(at, op.C)) == 0, "%s: written before it was asked", at)
				for j := 0; j < op.N%3+1; j++ {
					k.feed(wrap(c.Below, []byte{0x10}, op.S))
					got := writes(at, op.C)
					e.Check(len(got) == 1, "%s: %d writes, expected one response", at, len(got))
					p := []byte{0x23}
					p = binary.BigEndian.AppendUint64(p, tx)
					p = binary.BigEndian.AppendUint64(p, rx)
					want := wrap(c.Below, append(p, name...), op.S)
					e.Check(bytes.Equal(got[0], want), "%s: response %x, expected %x (tx %d rx %d)", at, got[0], want, tx, rx)
					asked++
				}
				for i := range conns {
					if i != op.C {
						e.Check(len(writes(at, i)) == 0, "%s: connection %d got something", at, i)
					}
				}
				e.Check(len(drain(ep.GetRxChannel())) == 0, "%s: a request was delivered", at)
			case "mix":
				// requests among messages that arrive together: each response has the numbers
				// of the moment when the request arrived
				framed := len(c.Below) > 0 && c.Below[len(c.Below)-1].Kind == "frame"
				var stream []byte
				var wantUp, wantDown [][]byte
				for j := 0; j < op.N+2; j++ {
					var w []byte
					if (op.Z+j)%3 == 0 {
						w = req
						p := binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64([]byte{0x23}, tx), rx)
						wantDown = append(wantDown, wrap(c.Below, append(p, name...), 0))
						asked++
					} else {
						p := pattern(n*100+j, op.Z%40+1)
						w = wrap(all, p, 0)
						wantUp = append(wantUp, p)
						rx++
					}
					if framed {
						stream = append(stream, w...)
					} else {
						k.feed(w)
					}
				}
				if framed {
					k.feed(stream)
				}
				down := writes(at, op.C)
				e.Check(len(down) == len(wantDown), "%s: %d writes, expected %d responses", at, len(down), len(wantDown))
				for j := range down {
					e.Check(bytes.Equal(down[j], wantDown[j]), "%s: response %d is %x, expected %x", at, j, down[j], wantDown[j])
				}
				up := drain(ep.GetRxChannel())
				e.Check(len(up) == len(wantUp), "%s: %d messages delivered, expected %d", at, len(up), len(wantUp))
				for j := range up {
					b, _ := up[j].GetData().([]byte)
					e.Check(bytes.Equal(b, wantUp[j]), "%s: received %s, sent %s", at, short(b), short(wantUp[j]))
				}
				e.Class("mixed")
				e.ClassIf(framed, "mixed-in-one-read")
			case "rename":
				// the responses have the name the stack has then
				name = fmt.Sprint(strings.Repeat("x", op.Z), n)
				st.SetName(name)
				e.Class("renamed")
			case "nowhere":
				// passed the counter, there is no connection to write it to
				ep.GetTxChannel() <- epd(nil, pattern(n, op.Z))
				tx++
				synctest.Wait()
				for i := range conns {
					e.Check(len(writes(at, i)) == 0, "%s: connection %d got something", at, i)
				}
				e.Class("nowhere")
			case "sleep":
				e.ClassIf(op.Z > 300, "long-time")
				time.Sleep(time.Duration(op.Z) * 137 * time.Millisecond)
			case "fail":
				// passed the counter, the connection failed
				if op.N == 1 && c.Conns > 1 && op.C > 0 {
					k.setFailAfter(1)
					ep.GetTxChannel() <- epd(k, pattern(n, op.Z))
					tx++
					writes(at, op.C)
					e.Check(!open(op.C), "%s: still open", at)
					closedAt[op.C] = time.Since(start)
					e.Class("failed")
				}
			case "close":
				if op.N == 1 && c.Conns > 1 && op.C > 0 {
					k.Close()
					closedAt[op.C] = time.Since(start)
				}
			}
		}
		if c.Collect > 0 {
			time.Sleep(137 * time.Millisecond)
			synctest.Wait()
		}
		for i := range conns {
			e.Check(len(writes("end", i)) == 0, "connection %d: something else was written", i)
			if c.Collect > 0 {
				end := time.Since(start)
				if closedAt[i] >= 0 {
					end = closedAt[i]
				}
				step := time.Duration(c.Collect) * time.Second
				want := int(end/step) + 1
				// the failing connection may refuse the request at that moment
				e.Check(requests[i] == want || (closedAt[i] >= 0 && end%step == 0 && requests[i] == want-1),
					"connection %d: %d requests in %v, interval %v", i, requests[i], end, step)
				e.Class("collected")
			}
		}
		e.ClassIf(tx > 0 && rx > 0, "both-directions")
		if tx+rx > 3 && asked > 0 {
			e.NonTrivial()
		}
	})
}

// ---- several endpoints and connections at the same time

type StatParCase struct {
	Senders int  `json:"senders"`
	Conns   int  `json:"conns"`
	Out     int  `json:"out"`
	In      int  `json:"in"`
	Frame   bool `json:"frame"`
	Ask     int  `json:"ask,omitempty"` // the peers ask for the numbers after so many messages
}

func genStatParCase(t *rapid.T) StatParCase {
	return StatParCase{Senders: drawUni(t, 1, 6, "senders"), Conns: drawUni(t, 1, 6, "conns"), Out: drawUni(t, 1, 300, "out"), In: drawUni(t, 1, 300, "in"), Frame: drawBool(t, "frame"), Ask: drawOf(t, "ask", 0, 1, 3, 20)}
}

// more than 16 bits
func genStatManyCase(t *rapid.T) StatParCase {
	return StatParCase{Senders: drawUni(t, 2, 4, "senders"), Conns: drawUni(t, 2, 4, "conns"), Out: drawUni(t, 33000, 36000, "out"), In: drawUni(t, 33000, 36000, "in"), Frame: drawBool(t, "frame")}
}

func runStatParCase(e *Env, c StatParCase) {
	e.Bubble(func() {
		all := []Layer{{Kind: "session"}, {Kind: "stat"}}
		var below []Layer
		if c.Frame {
			below = []Layer{{Kind: "frame"}}
		}
		st := ustack.NewUStack().SetName("S").SetOption("MTU", 128).AppendDataProcessor(ustack.NewBytesCodec())
		for _, l := range append(append([]Layer{}, all...), below...) {
			st.AppendDataProcessor(newLayer(l))
		}
		var eps []ustack.EndPoint
		for i := 0; i < c.Senders; i++ {
			ep := newEP("E", i).SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
			eps = append(eps, ep)
			st.AddEndPoint(ep)
		}
		tp := newMemTransport("T")
		st.AddTransport(tp).Run()
		var conns []*memConn
		asked := make([][]uint64, c.Conns)
		for i := 0; i < c.Conns; i++ {
			k := newMemConn(fmt.Sprint("c", i))
			conns = append(conns, k)
			tp.offer(k)
		}
		synctest.Wait()
		var wg sync.WaitGroup
		for i, ep := range eps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < c.Out; n++ {
					ep.GetTxChannel() <- epd(conns[(n+i)%len(conns)], pattern(n, 5))
				}
			}()
		}
		for i, k := range conns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < c.In; n++ {
					k.feed(wrap(append(append([]Layer{}, all...), below...), pattern(n, 5), uint32((n+i)%len(eps))))
					if c.Ask > 0 && n%c.Ask == 0 {
						k.feed(wrap(below, []byte{0x10}, 0))
						asked[i] = append(asked[i], uint64(n+1))
					}
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		total := 0
		for i, k := range conns {
			var tx, rx uint64
			for _, w := range k.take() {
				if c.Frame {
					w = w[4:]
				}
				if w[0] != 0x23 {
					total++
					continue
				}
				e.Check(len(w) == 18 && w[17] == 'S', "connection %d: response %x", i, w)
				e.Check(len(asked[i]) > 0, "connection %d: more responses than requests", i)
				t, r := binary.BigEndian.Uint64(w[1:]), binary.BigEndian.Uint64(w[9:])
				e.Check(t >= tx && t <= uint64(c.Senders*c.Out) && r >= rx && r >= asked[i][0] && r <= uint64(c.Conns*c.In),
					"connection %d: asked after %d messages it says %d sent and %d received (before: %d and %d), in all there are %d and %d", i, asked[i][0], t, r, tx, rx, c.Senders*c.Out, c.Conns*c.In)
				tx, rx, asked[i] = t, r, asked[i][1:]
				e.Class("asked-meanwhile")
			}
			e.Check(len(asked[i]) == 0, "connection %d: %d requests were not answered", i, len(asked[i]))
		}
		e.Check(total == c.Senders*c.Out, "%d messages sent, %d on the wire", c.Senders*c.Out, total)
		conns[0].feed(wrap(below, []byte{0x10}, 0))
		synctest.Wait()
		got := conns[0].take()
		e.Check(len(got) == 1, "%d writes, expected one response", len(got))
		p := []byte{0x23}
		p = binary.BigEndian.AppendUint64(p, uint64(c.Senders*c.Out))
		p = binary.BigEndian.AppendUint64(p, uint64(c.Conns*c.In))
		want := wrap(below, append(p, 'S'), 0)
		e.Check(bytes.Equal(got[0], want), "response %x, expected %x: %d messages sent (%d seen on the wire) and %d received", got[0], want, c.Senders*c.Out, total, c.Conns*c.In)
		if (c.Senders > 1 && c.Out > 50) || (c.Conns > 1 && c.In > 50) {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C16",
		Rule: "a case is a stack with a statistics counter between random layers, and messages in both directions on up to three connections with requests for the counters in between, whose responses are compared byte by byte with a model (history), or up to six endpoints and connections at the same time (parallel); non-trivial: more than three messages and one request (history), more than 50 messages of at least two parties each (parallel); parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("history", 2500, genStatCase, runStatCase),
			part("long", 40, func(t *rapid.T) StatCase {
				c := genStatCase(t)
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runStatCase),
			part("parallel", 150, genStatParCase, runStatParCase),
			part("many", 3, genStatManyCase, runStatParCase),
		},
	})
}
