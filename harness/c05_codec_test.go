package verif

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C05: what is received is what was sent

type CodecCase struct {
	Rep    int     `json:"rep,omitempty"` // the steps are done that many times
	Codec  string  `json:"codec"`
	MTU    int     `json:"mtu"`
	Layers []Layer `json:"layers"`
	Msgs   []Msg   `json:"msgs"`
	Batch  bool    `json:"batch,omitempty"` // all messages are sent before the first is looked at
}

var symmetricKinds = []string{"frame", "session", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "probe"}

func genLayers(t *rapid.T, kinds []string, maxN int) []Layer {
	n := drawUni(t, 0, maxN, "nlayers")
	var ls []Layer
	for i := 0; i < n; i++ {
		l := Layer{Kind: drawOf(t, "kind", kinds...), Off: drawPct(t, 25, "off")}
		switch l.Kind {
		case "lb", "discarder", "echo":
			l.Off = true
		case "probe":
			l.Off = false
		}
		ls = append(ls, l)
	}
	return ls
}

func genCodecCase(t *rapid.T) CodecCase {
	c := CodecCase{Codec: drawOf(t, "codec", codecNames...)}
	c.Layers = genLayers(t, symmetricKinds, 4)
	if drawPct(t, 50, "framed") {
		c.Layers = append(c.Layers, Layer{Kind: "frame"})
		c.Batch = drawPct(t, 50, "batch")
	}
	oh := overheadOf(c.Layers)
	switch drawUni(t, 0, 3, "mtuclass") {
	case 0:
		c.MTU = max(1, oh+drawUni(t, 0, 40, "room"))
	case 1:
		c.MTU = 2048
	default:
		c.MTU = oh + drawUni(t, 40, 700, "room")
	}
	if drawPct(t, 3, "huge") {
		c.MTU = oh + drawUni(t, 65530, 80000, "hugeroom")
	}
	n := drawUni(t, 1, 7, "nmsgs")
	for i := 0; i < n; i++ {
		m := genMsg(t, c.Codec, c.MTU-oh, i+1)
		m.Nowhere = drawPct(t, 3, "nowhere")
		m.Again = max(0, drawUni(t, -6, 2, "again"))
		m.Copy = m.Again > 0 && drawBool(t, "copy")
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

// link makes two stacks with the same layers, connected to each other
type linked struct {
	a, b   *rig
	ca, cb *memConn
}

func newLinked(codec string, mtu int, layers []Layer) *linked {
	l := &linked{}
	l.a = newRig("a", mtu, append([]ustack.DataProcessor{newCodec(codec)}, layersOf(layers)...)...)
	l.b = newRig("b", mtu, append([]ustack.DataProcessor{newCodec(codec)}, layersOf(layers)...)...)
	l.ca, l.cb = newMemConn("ca"), newMemConn("cb")
	pipe(l.ca, l.cb)
	return l
}

func (l *linked) run() {
	l.a.st.Run()
	l.b.st.Run()
	l.a.tp.offer(l.ca)
	l.b.tp.offer(l.cb)
	synctest.Wait()
}

func runCodecCase(e *Env, c CodecCase) {
	e.Bubble(func() {
		l := newLinked(c.Codec, c.MTU, c.Layers)
		epa, epb := newEP("a", 0), newEP("b", 0)
		l.a.st.AddEndPoint(epa)
		l.b.st.AddEndPoint(epb)
		l.run()
		room := c.MTU - overheadOf(c.Layers)

		var want []Msg
		var got []interface{}
		collect := func() {
			for _, d := range drain(epb.GetRxChannel()) {
				e.Check(d.GetConnection() == ustack.TransportConnection(l.cb), "the data has the wrong connection")
				got = append(got, d.GetData())
			}
		}
		big := false
		for i, m := range repeated(c.Msgs, c.Rep) {
			v := m.value(c.Codec)
			fits := m.fits(c.Codec, room) && !m.Nowhere
			if fits {
				want = append(want, m)
			}
			big = big || (!fits && m.Bad == "")
			data := ustack.NewEndPointData().SetData(v)
			if m.Nowhere {
				e.Class("to-nowhere")
			} else {
				data.SetConnection(l.ca)
			}
			for k := 0; k <= m.Again; k++ {
				if k > 0 {
					if fits {
						want = append(want, m)
					}
					if m.Copy {
						data = ustack.NewEndPointData().SetData(m.value(c.Codec)).SetConnection(data.GetConnection())
						e.Class("equal-again")
					} else {
						e.Class("same-data-again")
					}
				}
				before := l.ca.bytesWritten()
				epa.GetTxChannel() <- data
				if c.Batch {
					continue
				}
				synctest.Wait()
				n := l.ca.bytesWritten() - before
				e.Check(fits == (n > 0), "message %d (encoded %d bytes, room %d): %d bytes were transmitted", i, len(m.encoded(c.Codec)), room, n)
				collect()
				e.Check(len(got) == len(want), "after message %d (encoded %d bytes, room %d): %d messages received, %d expected", i, len(m.encoded(c.Codec)), room, len(got), len(want))
				if fits {
					err := m.same(c.Codec, got[len(got)-1])
					e.Check(err == nil, "message %d: %v", i, err)
				}
			}
			if !c.Batch {
				// the sender may use its memory again
				if b, ok := v.([]byte); ok {
					clobber(b)
				}
			}
		}
		synctest.Wait()
		collect()
		e.Check(len(got) == len(want), "%d messages received, %d expected", len(got), len(want))
		for i, m := range want {
			err := m.same(c.Codec, got[i])
			e.Check(err == nil, "message %d at the end: %v", i, err)
			// the receiver may change what it got, the others stay
			clobber(got[i])
		}
		e.Class(c.Codec)
		e.ClassIf(c.MTU > 65535, "over-64k")
		for _, m := range c.Msgs {
			e.ClassIf(len(m.encoded(c.Codec)) == room, "exactly-fits")
			e.ClassIf(len(m.encoded(c.Codec)) == room+1, "one-too-long")
			e.ClassIf(m.Bad != "", "unsendable")
		}
		if len(want) > 0 && len(c.Msgs) > 1 {
			e.NonTrivial()
		}
		_ = big
	})
}

type CodecPar struct {
	Codec   string `json:"codec"`
	Senders int    `json:"senders"`
	Each    int    `json:"each"`
	Seed    int    `json:"seed"`
}

func runCodecPar(e *Env, c CodecPar) {
	e.Bubble(func() {
		l := newLinked(c.Codec, 1024, []Layer{{Kind: "session"}, {Kind: "frame"}})
		var txs, rxs []ustack.EndPoint
		for i := 0; i < c.Senders; i++ {
			txs = append(txs, newEP("a", i))
			rxs = append(rxs, newEP("b", i))
			l.a.st.AddEndPoint(txs[i])
			l.b.st.AddEndPoint(rxs[i])
		}
		l.run()
		msg := func(i, j int) Msg {
			id := c.Seed + i*1000 + j
			return Msg{ID: id, N: 1 + (id*7919)%300, Rec: &Rec{Tags: []string{"t"}, Ratio: 1.5}}
		}
		var wg sync.WaitGroup
		for i := 0; i < c.Senders; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < c.Each; j++ {
					txs[i].GetTxChannel() <- epd(l.ca, msg(i, j).value(c.Codec))
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		for i := range rxs {
			got := drain(rxs[i].GetRxChannel())
			e.Check(len(got) == c.Each, "session %d: %d messages received, %d sent", i, len(got), c.Each)
			for j, d := range got {
				err := msg(i, j).same(c.Codec, d.GetData())
				e.Check(err == nil, "session %d message %d: %v", i, j, err)
			}
		}
		e.NonTrivial()
	})
}

func genCodecPar(t *rapid.T) CodecPar {
	return CodecPar{
		Codec:   drawOf(t, "codec", codecNames...),
		Senders: drawUni(t, 2, 6, "senders"),
		Each:    drawUni(t, 1, 40, "each"),
		Seed:    drawInt(t, 0, 1<<20, "seed"),
	}
}

// ---- other types than a struct

type TypesCase struct {
	Codec string    `json:"codec"`
	Type  string    `json:"type"`
	Frame bool      `json:"frame"`
	Vals  []TypeVal `json:"vals"`
}

// TypeVal is the raw material of a value of any of the types
type TypeVal struct {
	I int64    `json:"i"`
	F float64  `json:"f"`
	S []string `json:"s"`
	N []int    `json:"n"`
}

var typeNames = []string{"string", "int", "float", "bool", "strings", "ints", "map", "mapofmap", "array", "bytes", "nested", "time", "any"}

type nestedRec struct {
	A map[string][]SubRec
	B *nestedRec
	C [2]bool
}

func (v TypeVal) of(typ string) interface{} {
	at := func(i int) string {
		if len(v.S) == 0 {
			return ""
		}
		return v.S[i%len(v.S)]
	}
	switch typ {
	case "string":
		return at(0)
	case "int":
		return int(v.I)
	case "float":
		return v.F
	case "bool":
		return v.I%2 == 0
	case "strings":
		return append([]string{}, v.S...)
	case "ints":
		return append([]int{}, v.N...)
	case "map":
		m := map[string]int{}
		for i, n := range v.N {
			m[fmt.Sprint(at(i), i)] = n
		}
		return m
	case "mapofmap":
		m := map[string]map[string]string{}
		for i, n := range v.N {
			m[fmt.Sprint(i)] = map[string]string{at(i): fmt.Sprint(n)}
		}
		return m
	case "array":
		var a [3]int16
		for i := range a {
			if i < len(v.N) {
				a[i] = int16(v.N[i])
			}
		}
		return a
	case "bytes":
		return []byte(at(0) + at(1))
	case "nested":
		r := nestedRec{A: map[string][]SubRec{}, C: [2]bool{v.I%2 == 0, v.I%3 == 0}}
		for i, n := range v.N {
			r.A[at(i)] = append(r.A[at(i)], SubRec{X: int16(n), Note: at(i + 1)})
		}
		if v.I%5 == 0 {
			x := nestedRec{C: [2]bool{true, false}}
			r.B = &x
		}
		return r
	case "any":
		m := map[string]interface{}{"f": v.F, "b": v.I%2 == 0, "s": at(0)}
		for i, n := range v.N {
			m[fmt.Sprint("n", i)] = n
		}
		return m
	case "time":
		return time.Unix(v.I%4000000000, 0).UTC()
	}
	panic(typ)
}

func genTypesCase(t *rapid.T) TypesCase {
	c := TypesCase{Codec: drawOf(t, "codec", "json", "gob"), Type: drawOf(t, "type", typeNames...), Frame: drawBool(t, "frame")}
	for n := drawUni(t, 2, 5, "nvals"); n > 0; n-- {
		v := TypeVal{I: rapid.Int64().Draw(t, "i"), F: float64(rapid.Int32().Draw(t, "f")) / 8}
		for k := drawUni(t, 0, 4, "ns"); k > 0; k-- {
			v.S = append(v.S, strings.ToValidUTF8(rapid.StringN(0, 6, 20).Draw(t, "s"), "?"))
		}
		for k := drawUni(t, 0, 5, "nn"); k > 0; k-- {
			v.N = append(v.N, drawInt(t, -100000, 100000, "n"))
		}
		c.Vals = append(c.Vals, v)
	}
	return c
}

func runTypesCase(e *Env, c TypesCase) {
	e.Bubble(func() {
		typ := reflect.TypeOf(c.Vals[0].of(c.Type))
		mk := func() ustack.DataProcessor {
			if c.Codec == "json" {
				return ustack.NewJSONCodec(typ)
			}
			return ustack.NewGOBCodec(typ)
		}
		procs := func() []ustack.DataProcessor {
			ps := []ustack.DataProcessor{mk()}
			if c.Frame {
				ps = append(ps, ustack.NewFrameDecoder())
			}
			return ps
		}
		l := &linked{a: newRig("a", 4096, procs()...), b: newRig("b", 4096, procs()...)}
		l.ca, l.cb = newMemConn("ca"), newMemConn("cb")
		pipe(l.ca, l.cb)
		epa, epb := newEP("a", 0), newEP("b", 0)
		l.a.st.AddEndPoint(epa)
		l.b.st.AddEndPoint(epb)
		l.run()
		var got []interface{}
		for i, v := range c.Vals {
			epa.GetTxChannel() <- epd(l.ca, v.of(c.Type))
			synctest.Wait()
			d := drain(epb.GetRxChannel())
			e.Check(len(d) == 1, "value %d (%s): %d received", i, c.Type, len(d))
			got = append(got, d[0].GetData())
		}
		for i, v := range c.Vals {
			// what the encoding itself makes of the value
			want := reflect.New(typ)
			var err error
			if c.Codec == "json" {
				var b []byte
				if b, err = json.Marshal(v.of(c.Type)); err == nil {
					err = json.Unmarshal(b, want.Interface())
				}
			} else {
				var w bytes.Buffer
				if err = gob.NewEncoder(&w).Encode(v.of(c.Type)); err == nil {
					err = gob.NewDecoder(&w).Decode(want.Interface())
				}
			}
			e.Check(err == nil, "harness: %v", err)
			e.Check(reflect.DeepEqual(got[i], want.Interface()), "value %d (%s): received %T %v, sent %v", i, c.Type, got[i], reflect.Indirect(reflect.ValueOf(got[i])), v.of(c.Type))
		}
		e.Class(c.Type)
		e.NonTrivial()
	})
}

// genHugeCase: a few messages that are longer than 24 bits can say
func genHugeCase(t *rapid.T) CodecCase {
	c := CodecCase{Codec: drawOf(t, "codec", "bytes", "string", "generic")}
	c.Layers = append(genLayers(t, []string{"session", "stat", "flow", "probe"}, 2), Layer{Kind: "frame"})
	room := 1<<24 + drawUni(t, 1, 1<<20, "room")
	c.MTU = overheadOf(c.Layers) + room
	head := 0
	if c.Codec == "generic" {
		head = 5
	}
	c.Msgs = []Msg{{ID: 1, N: 1<<24 - head - drawUni(t, 0, 1, "low")}, {ID: 2, N: drawUni(t, 1<<24, room, "n") - head}, {ID: 3, N: 3}}
	return c
}

// ---- the generic codec does what the functions of the application say

type GenericMsg struct {
	N   int    `json:"n"`
	Enc string `json:"enc,omitempty"` // early, late: fails before or after it wrote something; none: writes nothing
	Dec string `json:"dec,omitempty"` // fail; part: it reads only a part of the message; over: it asks for more than there is
}

type GenericCase struct {
	Init   []bool       `json:"init"`  // for each stack
	NoEnc  bool         `json:"noenc"` // stack a has no encoder
	NoDec  bool         `json:"nodec"` // stack b has no decoder
	Layers []Layer      `json:"layers"`
	Msgs   []GenericMsg `json:"msgs"`
}

func genGenericCase(t *rapid.T) GenericCase {
	c := GenericCase{Init: []bool{drawPct(t, 70, "init"), drawPct(t, 70, "init")}, NoEnc: drawPct(t, 8, "noenc"), NoDec: drawPct(t, 8, "nodec")}
	c.Layers = genLayers(t, symmetricKinds, 2)
	for n := drawUni(t, 2, 6, "nmsgs"); n > 0; n-- {
		m := GenericMsg{N: drawUni(t, 1, 60, "n")}
		if drawPct(t, 30, "enc") {
			m.Enc = drawOf(t, "encfail", "early", "late", "none")
		}
		if drawPct(t, 30, "dec") {
			m.Dec = drawOf(t, "decfail", "fail", "part", "over")
		}
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

func runGenericCase(e *Env, c GenericCase) {
	e.Bubble(func() {
		type sent struct {
			i int
			m GenericMsg
		}
		calls := make([]int, 2)
		early := ""
		codec := func(side int) ustack.DataProcessor {
			var init func()
			if c.Init[side] {
				init = func() { calls[side]++ }
			}
			ready := func(what string) {
				if c.Init[side] && calls[side] == 0 {
					early = what
				}
			}
			enc := func(message interface{}, w io.Writer) error {
				ready("encode")
				x := message.(sent)
				if x.m.Enc == "early" {
					return errors.New("refused")
				}
				if x.m.Enc == "none" {
					return nil
				}
				kind := strings.Index("-fpo", (x.m.Dec + "-")[:1])
				if _, err := w.Write([]byte{byte(kind)}); err != nil {
					return err
				}
				if x.m.Enc == "late" {
					return errors.New("refused")
				}
				_, err := w.Write(pattern(x.i, x.m.N))
				return err
			}
			dec := func(r io.Reader) (interface{}, error) {
				ready("decode")
				head := make([]byte, 1)
				if _, err := io.ReadFull(r, head); err != nil {
					return nil, err
				}
				switch head[0] {
				case 1:
					return []byte("half decoded"), errors.New("refused")
				case 2:
					_, err := io.ReadFull(r, head)
					return head, err
				case 3:
					// more than there is
					b := make([]byte, 5000)
					n, err := io.ReadFull(r, b)
					if err != io.ErrUnexpectedEOF {
						return nil, fmt.Errorf("%d bytes and %v", n, err)
					}
					return b[:n], nil
				}
				return io.ReadAll(r)
			}
			if side == 0 && c.NoEnc {
				return ustack.NewGenericCodec(init, nil, dec)
			}
			if side == 1 && c.NoDec {
				return ustack.NewGenericCodec(init, enc, nil)
			}
			return ustack.NewGenericCodec(init, enc, dec)
		}
		l := &linked{
			a: newRig("a", 2048, append([]ustack.DataProcessor{codec(0)}, layersOf(c.Layers)...)...),
			b: newRig("b", 2048, append([]ustack.DataProcessor{codec(1)}, layersOf(c.Layers)...)...),
		}
		l.ca, l.cb = newMemConn("ca"), newMemConn("cb")
		pipe(l.ca, l.cb)
		epa, epb := newEP("a", 0), newEP("b", 0)
		l.a.st.AddEndPoint(epa)
		l.b.st.AddEndPoint(epb)
		l.run()
		arrive := 0
		for i, m := range c.Msgs {
			before := l.ca.bytesWritten()
			epa.GetTxChannel() <- epd(l.ca, sent{i, m})
			synctest.Wait()
			goes := !c.NoEnc && m.Enc == ""
			n := l.ca.bytesWritten() - before
			// of an empty encoding, the headers of the layers may be sent
			e.Check(goes == (n > 0) || m.Enc == "none" && !c.NoEnc, "message %d: %d bytes were transmitted", i, n)
			var want [][]byte
			if goes && !c.NoDec && m.Dec != "fail" {
				want = append(want, pattern(i, m.N))
				if m.Dec == "part" {
					want[0] = want[0][:1]
				}
				arrive++
			}
			got := drain(epb.GetRxChannel())
			e.Check(len(got) == len(want), "message %d: %d messages received, %d expected", i, len(got), len(want))
			for j := range got {
				b, _ := got[j].GetData().([]byte)
				e.Check(bytes.Equal(b, want[j]), "message %d: received %s, expected %s", i, short(b), short(want[j]))
			}
			e.ClassIf(m.Enc != "", "encoder-"+m.Enc)
			e.ClassIf(m.Dec != "", "decoder-"+m.Dec)
		}
		e.Check(early == "", "%s before the init function was called", early)
		for i := range calls {
			want := 0
			if c.Init[i] {
				want = 1
			}
			e.Check(calls[i] == want, "the init function of stack %d was called %d times", i, calls[i])
		}
		if arrive > 0 || c.NoEnc || c.NoDec {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C05",
		Rule: "a case is a codec (bytes, string, json, gob, generic), a generated list of layers, an MTU and up to 7 messages whose encoded size is mostly within 3 bytes of the room left by MTU and overhead, some unsendable, sent from one stack to another; the received messages are compared with an independent encoder's verdict; or values of other types (scalars, slices, maps, arrays, nested structs, times) through the JSON and GOB codecs, compared with what the encoding itself makes of them; or messages for a generic codec whose functions fail, write nothing, read a part or ask for too much, or are missing; or three messages of which one is longer than 16 MB; or several endpoints send at once; non-trivial: at least two messages were sent and at least one had to arrive; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("fidelity", 1500, genCodecCase, runCodecCase),
			part("parallel", 250, genCodecPar, runCodecPar),
			part("huge", 2, genHugeCase, runCodecCase),
			part("long", 20, func(t *rapid.T) CodecCase {
				c := genCodecCase(t)
				c.Rep, c.Batch = drawRep(t, len(c.Msgs)), false
				return c
			}, runCodecCase),
			part("generic", 200, genGenericCase, runGenericCase),
			part("types", 250, genTypesCase, runTypesCase),
		},
	})
}
