package verif

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"reflect"
	"strings"

	"pgregory.net/rapid"
	"ustack"
)

// Rec is what the JSON and GOB codecs carry
type Rec struct {
	ID    int64
	Name  string
	Blob  []byte
	Tags  []string
	Attrs map[string]int32
	Ratio float64
	Flag  bool
	Sub   *SubRec
}

type SubRec struct {
	X, Y int16
	Note string
}

// Msg is a generated message of any codec
type Msg struct {
	N   int    `json:"n"`             // size of the payload
	ID  int    `json:"id"`            // makes it unique
	Rec *Rec   `json:"rec,omitempty"` // for json and gob
	Ptr bool   `json:"ptr,omitempty"`
	Bad string `json:"bad,omitempty"` // nil, wrong type, encoder refuses
	// routing, for cases that use it
	From int `json:"from,omitempty"`
	// it is sent to no connection at all
	Nowhere bool `json:"nowhere,omitempty"`
	// it is sent that many times more, the same EndPointData or one that is equal
	Again int  `json:"again,omitempty"`
	Copy  bool `json:"copy,omitempty"`
}

const genericMagic = 0x7E

// genericEncode: magic, crc, payload reversed; in several small writes
func genericEncode(message interface{}, w io.Writer) error {
	b, ok := message.([]byte)
	if !ok {
		return errors.New("not for this codec")
	}
	if len(b) > 0 && b[0] == 0xEE {
		return errors.New("refused")
	}
	if _, err := w.Write([]byte{genericMagic}); err != nil {
		return err
	}
	if _, err := w.Write(be32(crc32.ChecksumIEEE(b))); err != nil {
		return err
	}
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	for len(r) > 0 {
		k := min(len(r), 37)
		if _, err := w.Write(r[:k]); err != nil {
			return err
		}
		r = r[k:]
	}
	return nil
}

func genericDecode(r io.Reader) (interface{}, error) {
	head := make([]byte, 5)
	if _, err := io.ReadFull(r, head); err != nil {
		return nil, err
	}
	if head[0] != genericMagic {
		return nil, errors.New("bad magic")
	}
	body, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	b := make([]byte, len(body))
	for i := range body {
		b[len(body)-1-i] = body[i]
	}
	if !bytes.Equal(head[1:], be32(crc32.ChecksumIEEE(b))) {
		return nil, errors.New("bad sum")
	}
	return b, nil
}

var codecNames = []string{"bytes", "string", "json", "gob", "generic"}

func newCodec(name string) ustack.DataProcessor {
	switch name {
	case "bytes":
		return ustack.NewBytesCodec()
	case "string":
		return ustack.NewStringCodec()
	case "json":
		return ustack.NewJSONCodec(reflect.TypeOf(Rec{}))
	case "gob":
		return ustack.NewGOBCodec(reflect.TypeOf(Rec{}))
	case "generic":
		return ustack.NewGenericCodec(nil, genericEncode, genericDecode)
	}
	panic(name)
}

// value is what the application sends
func (m Msg) value(codec string) interface{} {
	switch m.Bad {
	case "nil":
		return nil
	case "type":
		switch codec {
		case "bytes", "generic":
			return "a string"
		case "string":
			return []byte("bytes")
		default:
			return func() {} // neither JSON nor GOB can carry it
		}
	case "refuse":
		if codec == "generic" {
			return append([]byte{0xEE}, pattern(m.ID, m.N)...)
		}
	}
	switch codec {
	case "bytes", "generic":
		b := pattern(m.ID, m.N)
		if len(b) > 0 && b[0] == 0xEE {
			b[0] = 0
		}
		return b
	case "string":
		return string(pattern(m.ID, m.N))
	}
	r := m.rec()
	if m.Ptr {
		return &r
	}
	return r
}

func (m Msg) rec() Rec {
	var r Rec
	if m.Rec != nil {
		r = *m.Rec
	}
	if r.ID == 0 {
		r.ID = int64(m.ID)
	}
	if m.N > 0 {
		r.Name += strings.Repeat("x", m.N)
	}
	return r
}

// encoded is the reference encoding, nil if the message cannot be sent
func (m Msg) encoded(codec string) []byte {
	if m.Bad == "nil" || m.Bad == "type" || (m.Bad == "refuse" && codec == "generic") {
		return nil
	}
	switch codec {
	case "bytes":
		return m.value(codec).([]byte)
	case "string":
		return []byte(m.value(codec).(string))
	case "json":
		b, err := json.Marshal(m.value(codec))
		if err != nil {
			panic(err)
		}
		return b
	case "gob":
		var w bytes.Buffer
		if err := gob.NewEncoder(&w).Encode(m.value(codec)); err != nil {
			panic(err)
		}
		return w.Bytes()
	case "generic":
		var w bytes.Buffer
		if err := genericEncode(m.value(codec), &w); err != nil {
			panic(err)
		}
		return w.Bytes()
	}
	panic(codec)
}

func normRec(r Rec) Rec {
	if len(r.Blob) == 0 {
		r.Blob = nil
	}
	if len(r.Tags) == 0 {
		r.Tags = nil
	}
	if len(r.Attrs) == 0 {
		r.Attrs = nil
	}
	return r
}

// same compares what was received with what was sent
func (m Msg) same(codec string, got interface{}) error {
	switch codec {
	case "bytes", "generic":
		b, ok := got.([]byte)
		if !ok {
			return fmt.Errorf("received a %T", got)
		}
		if want := m.value(codec).([]byte); !bytes.Equal(b, want) {
			return fmt.Errorf("received %s, sent %s", short(b), short(want))
		}
	case "string":
		s, ok := got.(string)
		if !ok {
			return fmt.Errorf("received a %T", got)
		}
		if want := m.value(codec).(string); s != want {
			return fmt.Errorf("received %s, sent %s", short([]byte(s)), short([]byte(want)))
		}
	default:
		p, ok := got.(*Rec)
		if !ok || p == nil {
			return fmt.Errorf("received a %T", got)
		}
		if want := m.rec(); !reflect.DeepEqual(normRec(*p), normRec(want)) {
			a, _ := json.Marshal(*p)
			b, _ := json.Marshal(want)
			return fmt.Errorf("received %s, sent %s", a, b)
		}
	}
	return nil
}

// clobber changes a received message in place
func clobber(got interface{}) {
	switch v := got.(type) {
	case []byte:
		for i := range v {
			v[i] ^= 0x55
		}
	case *Rec:
		v.ID = -1
		v.Name = "clobbered"
		for i := range v.Blob {
			v.Blob[i] ^= 0x55
		}
		for k := range v.Attrs {
			v.Attrs[k]++
		}
	}
}

func genRec(t *rapid.T, small bool) *Rec {
	r := &Rec{ID: rapid.Int64().Draw(t, "id"), Flag: drawBool(t, "flag")}
	if small {
		return r
	}
	r.Name = rapid.StringN(0, 12, 40).Draw(t, "name")
	r.Name = strings.ToValidUTF8(r.Name, "?")
	r.Ratio = rapid.Float64().Draw(t, "ratio")
	if r.Ratio != r.Ratio || r.Ratio > 1e308 || r.Ratio < -1e308 {
		r.Ratio = 0.5
	}
	if r.Ratio == 0 {
		r.Ratio = 0 // no negative zero
	}
	if drawBool(t, "blob") {
		r.Blob = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
	}
	for i := drawInt(t, 0, 3, "ntags"); i > 0; i-- {
		r.Tags = append(r.Tags, strings.ToValidUTF8(rapid.StringN(0, 5, 12).Draw(t, "tag"), "?"))
	}
	if n := drawInt(t, 0, 3, "nattrs"); n > 0 {
		r.Attrs = map[string]int32{}
		for i := 0; i < n; i++ {
			r.Attrs[fmt.Sprintf("k%d", i)] = rapid.Int32().Draw(t, "attr")
		}
	}
	if drawBool(t, "sub") {
		r.Sub = &SubRec{X: rapid.Int16().Draw(t, "x"), Y: int16(drawInt(t, 1, 9, "y")), Note: "n"}
	}
	return r
}

// genMsg draws a message whose encoding is around the room there is
func genMsg(t *rapid.T, codec string, room, id int) Msg {
	m := Msg{ID: id}
	if drawPct(t, 8, "bad") {
		m.Bad = drawOf(t, "kind", "type", "nil", "refuse")
	}
	var base int // what the encoding of an empty payload takes
	switch codec {
	case "json", "gob":
		m.Ptr = drawBool(t, "ptr")
		m.Rec = genRec(t, drawPct(t, 30, "small"))
		base = len(Msg{ID: id, Rec: m.Rec, Ptr: m.Ptr}.encoded(codec))
	case "generic":
		base = 5
	}
	switch drawUni(t, 0, 5, "size") {
	case 0:
		m.N = drawInt(t, 0, 3, "n")
	case 1, 2, 3: // around the limit
		m.N = room - base + drawUni(t, -3, 3, "d")
	case 4:
		m.N = drawUni(t, 0, room+20, "n")
	default:
		m.N = drawUni(t, 0, max(1, room-base), "n")
	}
	m.N = max(0, min(m.N, room+600))
	return m
}

// fits tells whether the message goes through
func (m Msg) fits(codec string, room int) bool {
	b := m.encoded(codec)
	return len(b) > 0 && len(b) <= room
}
