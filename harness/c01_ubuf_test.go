package verif

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C01: UBuf is a bounded double-ended byte queue over a fixed array

type UbOp struct {
	Op  string `json:"op"`
	V   uint64 `json:"v,omitempty"`
	N   int    `json:"n,omitempty"`   // length of slice argument
	M   int    `json:"m,omitempty"`   // scripted reader/writer: bytes it takes
	Err bool   `json:"err,omitempty"` // scripted reader/writer: fails
	H   int    `json:"h,omitempty"`   // handle (C02)
}

type UbCase struct {
	Cap      int    `json:"cap"`
	Reserved int    `json:"res"`
	From     bool   `json:"from,omitempty"` // over a slice of the caller
	FromLen  int    `json:"fromlen,omitempty"`
	Ops      []UbOp `json:"ops"`
}

// ubModel is the reference: an array and two indices
type ubModel struct {
	mem  []byte
	res  int
	r, w int
}

func (m *ubModel) readable() int { return m.w - m.r }
func (m *ubModel) tail() int     { return len(m.mem) - m.w }
func (m *ubModel) data() []byte  { return m.mem[m.r:m.w] }

type scriptReader struct {
	calls int
	n     int
	err   error
	fill  []byte
	seen  int
}

func (s *scriptReader) Read(p []byte) (int, error) {
	s.calls++
	s.seen = len(p)
	if s.calls > 1 {
		return 0, errors.New("read again")
	}
	n := s.n
	if n > len(p) {
		n = len(p)
	}
	s.fill = pattern(s.n*31+7, n)
	copy(p, s.fill)
	return n, s.err
}

type scriptWriter struct {
	budget int // < 0: no limit
	got    []byte
	err    error
}

func (s *scriptWriter) Write(p []byte) (int, error) {
	n := len(p)
	if s.budget >= 0 && n > s.budget {
		n = s.budget
	}
	if s.budget >= 0 {
		s.budget -= n
	}
	s.got = append(s.got, p[:n]...)
	if n < len(p) {
		return n, s.err
	}
	return n, nil
}

var ubScalar = map[string]struct {
	size   int
	little bool
}{
	"U16": {2, false}, "U32": {4, false}, "U64": {8, false},
	"U16BE": {2, false}, "U32BE": {4, false}, "U64BE": {8, false},
	"U16LE": {2, true}, "U32LE": {4, true}, "U64LE": {8, true},
}

var ubScalarNames = []string{"U16", "U32", "U64", "U16BE", "U32BE", "U64BE", "U16LE", "U32LE", "U64LE"}

func encodeScalar(name string, v uint64) []byte {
	s := ubScalar[name]
	b := make([]byte, 8)
	if s.little {
		binary.LittleEndian.PutUint64(b, v)
		return b[:s.size]
	}
	binary.BigEndian.PutUint64(b, v)
	return b[8-s.size:]
}

func decodeScalar(name string, p []byte) uint64 {
	s := ubScalar[name]
	b := make([]byte, 8)
	if s.little {
		copy(b, p[:s.size])
		return binary.LittleEndian.Uint64(b)
	}
	copy(b[8-s.size:], p[:s.size])
	return binary.BigEndian.Uint64(b)
}

func writeScalar(ub *ustack.UBuf, name string, v uint64) error {
	switch name {
	case "U16":
		return ub.WriteU16(uint16(v))
	case "U32":
		return ub.WriteU32(uint32(v))
	case "U64":
		return ub.WriteU64(v)
	case "U16BE":
		return ub.WriteU16BE(uint16(v))
	case "U32BE":
		return ub.WriteU32BE(uint32(v))
	case "U64BE":
		return ub.WriteU64BE(v)
	case "U16LE":
		return ub.WriteU16LE(uint16(v))
	case "U32LE":
		return ub.WriteU32LE(uint32(v))
	case "U64LE":
		return ub.WriteU64LE(v)
	}
	panic(name)
}

func writeHeadScalar(ub *ustack.UBuf, name string, v uint64) error {
	switch name {
	case "U16":
		return ub.WriteHeadU16(uint16(v))
	case "U32":
		return ub.WriteHeadU32(uint32(v))
	case "U64":
		return ub.WriteHeadU64(v)
	case "U16BE":
		return ub.WriteHeadU16BE(uint16(v))
	case "U32BE":
		return ub.WriteHeadU32BE(uint32(v))
	case "U64BE":
		return ub.WriteHeadU64BE(v)
	case "U16LE":
		return ub.WriteHeadU16LE(uint16(v))
	case "U32LE":
		return ub.WriteHeadU32LE(uint32(v))
	case "U64LE":
		return ub.WriteHeadU64LE(v)
	}
	panic(name)
}

func w16(v uint16, e error) (uint64, error) { return uint64(v), e }
func w32(v uint32, e error) (uint64, error) { return uint64(v), e }

func readScalar(ub *ustack.UBuf, name string) (uint64, error) {
	switch name {
	case "U16":
		return w16(ub.ReadU16())
	case "U32":
		return w32(ub.ReadU32())
	case "U64":
		return ub.ReadU64()
	case "U16BE":
		return w16(ub.ReadU16BE())
	case "U32BE":
		return w32(ub.ReadU32BE())
	case "U64BE":
		return ub.ReadU64BE()
	case "U16LE":
		return w16(ub.ReadU16LE())
	case "U32LE":
		return w32(ub.ReadU32LE())
	case "U64LE":
		return ub.ReadU64LE()
	}
	panic(name)
}

func peekScalar(ub *ustack.UBuf, name string) (uint64, error) {
	switch name {
	case "U16":
		return w16(ub.PeekU16())
	case "U32":
		return w32(ub.PeekU32())
	case "U64":
		return ub.PeekU64()
	case "U16BE":
		return w16(ub.PeekU16BE())
	case "U32BE":
		return w32(ub.PeekU32BE())
	case "U64BE":
		return ub.PeekU64BE()
	case "U16LE":
		return w16(ub.PeekU16LE())
	case "U32LE":
		return w32(ub.PeekU32LE())
	case "U64LE":
		return ub.PeekU64LE()
	}
	panic(name)
}

// apply runs the operation on both and compares what it returns.
// It returns whether the operation was refused or partial.
func ubApply(e *Env, ub *ustack.UBuf, m *ubModel, op UbOp) bool {
	kind, arg := op.Op, ""
	for _, pre := range []string{"wh", "w", "r", "p"} {
		if len(kind) > len(pre) && kind[:len(pre)] == pre && kind[len(pre)] == 'U' {
			kind, arg = pre, kind[len(pre):]
			break
		}
	}
	switch kind {
	case "w": // write scalar
		b := encodeScalar(arg, op.V)
		err := writeScalar(ub, arg, op.V)
		if m.tail() < len(b) {
			e.Check(err != nil, "Write%s with %d bytes of free space did not fail", arg, m.tail())
			return true
		}
		e.Check(err == nil, "Write%s with %d bytes of free space failed: %v", arg, m.tail(), err)
		copy(m.mem[m.w:], b)
		m.w += len(b)
	case "wh": // write scalar in head
		b := encodeScalar(arg, op.V)
		err := writeHeadScalar(ub, arg, op.V)
		if m.r < len(b) {
			e.Check(err != nil, "WriteHead%s with %d bytes of head space did not fail", arg, m.r)
			return true
		}
		e.Check(err == nil, "WriteHead%s with %d bytes of head space failed: %v", arg, m.r, err)
		m.r -= len(b)
		copy(m.mem[m.r:], b)
	case "r":
		v, err := readScalar(ub, arg)
		if m.readable() < ubScalar[arg].size {
			e.Check(err != nil, "Read%s with %d readable bytes did not fail", arg, m.readable())
			return true
		}
		want := decodeScalar(arg, m.data())
		e.Check(err == nil, "Read%s with %d readable bytes failed: %v", arg, m.readable(), err)
		e.Check(v == want, "Read%s = %#x, want %#x", arg, v, want)
		m.r += ubScalar[arg].size
	case "p":
		v, err := peekScalar(ub, arg)
		if m.readable() < ubScalar[arg].size {
			e.Check(err != nil, "Peek%s with %d readable bytes did not fail", arg, m.readable())
			return true
		}
		want := decodeScalar(arg, m.data())
		e.Check(err == nil, "Peek%s with %d readable bytes failed: %v", arg, m.readable(), err)
		e.Check(v == want, "Peek%s = %#x, want %#x", arg, v, want)
	case "writebyte":
		err := ub.WriteByte(byte(op.V))
		if m.tail() < 1 {
			e.Check(err != nil, "WriteByte on a full buffer did not fail")
			return true
		}
		e.Check(err == nil, "WriteByte with %d bytes of free space failed: %v", m.tail(), err)
		m.mem[m.w] = byte(op.V)
		m.w++
	case "write":
		p := pattern(int(op.V), op.N)
		keep := append([]byte(nil), p...)
		n, err := ub.Write(p)
		want := min(len(p), m.tail())
		e.Check(n == want, "Write of %d bytes with %d free returned %d", len(p), m.tail(), n)
		if want < len(p) {
			e.Check(err != nil, "Write of %d bytes with %d free reported no error", len(p), m.tail())
		} else if len(p) > 0 {
			e.Check(err == nil, "Write of %d bytes with %d free failed: %v", len(p), m.tail(), err)
		}
		e.Check(bytes.Equal(p, keep), "Write changed its argument")
		copy(m.mem[m.w:], p[:want])
		m.w += want
		// the buffer has its own copy
		for i := range p {
			p[i] ^= 0xff
		}
		return want < len(p)
	case "writehead":
		p := pattern(int(op.V), op.N)
		err := ub.WriteHeadBytes(p)
		if m.r < len(p) {
			e.Check(err != nil, "WriteHeadBytes of %d bytes with %d of head space did not fail", len(p), m.r)
			return true
		}
		if len(p) == 0 {
			return false
		}
		e.Check(err == nil, "WriteHeadBytes of %d bytes with %d of head space failed: %v", len(p), m.r, err)
		m.r -= len(p)
		copy(m.mem[m.r:], p)
		for i := range p {
			p[i] ^= 0xff
		}
	case "writeheadbyte":
		err := ub.WriteHeadByte(byte(op.V))
		if m.r < 1 {
			e.Check(err != nil, "WriteHeadByte without head space did not fail")
			return true
		}
		e.Check(err == nil, "WriteHeadByte with %d bytes of head space failed: %v", m.r, err)
		m.r--
		m.mem[m.r] = byte(op.V)
	case "readbyte":
		v, err := ub.ReadByte()
		if m.readable() < 1 {
			e.Check(err != nil, "ReadByte on an empty buffer did not fail")
			return true
		}
		e.Check(err == nil && v == m.mem[m.r], "ReadByte = %#x, %v, want %#x", v, err, m.mem[m.r])
		m.r++
	case "peekbyte":
		v, err := ub.PeekByte()
		if m.readable() < 1 {
			e.Check(err != nil, "PeekByte on an empty buffer did not fail")
			return true
		}
		e.Check(err == nil && v == m.mem[m.r], "PeekByte = %#x, %v, want %#x", v, err, m.mem[m.r])
	case "read", "peek":
		p := make([]byte, op.N+2)
		for i := range p {
			p[i] = 0xA5
		}
		var n int
		var err error
		if kind == "read" {
			n, err = ub.Read(p[:op.N:op.N])
		} else {
			n, err = ub.Peek(p[:op.N:op.N])
		}
		want := min(op.N, m.readable())
		e.Check(n == want, "%s of %d bytes with %d readable returned %d", kind, op.N, m.readable(), n)
		e.Check(bytes.Equal(p[:n], m.data()[:n]), "%s returned %x, want %x", kind, p[:n], m.data()[:n])
		for _, x := range p[n:] {
			e.Check(x == 0xA5, "%s wrote beyond the %d bytes it reported", kind, n)
		}
		if want == op.N && m.readable() > 0 {
			e.Check(err == nil, "%s of %d bytes with %d readable failed: %v", kind, op.N, m.readable(), err)
		} else if want < op.N && m.readable() > 0 {
			e.Check(err != nil, "partial %s (%d of %d bytes) reported no error", kind, n, op.N)
		}
		if kind == "read" {
			m.r += n
		}
		return want < op.N
	case "readfrom":
		s := &scriptReader{n: op.N}
		if op.Err {
			s.err = errors.New("reader failed")
		}
		n, err := ub.ReadFrom(s)
		if m.tail() == 0 {
			e.Check(n == 0 && err == nil && s.calls == 0, "ReadFrom on a full buffer: %d, %v, %d reads", n, err, s.calls)
			return true
		}
		e.Check(s.calls == 1, "ReadFrom called Read %d times", s.calls)
		e.Check(s.seen == m.tail(), "ReadFrom offered %d bytes, the free space is %d", s.seen, m.tail())
		e.Check(n == int64(len(s.fill)), "ReadFrom returned %d, the reader %d", n, len(s.fill))
		e.Check(err == s.err, "ReadFrom returned error %v, the reader %v", err, s.err)
		copy(m.mem[m.w:], s.fill)
		m.w += len(s.fill)
		return op.Err
	case "writeto":
		s := &scriptWriter{budget: -1}
		if op.Err {
			s.budget = op.M
			s.err = errors.New("writer failed")
		}
		want := m.readable()
		var werr error
		if op.Err && op.M < want {
			want, werr = op.M, s.err
		}
		n, err := ub.WriteTo(s)
		e.Check(n == int64(want), "WriteTo of %d readable bytes returned %d, the writer took %d", m.readable(), n, want)
		e.Check(err == werr, "WriteTo returned error %v, want %v", err, werr)
		e.Check(bytes.Equal(s.got, m.data()[:want]), "WriteTo wrote %x, want %x", s.got, m.data()[:want])
		m.r += want
		return werr != nil
	case "reset":
		ub.Reset()
		m.r, m.w = m.res, m.res
	default:
		panic("op " + op.Op)
	}
	return false
}

// ubCompare checks everything that can be observed without changing the buffer
func ubCompare(e *Env, ub *ustack.UBuf, m *ubModel, what string) {
	e.Check(ub.Capacity() == len(m.mem), "%s: Capacity %d, want %d", what, ub.Capacity(), len(m.mem))
	e.Check(ub.ReadableLength() == m.readable(), "%s: ReadableLength %d, want %d", what, ub.ReadableLength(), m.readable())
	e.Check(ub.HeadWritableLength() == m.r, "%s: HeadWritableLength %d, want %d", what, ub.HeadWritableLength(), m.r)
	e.Check(ub.TailWritableLength() == m.tail(), "%s: TailWritableLength %d, want %d", what, ub.TailWritableLength(), m.tail())
	if m.readable() > 0 {
		p := make([]byte, m.readable())
		n, err := ub.Peek(p)
		e.Check(n == len(p) && err == nil && bytes.Equal(p, m.data()), "%s: content %x (%d, %v), want %x", what, p, n, err, m.data())
	}
}

func genUbOp(t *rapid.T, maxN int) UbOp {
	switch drawUni(t, 0, 15, "opclass") {
	case 0, 1:
		return UbOp{Op: "w" + drawOf(t, "sc", ubScalarNames...), V: rapid.Uint64().Draw(t, "v")}
	case 2, 3:
		return UbOp{Op: "wh" + drawOf(t, "sc", ubScalarNames...), V: rapid.Uint64().Draw(t, "v")}
	case 4, 5:
		return UbOp{Op: "r" + drawOf(t, "sc", ubScalarNames...)}
	case 6:
		return UbOp{Op: "p" + drawOf(t, "sc", ubScalarNames...)}
	case 7:
		return UbOp{Op: drawOf(t, "b", "writebyte", "writeheadbyte"), V: uint64(rapid.Byte().Draw(t, "v"))}
	case 8:
		return UbOp{Op: drawOf(t, "b", "readbyte", "peekbyte")}
	case 9, 10:
		return UbOp{Op: "write", V: uint64(drawInt(t, 0, 1000, "v")), N: drawInt(t, 0, maxN, "n")}
	case 11:
		return UbOp{Op: "writehead", V: uint64(drawInt(t, 0, 1000, "v")), N: drawInt(t, 0, maxN, "n")}
	case 12:
		return UbOp{Op: "read", N: drawInt(t, 0, maxN, "n")}
	case 13:
		return UbOp{Op: "peek", N: drawInt(t, 0, maxN, "n")}
	case 14:
		return UbOp{Op: "readfrom", N: drawInt(t, 0, maxN, "n"), Err: drawPct(t, 40, "err")}
	default:
		if drawPct(t, 15, "reset") {
			return UbOp{Op: "reset"}
		}
		return UbOp{Op: "writeto", M: drawInt(t, 0, maxN, "m"), Err: drawPct(t, 60, "err")}
	}
}

func genUbCase(t *rapid.T) UbCase {
	var c UbCase
	maxN := 12
	switch drawUni(t, 0, 3, "size") {
	case 0, 1:
		c.Cap = drawUni(t, 1, 24, "cap")
	case 2:
		c.Cap = drawUni(t, 16, 80, "cap")
		maxN = 40
	default:
		c.Cap = drawUni(t, 64, 5000, "cap")
		maxN = c.Cap + 10
	}
	if drawPct(t, 2, "huge") {
		c.Cap = drawUni(t, 65000, 140000, "cap")
		maxN = c.Cap + 10
	}
	c.Reserved = drawOf(t, "res", 0, c.Cap, c.Cap/2, drawUni(t, 0, c.Cap, "resn"), min(c.Cap, 8))
	c.From = drawPct(t, 30, "from")
	if c.From {
		c.FromLen = drawInt(t, 0, c.Cap, "fromlen")
	}
	n := drawUni(t, 1, 30, "nops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genUbOp(t, maxN))
	}
	return c
}

func makeUb(c UbCase) (*ustack.UBuf, []byte) {
	if c.From {
		back := make([]byte, c.Cap)
		if c.Reserved == 0 {
			return ustack.UBufFrom(back[:c.FromLen]), back
		}
		return ustack.UBufFromWithHeadReserved(back[:c.FromLen], c.Reserved), back
	}
	if c.Reserved == 0 {
		return ustack.UBufAlloc(c.Cap), nil
	}
	return ustack.UBufAllocWithHeadReserved(c.Cap, c.Reserved), nil
}

func runUbCase(e *Env, c UbCase) {
	ub, back := makeUb(c)
	e.Check(ub != nil, "no buffer for capacity %d, reserved %d", c.Cap, c.Reserved)
	m := &ubModel{mem: make([]byte, c.Cap), res: c.Reserved, r: c.Reserved, w: c.Reserved}
	ubCompare(e, ub, m, "new buffer")
	refused, done := 0, 0
	for i, op := range c.Ops {
		if ubApply(e, ub, m, op) {
			refused++
		} else {
			done++
		}
		ubCompare(e, ub, m, fmt.Sprintf("after op %d (%s)", i, op.Op))
		if back != nil {
			e.Check(bytes.Equal(back[m.r:m.w], m.data()), "after op %d (%s): the data is not in the slice of the caller", i, op.Op)
		}
		if m.r == 0 {
			e.Class("head-exhausted")
		}
		if m.tail() == 0 {
			e.Class("tail-exhausted")
		}
		e.ClassIf(m.readable() == 0, "empty")
	}
	// everything that went in comes out, in order
	p := make([]byte, m.readable())
	if len(p) > 0 {
		n, err := ub.Read(p)
		e.Check(n == len(p) && err == nil && bytes.Equal(p, m.data()), "final read: %x (%d, %v), want %x", p, n, err, m.data())
		e.Check(ub.ReadableLength() == 0, "data left after everything was read")
	}
	e.ClassIf(c.From, "caller-slice")
	e.ClassIf(refused > 0, "refused-op")
	if refused > 0 && done > 1 {
		e.NonTrivial()
	}
}

// invalid and extreme constructor arguments
type UbCtor struct {
	Cap, Reserved int
	Nil           bool
}

func runUbCtor(e *Env, c UbCtor) {
	valid := c.Cap > 0 && c.Reserved >= 0 && c.Reserved <= c.Cap
	var data []byte
	if !c.Nil {
		data = make([]byte, 0, max(c.Cap, 0))
	}
	ub := ustack.UBufFromWithHeadReserved(data, c.Reserved)
	if valid && !c.Nil {
		e.Check(ub != nil && ub.Capacity() == c.Cap && ub.HeadWritableLength() == c.Reserved, "UBufFrom refused capacity %d, reserved %d", c.Cap, c.Reserved)
	} else {
		e.Check(ub == nil, "UBufFrom accepted capacity %d, reserved %d, nil %v", c.Cap, c.Reserved, c.Nil)
		e.NonTrivial()
	}
	if c.Nil {
		e.Check(ustack.UBufFrom(nil) == nil, "UBufFrom(nil) is not nil")
	}
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		ub = ustack.UBufAllocWithHeadReserved(c.Cap, c.Reserved)
	}()
	e.Check(panicked == !valid, "UBufAllocWithHeadReserved(%d, %d): panicked %v", c.Cap, c.Reserved, panicked)
	if !panicked {
		e.Check(ub.Capacity() == c.Cap && ub.HeadWritableLength() == c.Reserved &&
			ub.TailWritableLength() == c.Cap-c.Reserved && ub.ReadableLength() == 0, "UBufAllocWithHeadReserved(%d, %d) has wrong room", c.Cap, c.Reserved)
	}
}

func init() {
	register(&Property{
		ID:   "C01",
		Rule: "a case is a capacity, a head reservation and up to 30 generated UBuf operations (all Write/WriteHead/Read/Peek forms, Read, Peek, ReadFrom with a scripted reader, WriteTo with a scripted failing writer, Reset) replayed against an array model, all lengths and the content compared after every operation; non-trivial: at least one operation was refused or partial for lack of room or data and at least two succeeded (constructor cases: the arguments are invalid)",
		Parts: []Part{
			part("ops", 12000, genUbCase, runUbCase),
			part("ctor", 600, func(t *rapid.T) UbCtor {
				c := UbCtor{Cap: drawUni(t, -2, 40, "cap"), Nil: drawPct(t, 10, "nil")}
				c.Reserved = drawOf(t, "r", 0, c.Cap, c.Cap+1, -1, drawUni(t, -3, 45, "rn"))
				return c
			}, runUbCtor),
		},
	})
}
