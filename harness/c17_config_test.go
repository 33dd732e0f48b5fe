package verif

import (
	"fmt"
	"reflect"
	"slices"
	"testing/synctest"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C17: configuration is kept as it was set

type CfgOp struct {
	O int    `json:"o"` // object
	F string `json:"f"` // field
	K string `json:"k"` // option name
	V CfgVal `json:"v"`
}

type CfgVal struct {
	T string `json:"t"`
	N int    `json:"n"`
	S string `json:"s,omitempty"`
}

type CfgCase struct {
	Kinds []string `json:"kinds"`
	Ops   []CfgOp  `json:"ops"`
}

var cfgPtrs [8]*refVal

func init() {
	for i := range cfgPtrs {
		cfgPtrs[i] = &refVal{1}
	}
}

func (v CfgVal) value() interface{} {
	switch v.T {
	case "int":
		return v.N
	case "string":
		return v.S
	case "bool":
		return v.N%2 == 0
	case "byte":
		return byte(v.N)
	case "bytes":
		return []byte(v.S)
	case "ptr":
		return cfgPtrs[(v.N%8+8)%8]
	case "float":
		return float64(v.N) / 2
	case "uint":
		return uint(v.N)
	case "int64":
		return int64(v.N)
	}
	return nil
}

func genCfgVal(t *rapid.T) CfgVal {
	return CfgVal{
		T: drawOf(t, "t", "nil", "int", "string", "bool", "byte", "bytes", "ptr", "float", "uint", "int64"),
		N: rapid.Int().Draw(t, "n"), S: rapid.StringN(0, 12, -1).Draw(t, "s"),
	}
}

var cfgKinds = []string{"ustack", "feature", "embedded-feature", "procbase", "bytes", "string", "json", "gob", "generic", "session", "frame", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "discarder", "echo", "loopback", "embedded",
	"tcp", "uds", "reference", "endpoint", "context", "epdata"}

// cfgObj is one configurable object of the library and how to use it
type cfgObj struct {
	self    interface{}
	setName func(string) interface{}
	getName func() string
	setOpt  func(string, interface{}) interface{}
	getOpt  func(string) interface{}
	other   map[string]func(v int) interface{} // further setters
	get     map[string]func() interface{}
}

type embeddedFeature struct {
	ustack.FeatBase
	runs int
	id   int
}

func (f *embeddedFeature) Run() ustack.Feature { f.runs++; return f }

func procOf(kind string) ustack.DataProcessor {
	switch kind {
	case "procbase":
		return ustack.NewProcBase()
	case "bytes":
		return ustack.NewBytesCodec()
	case "string":
		return ustack.NewStringCodec()
	case "json":
		return ustack.NewJSONCodec(reflect.TypeOf(Rec{}))
	case "gob":
		return ustack.NewGOBCodec(reflect.TypeOf(Rec{}))
	case "generic":
		return ustack.NewGenericCodec(nil, genericEncode, genericDecode)
	case "loopback":
		return ustack.NewLoopback()
	case "embedded":
		return newProbe("embedded")
	}
	return newLayer(Layer{Kind: kind})
}

func newCfgObj(kind string) *cfgObj {
	o := &cfgObj{other: map[string]func(int) interface{}{}, get: map[string]func() interface{}{}}
	switch kind {
	case "ustack":
		u := ustack.NewUStack()
		o.self = u
		o.setName = func(s string) interface{} { return u.SetName(s) }
		o.getName = u.GetName
		o.setOpt = func(k string, v interface{}) interface{} { return u.SetOption(k, v) }
		o.getOpt = u.GetOption
		o.other["listen"] = func(int) interface{} { return u.SetEventListener(func(ustack.Event) {}) }
		o.other["publish"] = func(int) interface{} { return u.PublishEvent(ustack.Event{Type: 100}) }
	case "feature", "embedded-feature":
		var f ustack.Feature
		if kind == "feature" {
			f = ustack.NewFeatBase()
		} else {
			f = &embeddedFeature{FeatBase: ustack.NewFeatBaseInstance("x")}
		}
		o.self = f
		o.setName = func(s string) interface{} { return f.SetName(s) }
		o.getName = f.GetName
		o.setOpt = func(k string, v interface{}) interface{} { return f.SetOption(k, v) }
		o.getOpt = f.GetOption
		o.other["ustack"] = func(int) interface{} { return f.SetUStack(nil) }
		if kind == "embedded-feature" {
			// returns the embedded part, there is no way to tell it who embeds it
			o.setName = func(s string) interface{} { f.SetName(s); return f }
			o.setOpt = func(k string, v interface{}) interface{} { f.SetOption(k, v); return f }
			delete(o.other, "ustack")
		}
	case "tcp", "uds", "reference":
		var tp ustack.Transport
		switch kind {
		case "tcp":
			tp = ustack.NewTCPTransport("n")
		case "uds":
			tp = ustack.NewUDSTransport("n")
		default:
			tp = ustack.NewReferenceTransport("n")
		}
		o.self = tp
		o.setOpt = func(k string, v interface{}) interface{} { return tp.SetOption(k, v) }
		o.getOpt = tp.GetOption
		o.other["address"] = func(v int) interface{} { return tp.SetAddress(fmt.Sprint("a", v)) }
		o.get["address"] = func() interface{} { return tp.GetAddress() }
		o.other["server"] = func(v int) interface{} { return tp.ForServer(v%2 == 0) }
	case "endpoint":
		ep := ustack.NewEndPoint("n", 1)
		o.self = ep
		rx, tx := ep.GetRxChannel(), ep.GetTxChannel()
		o.setName = func(s string) interface{} { return ep.SetName(s) }
		o.getName = func() string {
			if ep.GetRxChannel() != rx || ep.GetTxChannel() != tx || rx == tx {
				return "the channels changed"
			}
			return ep.GetName()
		}
		o.other["session"] = func(v int) interface{} { return ep.SetSession(v) }
		o.get["session"] = func() interface{} { return ep.GetSession() }
		o.other["listen"] = func(int) interface{} { return ep.SetEventListener(func(ustack.EndPoint, ustack.Event) {}) }
	case "context":
		x := ustack.NewUStackContext()
		o.self = x
		o.setOpt = func(k string, v interface{}) interface{} { return x.SetOption(k, v) }
		o.getOpt = x.GetOption
		o.other["connection"] = func(v int) interface{} { return x.SetConnection(cfgConns[(v%4+4)%4]) }
		o.get["connection"] = func() interface{} { return x.GetConnection() }
		o.other["buffer"] = func(v int) interface{} { return x.SetBuffer(cfgBufs[(v%4+4)%4]) }
		o.get["buffer"] = func() interface{} { return x.GetBuffer() }
		o.other["message"] = func(v int) interface{} { return x.SetMessage(v) }
		o.get["message"] = func() interface{} { return x.GetMessage() }
	case "epdata":
		x := ustack.NewEndPointData()
		o.self = x
		o.other["connection"] = func(v int) interface{} { return x.SetConnection(cfgConns[(v%4+4)%4]) }
		o.get["connection"] = func() interface{} { return x.GetConnection() }
		o.other["data"] = func(v int) interface{} { return x.SetData(v) }
		o.get["data"] = func() interface{} { return x.GetData() }
		o.other["destination"] = func(v int) interface{} {
			if v%3 == 1 {
				return x.ClearDestinationSession()
			}
			return x.SetDestinationSession(v)
		}
		o.get["destination"] = func() interface{} {
			if !x.HasDestinationSession() {
				return nil
			}
			return x.GetDestinationSession()
		}
	default:
		dp := procOf(kind)
		o.self = dp
		o.setName = func(s string) interface{} { return dp.SetName(s) }
		o.getName = dp.GetName
		o.setOpt = func(k string, v interface{}) interface{} { return dp.SetOption(k, v) }
		o.getOpt = dp.GetOption
		o.other["enable"] = func(v int) interface{} { return dp.SetEnable(v%2 == 0) }
		o.other["server"] = func(v int) interface{} { return dp.ForServer(v%2 == 0) }
		if kind != "embedded" {
			o.other["upper"] = func(int) interface{} { return dp.SetUpper(nil) }
			o.other["lower"] = func(int) interface{} { return dp.SetLower(nil) }
		}
		o.other["ustack"] = func(int) interface{} { return dp.SetUStack(nil) }
		over := dp.GetOverhead()
		o.other["overhead"] = func(int) interface{} { return dp }
		o.get["overhead"] = func() interface{} {
			if dp.GetOverhead() != over {
				return dp.GetOverhead()
			}
			return nil
		}
	}
	return o
}

var cfgConns = [4]ustack.TransportConnection{newMemConn("a"), newMemConn("b"), newMemConn("c"), newMemConn("d")}
var cfgBufs = [4]*ustack.UBuf{ustack.UBufAlloc(1), ustack.UBufAlloc(2), ustack.UBufAlloc(3), ustack.UBufAlloc(4)}

// cfgSet is what the getter has to say after the setter got v
func cfgSet(kind, field string, v int) interface{} {
	switch field {
	case "address":
		return fmt.Sprint("a", v)
	case "session", "message", "data":
		return v
	case "connection":
		return cfgConns[(v%4+4)%4]
	case "buffer":
		return cfgBufs[(v%4+4)%4]
	case "destination":
		if v%3 == 1 {
			return nil
		}
		return v
	}
	return nil
}

func genCfgCase(t *rapid.T) CfgCase {
	var c CfgCase
	for i, n := 0, drawUni(t, 1, 6, "objects"); i < n; i++ {
		c.Kinds = append(c.Kinds, drawOf(t, "kind", cfgKinds...))
	}
	if drawBool(t, "twin") {
		c.Kinds = append(c.Kinds, c.Kinds[0])
	}
	for i, n := 0, drawUni(t, 1, 40, "n"); i < n; i++ {
		c.Ops = append(c.Ops, CfgOp{
			O: drawUni(t, 0, len(c.Kinds)-1, "o"),
			F: drawOf(t, "f", "name", "option", "option", "option", "address", "session", "message", "data", "connection", "buffer", "destination", "destination", "enable", "server", "upper", "lower", "ustack", "listen", "publish"),
			K: drawOf(t, "k", "MTU", "a", "b", "", "CacheCapacity", "session"),
			V: genCfgVal(t),
		})
	}
	return c
}

func runCfgCase(e *Env, c CfgCase) {
	type model struct {
		name  *string
		opts  map[string]interface{}
		other map[string]interface{}
	}
	var objs []*cfgObj
	var models []*model
	for _, k := range c.Kinds {
		objs = append(objs, newCfgObj(k))
		models = append(models, &model{opts: map[string]interface{}{}, other: map[string]interface{}{}})
	}
	sets := 0
	for n, op := range c.Ops {
		o, m := objs[op.O], models[op.O]
		at := fmt.Sprintf("op %d (%s %s)", n, c.Kinds[op.O], op.F)
		switch op.F {
		case "name":
			if o.setName == nil {
				continue
			}
			s := op.V.S
			e.Check(o.setName(s) == o.self, "%s: returns something else than the object", at)
			m.name = &s
		case "option":
			if o.setOpt == nil {
				continue
			}
			v := op.V.value()
			e.Check(o.setOpt(op.K, v) == o.self, "%s: returns something else than the object", at)
			m.opts[op.K] = v
		default:
			set := o.other[op.F]
			if set == nil {
				continue
			}
			e.Check(set(op.V.N) == o.self, "%s: returns something else than the object", at)
			m.other[op.F] = cfgSet(c.Kinds[op.O], op.F, op.V.N)
		}
		sets++
		for i := range objs {
			if m := models[i]; m.name != nil {
				e.Check(objs[i].getName() == *m.name, "%s: name of object %d (%s) is %q, set was %q", at, i, c.Kinds[i], objs[i].getName(), *m.name)
			}
			if objs[i].getOpt != nil {
				for _, k := range []string{"MTU", "a", "b", "", "CacheCapacity", "session"} {
					got := objs[i].getOpt(k)
					e.Check(reflect.DeepEqual(got, models[i].opts[k]), "%s: option %q of object %d (%s) is %v, set was %v", at, k, i, c.Kinds[i], got, models[i].opts[k])
					if _, ok := got.(*refVal); ok {
						e.Check(got == models[i].opts[k], "%s: option %q of object %d is another pointer", at, k, i)
					}
				}
			}
			for f, want := range models[i].other {
				if get := objs[i].get[f]; get != nil {
					e.Check(get() == want, "%s: %s of object %d (%s) is %v, set was %v", at, f, i, c.Kinds[i], get(), want)
				}
			}
		}
	}
	if sets >= 3 {
		e.NonTrivial()
	}
	e.ClassIf(len(c.Kinds) > 1 && c.Kinds[len(c.Kinds)-1] == c.Kinds[0], "twins")
}

// ---- option parsing

type ParseCase struct {
	Vals []CfgVal `json:"vals"`
	Def  int      `json:"def"`
}

func runParseCase(e *Env, c ParseCase) {
	for _, v := range c.Vals {
		x := v.value()
		i, ok := ustack.OptionParseInt(x, c.Def)
		wi, wok := c.Def, false
		if v.T == "int" {
			wi, wok = v.N, true
		}
		e.Check(i == wi && ok == wok, "OptionParseInt(%T %v, %d): %d %v", x, x, c.Def, i, ok)
		b, ok := ustack.OptionParseByte(x, byte(c.Def))
		wb, wok := byte(c.Def), false
		if v.T == "byte" {
			wb, wok = byte(v.N), true
		}
		e.Check(b == wb && ok == wok, "OptionParseByte(%T %v, %d): %d %v", x, x, byte(c.Def), b, ok)
		t, ok := ustack.OptionParseBool(x, c.Def%2 == 0)
		wt, wok := c.Def%2 == 0, false
		if v.T == "bool" {
			wt, wok = v.N%2 == 0, true
		}
		e.Check(t == wt && ok == wok, "OptionParseBool(%T %v, %v): %v %v", x, x, c.Def%2 == 0, t, ok)
		s, ok := ustack.OptionParseByteSlice(x)
		if v.T == "bytes" {
			e.Check(ok && string(s) == v.S, "OptionParseByteSlice(%q): %q %v", v.S, s, ok)
		} else {
			e.Check(!ok && s == nil, "OptionParseByteSlice(%T %v): %q %v", x, x, s, ok)
		}
	}
	e.NonTrivial()
}

// ---- what a stack makes of its configuration

type BuildCase struct {
	MTU      *CfgVal  `json:"mtu"`
	Procs    []string `json:"procs"`
	Features []string `json:"features"` // names
	Extra    int      `json:"extra"`    // overhead of a processor of the user
}

func genBuildCase(t *rapid.T) BuildCase {
	var c BuildCase
	if drawPct(t, 70, "mtu") {
		v := genCfgVal(t)
		if drawPct(t, 60, "int") {
			v = CfgVal{T: "int", N: drawInt(t, 1, 100000, "mtu")}
		}
		if v.T == "int" && v.N <= 0 {
			v.N = 1
		}
		c.MTU = &v
	}
	for i, n := 0, drawUni(t, 0, 6, "procs"); i < n; i++ {
		c.Procs = append(c.Procs, drawOf(t, "kind", "session", "frame", "stat", "heartbeat", "lb", "flow", "filter", "forwarder", "discarder", "echo", "bytes", "string", "json", "loopback", "embedded"))
	}
	for i, n := 0, drawUni(t, 0, 5, "features"); i < n; i++ {
		c.Features = append(c.Features, drawOf(t, "name", "a", "b", "c", ""))
	}
	c.Extra = drawUni(t, 0, 20, "extra")
	return c
}

// countingProc sees what the stack does with its processors
type countingProc struct {
	*probe
	runs   int
	stacks []ustack.UStack
}

func (p *countingProc) Run() ustack.DataProcessor { p.runs++; return p }
func (p *countingProc) SetUStack(u ustack.UStack) ustack.DataProcessor {
	p.stacks = append(p.stacks, u)
	p.probe.SetUStack(u)
	return p
}

func runBuildCase(e *Env, c BuildCase) {
	e.Bubble(func() {
		u := ustack.NewUStack()
		mtu := 2048
		if c.MTU != nil {
			u.SetOption("MTU", c.MTU.value())
			if c.MTU.T == "int" {
				mtu = c.MTU.N
			}
		}
		over := 0
		for _, k := range c.Procs {
			dp := procOf(k)
			over += layerOverhead(k)
			e.Check(dp.GetOverhead() == layerOverhead(k), "overhead of %s is %d", k, dp.GetOverhead())
			e.Check(u.AppendDataProcessor(dp) == u, "AppendDataProcessor returns something else")
		}
		mine := &countingProc{probe: newProbe("mine")}
		mine.overhead = c.Extra
		u.AppendDataProcessor(mine)
		over += c.Extra
		var fs []*embeddedFeature
		for i, name := range c.Features {
			f := &embeddedFeature{FeatBase: ustack.NewFeatBaseInstance(name), id: i}
			fs = append(fs, f)
			e.Check(u.AddFeature(f) == u, "AddFeature returns something else")
		}
		for _, name := range []string{"a", "b", "c", "", "zz"} {
			var want ustack.Feature
			for _, f := range fs {
				if f.GetName() == name {
					want = f
					break
				}
			}
			got := u.GetFeature(name)
			e.Check(got == want, "GetFeature(%q) returned %v, the first with that name is %v", name, got, want)
		}
		e.Check(len(u.GetFeatures()) == len(fs), "GetFeatures has %d, added were %d", len(u.GetFeatures()), len(fs))
		for i, f := range u.GetFeatures() {
			e.Check(f == ustack.Feature(fs[i]), "GetFeatures: number %d is not what was added as number %d", i, i)
		}
		e.Check(u.Run() == u, "Run returns something else")
		synctest.Wait()
		e.Check(u.GetMTU() == mtu, "MTU is %d, expected %d", u.GetMTU(), mtu)
		e.Check(u.GetOverhead() == over, "overhead is %d, expected %d", u.GetOverhead(), over)
		for i, f := range fs {
			e.Check(f.runs == 1, "feature %d was run %d times", i, f.runs)
		}
		e.Check(mine.runs == 1, "processor was run %d times", mine.runs)
		e.Check(len(mine.stacks) > 0 && mine.stacks[len(mine.stacks)-1] == u, "processor does not know its stack")
		if len(c.Procs) > 0 || len(fs) > 0 {
			e.NonTrivial()
		}
	})
}

// ---- the lists of a stack

type ListOp struct {
	Op string `json:"op"`
	I  int    `json:"i"`
}

type ListCase struct {
	Ops []ListOp `json:"ops"`
}

func genListCase(t *rapid.T) ListCase {
	var c ListCase
	for i, n := 0, drawUni(t, 2, 60, "n"); i < n; i++ {
		c.Ops = append(c.Ops, ListOp{Op: drawOf(t, "op", "addep", "addep", "addep", "delep", "delep", "addtp", "addtp", "addtp", "deltp", "deltp", "feature", "run"), I: drawUni(t, 0, 11, "i")})
	}
	return c
}

func runListCase(e *Env, c ListCase) {
	e.Bubble(func() {
		u := ustack.NewUStack()
		var eps, nowEps []ustack.EndPoint
		var tps, nowTps []ustack.Transport
		var fs []ustack.Feature
		for i := 0; i < 12; i++ {
			// the names are not unique
			eps = append(eps, newAnyEP(fmt.Sprint("E", i%5), i%7))
			tps = append(tps, newMemTransport(fmt.Sprint("T", i%5)))
		}
		ran, deleted := false, 0
		for n, op := range c.Ops {
			at := fmt.Sprintf("op %d (%s %d)", n, op.Op, op.I)
			ep, tp := eps[op.I], tps[op.I]
			switch op.Op {
			case "addep":
				e.Check(u.AddEndPoint(ep) == u, "%s: returns something else", at)
				if !slices.Contains(nowEps, ep) {
					nowEps = append(nowEps, ep)
				}
			case "delep":
				e.Check(u.DeleteEndPoint(ep) == u, "%s: returns something else", at)
				if k := slices.Index(nowEps, ep); k >= 0 {
					deleted++
					nowEps = slices.Delete(nowEps, k, k+1)
				}
			case "addtp":
				e.Check(u.AddTransport(tp) == u, "%s: returns something else", at)
				if !slices.Contains(nowTps, tp) {
					nowTps = append(nowTps, tp)
				}
			case "deltp":
				e.Check(u.DeleteTransport(tp) == u, "%s: returns something else", at)
				if k := slices.Index(nowTps, tp); k >= 0 {
					deleted++
					nowTps = slices.Delete(nowTps, k, k+1)
				}
			case "feature":
				if !ran {
					f := &embeddedFeature{FeatBase: ustack.NewFeatBaseInstance(fmt.Sprint("F", op.I%3)), id: n}
					u.AddFeature(f)
					fs = append(fs, f)
				}
			case "run":
				if !ran {
					ran = true
					u.Run()
				}
			}
			synctest.Wait()
			e.Check(slices.Equal(u.GetEndPoint(), nowEps), "%s: the stack has %d endpoints, %d are added, or their order is not that of the adding", at, len(u.GetEndPoint()), len(nowEps))
			e.Check(slices.Equal(u.GetTransport(), nowTps), "%s: the stack has %d transports, %d are added, or their order is not that of the adding", at, len(u.GetTransport()), len(nowTps))
			e.Check(slices.Equal(u.GetFeatures(), fs), "%s: the stack has %d features, %d were added, or their order is not that of the adding", at, len(u.GetFeatures()), len(fs))
			e.Check(slices.Equal(u.GetEndPoint(), nowEps) && slices.Equal(u.GetTransport(), nowTps), "%s: the second time the lists are others", at)
		}
		for _, tp := range tps {
			u.DeleteTransport(tp)
		}
		for _, ep := range eps {
			u.DeleteEndPoint(ep)
		}
		e.ClassIf(ran, "running")
		e.ClassIf(deleted > 2, "deletions")
		if len(c.Ops) > 5 && deleted > 0 {
			e.NonTrivial()
		}
	})
}

func init() {
	register(&Property{
		ID:   "C17",
		Rule: "a case is a sequence of settings on up to seven objects of all kinds (stack, features, every processor, transports, endpoint, context, endpoint data), after each of which every getter of every object is compared with a model (setters); option values of all types (parse); a stack with random processors, features and MTU (build); or a history of adding and deleting endpoints, transports and features, where the lists are compared with those of a model after each step (lists); non-trivial: three settings took place (setters), processors or features (build), always (parse), more than five steps and a deletion (lists)",
		Parts: []Part{
			part("setters", 3000, genCfgCase, runCfgCase),
			part("parse", 1000, func(t *rapid.T) ParseCase {
				return ParseCase{Vals: rapid.SliceOfN(rapid.Custom(genCfgVal), 1, 10).Draw(t, "vals"), Def: rapid.Int().Draw(t, "def")}
			}, runParseCase),
			part("build", 1000, genBuildCase, runBuildCase),
			part("lists", 1000, genListCase, runListCase),
		},
	})
}
