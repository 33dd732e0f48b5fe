package verif

import (
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C09: an event reaches everybody who is there exactly once

type EvOp struct {
	Op string `json:"op"` // publish, listen, addep, delep, addtp, deltp, run
	I  int    `json:"i"`
	// what is published
	T int `json:"t,omitempty"`
	S int `json:"s,omitempty"`
	D int `json:"d,omitempty"`
	// reaction of an observer (only in Reacts)
	Who  string `json:"who,omitempty"`  // L<i>: stack listener, E<i>: endpoint, P: processor
	When int    `json:"when,omitempty"` // at the n-th event it sees
}

type EvCase struct {
	Rep    int    `json:"rep,omitempty"` // the steps are done that many times
	Procs  int    `json:"procs"`
	Crowd  int    `json:"crowd,omitempty"` // that many more listeners and endpoints are there from the beginning
	Ops    []EvOp `json:"ops"`
	Reacts []EvOp `json:"reacts"`
}

const evEndpoints, evTransports = 5, 3

func genEvOp(t *rapid.T) EvOp {
	switch drawUni(t, 0, 9, "op") {
	case 0, 1, 2, 3:
		return EvOp{Op: "publish", T: drawUni(t, 0, 6, "t"), S: drawUni(t, 0, 7, "s"), D: drawUni(t, 0, 6, "d")}
	case 4:
		if drawPct(t, 30, "other") {
			return EvOp{Op: drawOf(t, "ear", "nolisten", "mute", "mute", "unmute"), I: drawUni(t, 0, evEndpoints-1, "i")}
		}
		return EvOp{Op: "listen"}
	case 5, 6:
		return EvOp{Op: "addep", I: drawUni(t, 0, evEndpoints-1, "i")}
	case 7:
		return EvOp{Op: "delep", I: drawUni(t, 0, evEndpoints-1, "i")}
	case 8:
		return EvOp{Op: "addtp", I: drawUni(t, 0, evTransports-1, "i")}
	default:
		return EvOp{Op: "deltp", I: drawUni(t, 0, evTransports-1, "i")}
	}
}

func genEvCase(t *rapid.T) EvCase {
	c := EvCase{Procs: drawUni(t, 0, 3, "procs")}
	if drawPct(t, 4, "crowd") {
		c.Crowd = drawUni(t, 5, 70, "crowdn")
		if drawPct(t, 6, "huge") {
			c.Crowd = drawUni(t, 130, 270, "crowdhuge")
		}
		c.Procs = drawUni(t, 0, 30, "crowdprocs")
	}
	for i := drawUni(t, 0, 3, "init"); i > 0; i-- {
		c.Ops = append(c.Ops, EvOp{Op: "listen"})
	}
	for i := drawUni(t, 0, 4, "eps"); i > 0; i-- {
		c.Ops = append(c.Ops, EvOp{Op: "addep", I: i})
	}
	n := drawUni(t, 1, 14, "n")
	runAt := drawUni(t, 0, n+4, "runat")
	for i := 0; i < n; i++ {
		if i == runAt {
			c.Ops = append(c.Ops, EvOp{Op: "run"})
		}
		c.Ops = append(c.Ops, genEvOp(t))
	}
	for i := drawUni(t, 0, 4, "nreact"); i > 0; i-- {
		r := genEvOp(t)
		if drawPct(t, 50, "del") {
			r = EvOp{Op: "delep", I: drawUni(t, 0, evEndpoints-1, "i")}
		}
		r.Who = drawOf(t, "who", "L0", "L1", "E0", "E1", "E2", "E3", "E4", "P")
		r.When = drawUni(t, 1, 5, "when")
		c.Reacts = append(c.Reacts, r)
	}
	return c
}

type evKey struct {
	typ    int
	data   interface{}
	source interface{}
}

// evNorm makes values comparable that are not
func evNorm(v interface{}) interface{} {
	switch x := v.(type) {
	case []int:
		return fmt.Sprintf("[]int at %p", &x[0])
	case map[string]int:
		return fmt.Sprintf("map of %d at %p", len(x), x)
	}
	return v
}

type evObs struct {
	name   string
	seen   map[evKey]int
	total  int
	reg    int // stamp since which it is registered, 0: not
	must   map[evKey]int
	may    map[evKey]int
	always bool
}

func runEvCase(e *Env, c EvCase) {
	e.Bubble(func() {
		clock := 1
		now := func() int { clock++; return clock }
		var obs []*evObs
		newObs := func(name string) *evObs {
			o := &evObs{name: name, seen: map[evKey]int{}, must: map[evKey]int{}, may: map[evKey]int{}}
			obs = append(obs, o)
			return o
		}
		st := ustack.NewUStack()
		published := map[evKey]bool{}
		reacts := append([]EvOp(nil), c.Reacts...)
		busy := map[string]bool{} // endpoints and transports that are being added or deleted
		depth := 0
		nested := false

		type pub struct {
			key   evKey
			begin int
			who   map[*evObs]bool // registered when it began
			lost  map[*evObs]bool // meanwhile no longer
		}
		var open []*pub
		begin := func(k evKey) *pub {
			published[k] = true
			p := &pub{key: k, begin: now(), who: map[*evObs]bool{}, lost: map[*evObs]bool{}}
			for _, o := range obs {
				if o.reg > 0 || o.always {
					p.who[o] = true
				}
			}
			open = append(open, p)
			return p
		}
		end := func(p *pub) {
			open = open[:len(open)-1]
			for _, o := range obs {
				if p.who[o] && !p.lost[o] {
					o.must[p.key]++
				}
				o.may[p.key]++
			}
		}
		unregister := func(o *evObs) {
			o.reg = 0
			for _, p := range open {
				p.lost[o] = true
			}
		}

		var do func(op EvOp)
		notice := func(o *evObs, ev ustack.Event) {
			k := evKey{ev.Type, evNorm(ev.Data), evNorm(ev.Source)}
			if !published[k] {
				e.Fail("%s got an event that nobody published: type %d, data %v of type %T, source of type %T", o.name, ev.Type, evNorm(ev.Data), ev.Data, ev.Source)
				return
			}
			o.seen[k]++
			o.total++
			if depth >= 3 {
				return
			}
			for i := range reacts {
				if reacts[i].Who == o.name && reacts[i].When == o.total {
					r := reacts[i]
					reacts[i].Who = ""
					nested = true
					e.Class("nested-" + r.Op)
					do(r)
				}
			}
		}

		var probes []ustack.DataProcessor
		for i := 0; i < c.Procs; i++ {
			name := "P"
			if i > 0 {
				name = fmt.Sprint("P", i)
			}
			o := newObs(name)
			o.always = true
			p := newProbe(name)
			p.onEvent = func(ev ustack.Event) { notice(o, ev) }
			st.AppendDataProcessor(p)
			probes = append(probes, p)
		}
		eps := make([]ustack.EndPoint, evEndpoints)
		epObs := make([]*evObs, evEndpoints)
		has := make([]bool, evEndpoints)
		muted := make([]bool, evEndpoints)
		unmute := make([]func(), evEndpoints)
		for i := range eps {
			epObs[i] = newObs(fmt.Sprint("E", i))
			eps[i] = newAnyEP(epObs[i].name, i%3) // some have the same session
			unmute[i] = func() {
				eps[i].SetEventListener(func(ep ustack.EndPoint, ev ustack.Event) {
					if ep != eps[i] {
						e.Fail("the listener of E%d was called with another endpoint", i)
					}
					if muted[i] {
						e.Fail("the listener of E%d was called after it was removed", i)
					}
					notice(epObs[i], ev)
				})
			}
			unmute[i]()
		}
		tps := make([]*memTransport, evTransports)
		hasT := make([]bool, evTransports)
		for i := range tps {
			tps[i] = newMemTransport(fmt.Sprint("T", i))
		}
		listeners := 0
		types := []int{100, 101, ustack.UStackEventHeartbeatLost, ustack.UStackEventConnectionClosed, -1, 1 << 40, ustack.UStackEventEndpointAdded}
		sources := []interface{}{"src", nil, st, eps[1], tps[1], []int{1}, evTransports}
		datas := []interface{}{nil, 0, 1, "x", []int{7}, map[string]int{"a": 1}, &struct{ a int }{5}}
		do = func(op EvOp) {
			depth++
			defer func() { depth-- }()
			switch op.Op {
			case "run":
				if depth == 1 {
					st.Run()
				}
			case "publish":
				ev := ustack.Event{Type: types[op.T%len(types)], Data: datas[op.D%len(datas)]}
				if op.S < len(sources) {
					ev.Source = sources[op.S]
				} else if len(probes) > 0 {
					ev.Source = probes[len(probes)-1]
				}
				p := begin(evKey{ev.Type, evNorm(ev.Data), evNorm(ev.Source)})
				st.PublishEvent(ev)
				end(p)
			case "listen":
				o := newObs(fmt.Sprint("L", listeners))
				listeners++
				st.SetEventListener(func(ev ustack.Event) { notice(o, ev) })
				o.reg = now()
			case "nolisten":
				st.SetEventListener(nil)
				e.Class("nil-listener")
			case "mute":
				eps[op.I].SetEventListener(nil)
				muted[op.I] = true
				unregister(epObs[op.I])
				e.Class("endpoint-muted")
			case "unmute":
				unmute[op.I]()
				if muted[op.I] && has[op.I] && !busy[fmt.Sprint("E", op.I)] {
					epObs[op.I].reg = now()
				}
				muted[op.I] = false
			case "addep":
				id := fmt.Sprint("E", op.I)
				if busy[id] {
					return
				}
				busy[id] = true
				if has[op.I] {
					st.AddEndPoint(eps[op.I]) // no effect, no event
				} else {
					p := begin(evKey{ustack.UStackEventEndpointAdded, eps[op.I], st})
					st.AddEndPoint(eps[op.I])
					end(p)
					if !muted[op.I] {
						epObs[op.I].reg = now()
					}
					has[op.I] = true
				}
				busy[id] = false
			case "delep":
				id := fmt.Sprint("E", op.I)
				if busy[id] {
					return
				}
				busy[id] = true
				if !has[op.I] {
					st.DeleteEndPoint(eps[op.I])
				} else {
					unregister(epObs[op.I])
					p := begin(evKey{ustack.UStackEventEndpointDeleted, eps[op.I], st})
					p.who[epObs[op.I]] = !muted[op.I] // it hears of its own deletion
					st.DeleteEndPoint(eps[op.I])
					end(p)
					has[op.I] = false
				}
				busy[id] = false
			case "addtp", "deltp":
				id := fmt.Sprint("T", op.I)
				if busy[id] {
					return
				}
				busy[id] = true
				if op.Op == "addtp" {
					if hasT[op.I] {
						st.AddTransport(tps[op.I])
					} else {
						p := begin(evKey{ustack.UStackEventTransportAdded, tps[op.I], st})
						st.AddTransport(tps[op.I])
						end(p)
						hasT[op.I] = true
					}
				} else if !hasT[op.I] {
					st.DeleteTransport(tps[op.I])
				} else {
					p := begin(evKey{ustack.UStackEventTransportDeleted, tps[op.I], st})
					st.DeleteTransport(tps[op.I])
					end(p)
					hasT[op.I] = false
				}
				busy[id] = false
			}
		}
		for i := 0; i < c.Crowd; i++ {
			o := newObs(fmt.Sprint("crowd listener ", i))
			o.always = true
			st.SetEventListener(func(ev ustack.Event) { notice(o, ev) })
		}
		for i := 0; i < c.Crowd; i++ {
			o := newObs(fmt.Sprint("crowd endpoint ", i))
			ep := newEP(o.name, 100+i).SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { notice(o, ev) })
			p := begin(evKey{ustack.UStackEventEndpointAdded, ep, st})
			st.AddEndPoint(ep)
			end(p)
			o.reg = now()
			e.Class("crowd")
		}
		for n, op := range repeated(c.Ops, c.Rep) {
			if op.Op == "listen" && n >= len(c.Ops) {
				continue
			}
			do(op)
			e.Check(!e.Failed(), "see above")
			for _, o := range obs {
				for k, w := range o.must {
					e.Check(o.seen[k] >= w, "after op %d (%s): %s got the event of type %d %d times, it was published %d times while it was there", n, op.Op, o.name, k.typ, o.seen[k], w)
				}
				for k, s := range o.seen {
					e.Check(s <= o.may[k], "after op %d (%s): %s got the event of type %d %d times, it was published %d times", n, op.Op, o.name, k.typ, s, o.may[k])
				}
			}
			in := map[ustack.EndPoint]int{}
			for _, ep := range st.GetEndPoint() {
				in[ep]++
			}
			for i, ep := range eps {
				e.Check((in[ep] == 1) == has[i] && in[ep] <= 1, "after op %d (%s): endpoint %d is listed %d times, registered: %v", n, op.Op, i, in[ep], has[i])
			}
			inT := map[ustack.Transport]int{}
			for _, tp := range st.GetTransport() {
				inT[tp]++
			}
			for i, tp := range tps {
				e.Check((inT[tp] == 1) == hasT[i] && inT[tp] <= 1, "after op %d (%s): transport %d is listed %d times, registered: %v", n, op.Op, i, inT[tp], hasT[i])
			}
		}
		must := 0
		for _, o := range obs {
			must += len(o.must)
		}
		e.ClassIf(nested, "nested")
		if must > 1 && (nested || listeners > 0) {
			e.NonTrivial()
		}
	})
}

// ---- the same from several goroutines

type EvPar struct {
	Publishers int  `json:"publishers"`
	Each       int  `json:"each"`
	Churn      int  `json:"churn"`
	Run        bool `json:"run"`
	Stable     int  `json:"stable"`
}

func genEvPar(t *rapid.T) EvPar {
	return EvPar{
		Publishers: drawUni(t, 1, 4, "p"),
		Each:       drawUni(t, 1, 30, "each"),
		Churn:      drawUni(t, 0, 30, "churn"),
		Run:        drawBool(t, "run"),
		Stable:     drawUni(t, 1, 4, "stable"),
	}
}

func runEvPar(e *Env, c EvPar) {
	e.Bubble(func() {
		st := ustack.NewUStack()
		var mu sync.Mutex
		seen := map[string]map[interface{}]int{}
		note := func(name string, ev ustack.Event) {
			if ev.Type < 100 {
				return
			}
			mu.Lock()
			if seen[name] == nil {
				seen[name] = map[interface{}]int{}
			}
			seen[name][ev.Data]++
			mu.Unlock()
		}
		var stable []string
		p := newProbe("P")
		p.onEvent = func(ev ustack.Event) { note("P", ev) }
		st.AppendDataProcessor(p)
		stable = append(stable, "P")
		for i := 0; i < c.Stable; i++ {
			l, en := fmt.Sprint("L", i), fmt.Sprint("E", i)
			st.SetEventListener(func(ev ustack.Event) { note(l, ev) })
			ep := newEP(en, i)
			ep.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) { note(en, ev) })
			st.AddEndPoint(ep)
			stable = append(stable, l, en)
		}
		if c.Run {
			st.Run()
		}
		var wg sync.WaitGroup
		for i := 0; i < c.Publishers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < c.Each; j++ {
					st.PublishEvent(ustack.Event{Type: 100, Data: i*1000 + j})
				}
			}()
		}
		wg.Add(2)
		var kept []ustack.EndPoint
		go func() {
			defer wg.Done()
			for j := 0; j < c.Churn; j++ {
				ep := newEP("x", 1000+j)
				st.AddEndPoint(ep)
				if j%3 == 2 {
					kept = append(kept, ep)
				} else {
					st.DeleteEndPoint(ep)
				}
			}
		}()
		go func() {
			defer wg.Done()
			for j := 0; j < c.Churn; j++ {
				tp := newMemTransport("t")
				st.AddTransport(tp)
				st.SetEventListener(func(ustack.Event) {})
				st.DeleteTransport(tp)
				st.GetEndPoint()
				st.GetTransport()
			}
		}()
		wg.Wait()
		synctest.Wait()
		for _, name := range stable {
			e.Check(len(seen[name]) == c.Publishers*c.Each, "%s got %d events, %d were published", name, len(seen[name]), c.Publishers*c.Each)
			for k, n := range seen[name] {
				e.Check(n == 1, "%s got event %v %d times", name, k, n)
			}
		}
		e.Check(len(st.GetTransport()) == 0, "%d transports are left", len(st.GetTransport()))
		in := map[ustack.EndPoint]int{}
		for _, ep := range st.GetEndPoint() {
			in[ep]++
		}
		e.Check(len(st.GetEndPoint()) == len(kept)+c.Stable, "%d endpoints are left, expected %d", len(st.GetEndPoint()), len(kept)+c.Stable)
		for _, ep := range kept {
			e.Check(in[ep] == 1, "an endpoint that was added is listed %d times", in[ep])
		}
		if c.Churn > 0 && c.Publishers > 0 {
			e.NonTrivial()
		}
	})
}

// ---- the same objects from several goroutines

type EvSame struct {
	What   string  `json:"what"`   // endpoint or transport
	Rounds [][]int `json:"rounds"` // per goroutine: 0 add, 1 delete
	Slow   bool    `json:"slow"`   // an observer takes its time
	Again  bool    `json:"again"`  // an observer does the same again
	Run    bool    `json:"run"`
}

func genEvSame(t *rapid.T) EvSame {
	c := EvSame{What: drawOf(t, "what", "endpoint", "transport"), Slow: drawBool(t, "slow"), Again: drawBool(t, "again"), Run: drawPct(t, 70, "run")}
	for n := drawUni(t, 1, 6, "rounds"); n > 0; n-- {
		var r []int
		kind := drawUni(t, 0, 2, "kind")
		for m := drawUni(t, 2, 4, "threads"); m > 0; m-- {
			if kind < 2 {
				r = append(r, kind)
			} else {
				r = append(r, drawUni(t, 0, 1, "op"))
			}
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

func runEvSame(e *Env, c EvSame) {
	e.Bubble(func() {
		st := ustack.NewUStack().SetOption("MTU", 256).AppendDataProcessor(ustack.NewBytesCodec())
		base := newMemTransport("base")
		st.AddTransport(base)
		ep, tp := newEP("x", 0), newMemTransport("x")
		var obj interface{} = ep
		add, del := func() { st.AddEndPoint(ep) }, func() { st.DeleteEndPoint(ep) }
		if c.What == "transport" {
			obj = tp
			add, del = func() { st.AddTransport(tp) }, func() { st.DeleteTransport(tp) }
			st.AddEndPoint(ep)
		}
		if c.Run {
			st.Run()
		}
		var mu sync.Mutex
		added, deleted := 0, 0
		st.SetEventListener(func(ev ustack.Event) {
			if ev.Data != obj {
				return
			}
			mu.Lock()
			over := added+deleted > 100
			switch ev.Type {
			case ustack.UStackEventEndpointAdded, ustack.UStackEventTransportAdded:
				added++
				mu.Unlock()
				if c.Again && !over {
					add()
				}
			case ustack.UStackEventEndpointDeleted, ustack.UStackEventTransportDeleted:
				deleted++
				mu.Unlock()
				if c.Again && !over {
					del()
				}
			default:
				mu.Unlock()
			}
			if c.Slow {
				time.Sleep(time.Millisecond)
			}
		})
		conn := newMemConn("c")
		base.offer(conn)
		listed := func() int {
			n := 0
			for _, x := range st.GetEndPoint() {
				if obj == x {
					n++
				}
			}
			for _, x := range st.GetTransport() {
				if obj == x {
					n++
				}
			}
			return n
		}
		works := func() bool {
			if c.What == "transport" {
				k := newMemConn("k")
				if !tp.offer(k) {
					return false
				}
				k.feed([]byte("in"))
				synctest.Wait()
				n := len(drain(ep.GetRxChannel()))
				e.Check(n <= 1, "a message was received %d times", n)
				k.Close()
				synctest.Wait()
				return n == 1
			}
			conn.feed([]byte("in"))
			synctest.Wait()
			n := len(drain(ep.GetRxChannel()))
			ep.GetTxChannel() <- epd(conn, []byte("out"))
			synctest.Wait()
			m := len(conn.take())
			e.Check(n <= 1 && m <= 1, "a message was received %d times, one was sent %d times", n, m)
			e.Check(n == m, "an endpoint that sends %d and receives %d", m, n)
			drain(ep.GetTxChannel())
			return n == 1
		}
		was := 0
		for i, r := range c.Rounds {
			at := fmt.Sprintf("round %d (%v)", i, r)
			added, deleted = 0, 0
			var wg sync.WaitGroup
			adds := 0
			for _, op := range r {
				wg.Add(1)
				f := add
				if op == 1 {
					f = del
				} else {
					adds++
				}
				e.Go(func() { defer wg.Done(); f() })
			}
			wg.Wait()
			synctest.Wait()
			if e.Failed() {
				return
			}
			n := listed()
			e.Check(n <= 1, "%s: the %s is listed %d times", at, c.What, n)
			e.Check(added-deleted == n-was, "%s: %d additions and %d deletions were published, listed %d, before %d", at, added, deleted, n, was)
			if adds == len(r) {
				e.Check(n == 1 && added == 1-was, "%s: added from %d goroutines: listed %d, %d additions were published", at, adds, n, added)
			} else if adds == 0 {
				e.Check(n == 0 && deleted == was, "%s: deleted from %d goroutines: listed %d, %d deletions were published", at, len(r), n, deleted)
			}
			was = n
			if c.Run {
				e.Check(works() == (n == 1), "%s: listed %d, it works: %v", at, n, n != 1)
			}
		}
		e.Class(c.What)
		e.NonTrivial()
	})
}

func init() {
	register(&Property{
		ID:   "C09",
		Rule: "a case is a history of publishing, registering and removing listeners (also nil ones), adding and deleting endpoints and transports, before and after Run, with observers that do the same from inside their callback (nested up to 3 deep); every observer registered during a whole publication must count it exactly once; or several goroutines publish while others add and delete; non-trivial: at least two events had to be seen and a listener or a nested operation was involved; parts named long repeat the steps of such a case many times on the same objects",
		Parts: []Part{
			part("history", 3000, genEvCase, runEvCase),
			part("long", 25, func(t *rapid.T) EvCase {
				c := genEvCase(t)
				c.Crowd = c.Crowd % 9
				c.Rep = drawRep(t, len(c.Ops))
				return c
			}, runEvCase),
			part("parallel", 400, genEvPar, runEvPar),
			part("same", 600, genEvSame, runEvSame),
		},
	})
}
