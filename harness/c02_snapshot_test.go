package verif

import (
	"fmt"
	"sync"

	"pgregory.net/rapid"
	"ustack"
)

// ---- C02: snapshots

type SnapCase struct {
	UbCase
	Ref bool `json:"ref,omitempty"` // reference snapshots (and direct copies), otherwise copy-on-write and direct copies
}

func genSnapCase(t *rapid.T, ref bool) SnapCase {
	var c SnapCase
	c.Ref = ref
	maxN := 10
	c.Cap = drawUni(t, 1, 40, "cap")
	if drawPct(t, 10, "big") {
		c.Cap = drawUni(t, 100, 3000, "cap")
		maxN = 200
	}
	c.Reserved = drawOf(t, "res", c.Cap/2, 0, c.Cap, drawUni(t, 0, c.Cap, "resn"), min(c.Cap, 8))
	c.From = drawPct(t, 20, "from")
	n := drawUni(t, 2, 30, "nops")
	handles := 1
	for i := 0; i < n; i++ {
		if handles < 8 && drawPct(t, 30, "snap") {
			kind := "cow"
			if ref {
				kind = "ref"
			}
			if drawPct(t, 25, "direct") {
				kind = "direct"
			}
			c.Ops = append(c.Ops, UbOp{Op: "snap-" + kind, H: drawUni(t, 0, handles-1, "h")})
			handles++
			continue
		}
		op := genUbOp(t, maxN)
		if drawPct(t, 40, "small") {
			// operations that succeed more often
			op = drawOf(t, "smallop",
				UbOp{Op: "writebyte", V: uint64(drawInt(t, 0, 255, "v"))},
				UbOp{Op: "writeheadbyte", V: uint64(drawInt(t, 0, 255, "v"))},
				UbOp{Op: "wU16LE", V: uint64(drawInt(t, 0, 65535, "v"))},
				UbOp{Op: "whU16", V: uint64(drawInt(t, 0, 65535, "v"))},
				UbOp{Op: "writehead", V: uint64(i), N: 3},
				UbOp{Op: "write", V: uint64(i), N: 3},
				UbOp{Op: "readbyte"},
				UbOp{Op: "readfrom", N: 3})
		}
		op.H = drawUni(t, 0, handles-1, "h")
		c.Ops = append(c.Ops, op)
	}
	return c
}

var snapType = map[string]int{
	"snap-ref":    ustack.UBufSnapshotTypeReference,
	"snap-cow":    ustack.UBufSnapshotTypeCopyOnWrite,
	"snap-direct": ustack.UBufSnapshotTypeCopyDirectly,
}

func runSnapCase(e *Env, c SnapCase) {
	ub, _ := makeUb(c.UbCase)
	ubs := []*ustack.UBuf{ub}
	ms := []*ubModel{{mem: make([]byte, c.Cap), res: c.Reserved, r: c.Reserved, w: c.Reserved}}
	written := false
	for i, op := range c.Ops {
		h := op.H % len(ubs)
		if kind, ok := snapType[op.Op]; ok {
			s := ustack.UBufMakeSnapshot(ubs[h], kind)
			e.Check(s != nil && s != ubs[h], "op %d: no snapshot", i)
			m := *ms[h]
			if op.Op != "snap-ref" {
				// a copy of its own
				m.mem = append([]byte(nil), ms[h].mem...)
			}
			ubs = append(ubs, s)
			ms = append(ms, &m)
			e.Class(op.Op)
		} else {
			refused := ubApply(e, ubs[h], ms[h], op)
			if len(ubs) > 1 && !refused && op.Op[0] == 'w' {
				written = true
				e.ClassIf(len(op.Op) > 2 && op.Op[:2] == "wh" || op.Op == "writehead" || op.Op == "writeheadbyte", "head-write-shared")
			}
		}
		for j := range ubs {
			ubCompare(e, ubs[j], ms[j], fmt.Sprintf("after op %d (%s on handle %d): handle %d", i, op.Op, h, j))
		}
	}
	if written {
		e.NonTrivial()
	}
	e.ClassIf(len(ubs) > 2, "three-handles")
}

// ---- snapshots that are used by different goroutines

type SnapConc struct {
	Cap   int      `json:"cap"`
	Fill  int      `json:"fill"`
	Tree  []int    `json:"tree"`  // parent of every snapshot
	Kinds []bool   `json:"kinds"` // true: direct copy
	Ops   [][]UbOp `json:"ops"`
}

func genSnapConc(t *rapid.T) SnapConc {
	var c SnapConc
	c.Cap = drawOf(t, "cap", 64, 256, 4096, 20000)
	c.Fill = drawUni(t, 1, c.Cap/2, "fill")
	n := drawUni(t, 1, 4, "n")
	for i := 0; i < n; i++ {
		c.Tree = append(c.Tree, drawUni(t, 0, i, "parent"))
		c.Kinds = append(c.Kinds, drawPct(t, 15, "direct"))
	}
	for i := 0; i <= n; i++ {
		var ops []UbOp
		k := drawUni(t, 1, 6, "k")
		for j := 0; j < k; j++ {
			switch drawUni(t, 0, 5, "o") {
			case 5:
				// the goroutine takes a snapshot of its own handle and goes on with both
				ops = append(ops, UbOp{Op: "snap-cow"})
			case 0:
				ops = append(ops, UbOp{Op: "write", V: uint64(i*100 + j), N: drawInt(t, 1, 16, "n")})
			case 1:
				ops = append(ops, UbOp{Op: "writehead", V: uint64(i*100 + j), N: drawInt(t, 1, 4, "n")})
			case 2:
				ops = append(ops, UbOp{Op: "read", N: drawInt(t, 1, 8, "n")})
			case 3:
				ops = append(ops, UbOp{Op: "wU32", V: uint64(i)})
			default:
				ops = append(ops, UbOp{Op: "peek", N: drawInt(t, 1, 64, "n")})
			}
		}
		for j := range ops {
			ops[j].H = drawUni(t, 0, 2, "h")
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

func runSnapConc(e *Env, c SnapConc) {
	ub := ustack.UBufAllocWithHeadReserved(c.Cap, 16)
	m := &ubModel{mem: make([]byte, c.Cap), res: 16, r: 16, w: 16}
	ubApply(e, ub, m, UbOp{Op: "write", V: 1, N: c.Fill})
	ubs := []*ustack.UBuf{ub}
	ms := []*ubModel{m}
	for i, parent := range c.Tree {
		kind := ustack.UBufSnapshotTypeCopyOnWrite
		if c.Kinds[i] {
			kind = ustack.UBufSnapshotTypeCopyDirectly
		}
		ubs = append(ubs, ustack.UBufMakeSnapshot(ubs[parent], kind))
		mm := *ms[parent]
		mm.mem = append([]byte(nil), ms[parent].mem...)
		ms = append(ms, &mm)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range ubs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.guard(func() {
				own := []*ustack.UBuf{ubs[i]}
				models := []*ubModel{ms[i]}
				<-start
				for j, op := range c.Ops[i] {
					h := op.H % len(own)
					if op.Op == "snap-cow" {
						own = append(own, ustack.UBufMakeSnapshot(own[h], ustack.UBufSnapshotTypeCopyOnWrite))
						mm := *models[h]
						mm.mem = append([]byte(nil), mm.mem...)
						models = append(models, &mm)
						e.Class("snapshot-while-others-work")
					} else {
						ubApply(e, own[h], models[h], op)
					}
					for k := range own {
						ubCompare(e, own[k], models[k], fmt.Sprintf("goroutine %d after op %d (%s on handle %d): handle %d", i, j, op.Op, h, k))
					}
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	if e.Failed() {
		return
	}
	for i := range ubs {
		ubCompare(e, ubs[i], ms[i], fmt.Sprintf("handle %d at the end", i))
	}
	e.NonTrivial()
}

func init() {
	register(&Property{
		ID:   "C02",
		Rule: "a case is a tree of up to 8 snapshots (copy-on-write and direct, or reference and direct) of one UBuf with generated operations on all handles, every handle compared with its own model after every operation; or the same with every handle used by its own goroutine; non-trivial: a write succeeded on a handle while at least one snapshot existed",
		Parts: []Part{
			part("isolation", 8000, func(t *rapid.T) SnapCase { return genSnapCase(t, false) }, runSnapCase),
			part("reference", 2500, func(t *rapid.T) SnapCase { return genSnapCase(t, true) }, runSnapCase),
			part("parallel", 3000, genSnapConc, runSnapConc),
			part("parallel-race", 1500, genSnapConc, runSnapConc).race(),
		},
	})
}
