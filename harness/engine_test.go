package verif

// The engine: every property is a set of parts, a part is a generator of
// JSON-serialisable cases (drawn from rapid, so they shrink) and a function
// that runs one case against the real ustack code and judges it with an
// explicit oracle.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"os/exec"

	"pgregory.net/rapid"
)

// Part is one generated check of a property.
type Part struct {
	Name   string
	Weight int  // cases per unit of scale
	Race   bool // only run in the -race binary
	Real   bool // uses real sockets and the real clock
	Few    bool // takes long because it waits: one case per shard, a few in the thorough tier
	Gen    func(*rapid.T) any
	Decode func([]byte) (any, error)
	Run    func(*Env, any)
}

func part[C any](name string, weight int, gen func(*rapid.T) C, run func(*Env, C)) Part {
	return Part{
		Name:   name,
		Weight: weight,
		Gen:    func(t *rapid.T) any { return gen(t) },
		Decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		Run: func(e *Env, c any) { run(e, c.(C)) },
	}
}

func (p Part) race() Part { p.Race = true; return p }
func (p Part) real() Part { p.Real = true; return p }
func (p Part) few() Part  { p.Few = true; return p }

// Property is a listed property and how its cases are judged non-trivial.
type Property struct {
	ID    string
	Rule  string
	Parts []Part
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// Env is what a running case reports to.
type Env struct {
	t          *testing.T
	mu         sync.Mutex
	msg        string
	classes    map[string]int
	nontrivial bool
	repeat     int // > 0 in replay mode
	cleanups   []func()
}

type failure struct{ msg string }

// Fail records the failure, the first one counts. Safe from any goroutine.
func (e *Env) Fail(format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.msg == "" {
		e.msg = fmt.Sprintf(format, a...)
	}
}

// Failed tells whether a failure was recorded
func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.msg != ""
}

// Fatal records the failure and stops the case; only from the case's own goroutine.
func (e *Env) Fatal(format string, a ...any) {
	e.Fail(format, a...)
	panic(failure{})
}

// Check stops the case if ok is false.
func (e *Env) Check(ok bool, format string, a ...any) {
	if !ok {
		e.Fatal(format, a...)
	}
}

// Class counts a case in a named class (once or more).
func (e *Env) Class(name string) {
	e.mu.Lock()
	e.classes[name]++
	e.mu.Unlock()
}

// ClassIf counts conditionally
func (e *Env) ClassIf(ok bool, name string) {
	if ok {
		e.Class(name)
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (e *Env) NonTrivial() {
	e.mu.Lock()
	e.nontrivial = true
	e.mu.Unlock()
}

// Cleanup registers fn to run after the case (real-clock cases)
func (e *Env) Cleanup(fn func()) { e.cleanups = append(e.cleanups, fn) }

func (e *Env) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				return
			}
			e.Fail("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// Go runs f in a goroutine whose panic is a failure of the case
func (e *Env) Go(f func()) {
	go e.guard(f)
}

// Bubble runs f with a fake clock and the ability to wait until every
// goroutine of the case is blocked. Goroutines that the stack leaves
// behind after f returned are expected.
func (e *Env) Bubble(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		finished := false
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if finished && strings.Contains(s, "main bubble goroutine has exited") {
					return
				}
				if strings.Contains(s, "deadlock") && !finished {
					e.Fail("the case got stuck: %s", s)
					return
				}
				if finished && strings.Contains(s, "deadlock") {
					return
				}
				e.Fail("bubble: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		synctest.Test(e.t, func(*testing.T) {
			e.guard(f)
			finished = true
		})
	}()
	<-done
}

// ---------------------------------------------------------------- worker

type caseFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Index    int             `json:"index"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type result struct {
	Property    string            `json:"property"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Parts       map[string]int    `json:"parts"`
	Classes     map[string]int    `json:"classes"`
	Distinct    []string          `json:"distinct"`
	Samples     []json.RawMessage `json:"samples"`
	Slowest     map[string]int    `json:"slowest_ms"`
	Truncated   bool              `json:"truncated"`
	Failure     *caseFile         `json:"failure"`
}

type worker struct {
	t        *testing.T
	prop     *Property
	out      string
	curFile  *os.File
	deadline time.Time
	limit    time.Duration

	mu        sync.Mutex
	started   time.Time
	running   bool
	shrinking bool

	isolate bool
	skip    int

	res  result
	seen map[string]bool
	best *caseFile
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// execute runs one case in this process
func (w *worker) execute(p *Part, c any) (*Env, string) {
	e := &Env{t: w.t, classes: map[string]int{}}

	b, _ := json.Marshal(c)
	h := sha256.Sum256(b)
	nameStyle.Store(int32(h[0] & 3))
	roleStyle.Store(int32(h[1] & 3))
	epStyle.Store(int32(h[2] & 3))

	w.mu.Lock()
	w.started = time.Now()
	w.running = true
	w.mu.Unlock()

	e.guard(func() { p.Run(e, c) })
	for i := len(e.cleanups) - 1; i >= 0; i-- {
		e.cleanups[i]()
	}

	w.mu.Lock()
	w.running = false
	w.mu.Unlock()

	e.mu.Lock()
	defer e.mu.Unlock()
	return e, e.msg
}

// watchdog ends the process when one case does not come to an end
func (w *worker) watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		w.mu.Lock()
		since := w.started
		hung := w.running && time.Since(w.started) > w.limit
		w.mu.Unlock()
		if hung {
			first := allStacks()
			if os.Getenv("VERIF_REPLAY") == "" {
				time.Sleep(10 * time.Second)
				w.mu.Lock()
				hung = w.running && since == w.started
				w.mu.Unlock()
				if !hung {
					continue // slow, not stuck
				}
			}
			second := allStacks()
			if l := lockedIn(first, second); l != "" && os.Getenv("VERIF_REPLAY") == "" {
				second = "LOCKED " + l + "\n" + second
			}
			os.WriteFile(filepath.Join(w.out, "hang"), []byte(second), 0o644)
			os.Exit(7)
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// lockedIn finds a goroutine of the tested code that waits for a lock in both dumps
func lockedIn(a, b string) string {
	waiting := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, g := range strings.Split(s, "\n\n") {
			head, body, _ := strings.Cut(g, "\n")
			if !strings.Contains(body, "ustack.") || !(strings.Contains(head, "Mutex.") || strings.Contains(head, "semacquire")) {
				continue
			}
			if f := strings.Fields(head); len(f) > 2 {
				m[f[0]+" "+f[1]] = true
			}
		}
		return m
	}
	wa, wb := waiting(a), waiting(b)
	for k := range wa {
		if wb[k] {
			return k
		}
	}
	return ""
}

func (w *worker) saveCurrent(cf *caseFile) {
	b, _ := json.Marshal(cf)
	hdr := make([]byte, 8)
	binary.BigEndian.PutUint64(hdr, uint64(len(b)))
	w.curFile.WriteAt(append(hdr, b...), 0)
}

// subprocess runs one case in a fresh process (used to shrink crashes)
func (w *worker) subprocess(cf *caseFile) string {
	dir, err := os.MkdirTemp(w.out, "iso")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "case.json")
	b, _ := json.Marshal(cf)
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(os.Args[0], "-test.run=TestWorker", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "VERIF_OUT="+dir, "VERIF_REPEAT=1", "VERIF_ISOLATE=", "GOTRACEBACK=single")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return ""
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 7 {
		return "the case does not come to an end"
	}
	s := string(out)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return "process died: " + s
}

func (w *worker) check(p *Part, n int, seed uint64) {
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", strconv.Itoa(envInt("VERIF_SHRINK_SECONDS", 15))+"s")

	index := 0
	sampled := 0
	failed := false
	w.t.Run(p.Name, func(t *testing.T) {
		w.mu.Lock()
		old := w.t
		w.t = t
		w.mu.Unlock()
		defer func() { w.t = old }()

		rapid.Check(t, func(rt *rapid.T) {
			c := p.Gen(rt)
			index++
			if !failed && time.Now().After(w.deadline) {
				w.res.Truncated = true
				return
			}
			if w.isolate && index < w.skip {
				return
			}
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			// run what the replay file will say, not what it was made from
			c, err = p.Decode(b)
			if err != nil {
				panic(err)
			}
			cf := &caseFile{Property: w.prop.ID, Part: p.Name, Index: index, Case: b}

			if w.isolate {
				if failed && time.Now().After(w.deadline) {
					return
				}
				if msg := w.subprocess(cf); msg != "" {
					failed = true
					cf.Message = msg
					w.best = cf
					rt.Fatalf("%s", "isolated failure")
				}
				return
			}

			w.saveCurrent(cf)
			began := time.Now()
			e, msg := w.execute(p, c)
			if !failed {
				if ms := int(time.Since(began) / time.Millisecond); ms > w.res.Slowest[p.Name] {
					w.res.Slowest[p.Name] = ms
				}
				w.res.Evaluations++
				w.res.Parts[p.Name]++
				for k, v := range e.classes {
					if v > 0 {
						w.res.Classes[p.Name+"/"+k]++
					}
				}
				if e.nontrivial {
					h := sha256.Sum256(append([]byte(p.Name), b...))
					k := fmt.Sprintf("%x", h[:8])
					if !w.seen[k] {
						w.seen[k] = true
						if sampled < 1 && len(b) < 6000 && index > 3 {
							sampled++
							sb, _ := json.Marshal(cf)
							w.res.Samples = append(w.res.Samples, sb)
						}
					}
				}
			}
			if msg != "" {
				failed = true
				cf.Message = msg
				w.best = cf
				line := msg
				if i := strings.IndexByte(line, '\n'); i >= 0 {
					line = line[:i]
				}
				rt.Fatalf("%s", line)
			}
		})
	})
}

func mix(a uint64, s string, i int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", a, s, i)))
	v := binary.BigEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

var realStdout *os.File

func TestMain(m *testing.M) {
	flag.Parse()
	realStdout = os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_KEEPOUT") == "" {
		os.Stdout = null
	}
	log.SetOutput(logOut{})
	os.Exit(m.Run())
}

// logOut keeps only what matters to tell why a process ended
type logOut struct{}

func (logOut) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "listen") || strings.Contains(string(p), "bind") {
		os.Stderr.Write(append([]byte("LOG-FATAL "), p...))
	}
	return len(p), nil
}

var _ io.Writer = logOut{}

func TestWorker(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("not started by the driver")
	}
	debug.SetMemoryLimit(int64(envInt("VERIF_MEM_MB", 2500)) << 20)

	replay := os.Getenv("VERIF_REPLAY")
	var rcf caseFile
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(b, &rcf); err != nil {
			t.Fatal(err)
		}
		id = rcf.Property
	}

	prop := properties[id]
	if prop == nil {
		t.Fatalf("unknown property %q", id)
	}
	cur, err := os.OpenFile(filepath.Join(out, "cur"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	w := &worker{
		t:        t,
		prop:     prop,
		out:      out,
		curFile:  cur,
		deadline: time.Now().Add(time.Duration(envInt("VERIF_SECONDS", 60)) * time.Second),
		limit:    time.Duration(envInt("VERIF_CASE_SECONDS", 40)) * time.Second,
		isolate:  os.Getenv("VERIF_ISOLATE") != "",
		skip:     envInt("VERIF_SKIP", 0),
		seen:     map[string]bool{},
	}
	scratchDir = out
	w.res = result{Property: id, Rule: prop.Rule, Parts: map[string]int{}, Classes: map[string]int{}, Slowest: map[string]int{}}
	go w.watchdog()

	if replay != "" {
		for i := range prop.Parts {
			p := &prop.Parts[i]
			if p.Name != rcf.Part {
				continue
			}
			for n := 0; n < envInt("VERIF_REPEAT", 20); n++ {
				c, err := p.Decode(rcf.Case)
				if err != nil {
					t.Fatal(err)
				}
				if _, msg := w.execute(p, c); msg != "" {
					fmt.Fprintf(realStdout, "REPRODUCED %s\n", msg)
					t.FailNow()
				}
			}
			return
		}
		t.Fatalf("unknown part %q", rcf.Part)
	}

	seed := uint64(envInt("VERIF_SHARD_SEED", 1))
	scale := envInt("VERIF_SCALE_PCT", 100)
	only := os.Getenv("VERIF_PART")
	wantRace := os.Getenv("VERIF_RACE") != ""
	var parts []*Part
	total := 0
	for i := range prop.Parts {
		p := &prop.Parts[i]
		if (only != "" && p.Name != only) || p.Race != wantRace {
			continue
		}
		parts = append(parts, p)
		total += p.Weight
	}
	for i, p := range parts {
		n := p.Weight * scale / 100
		if p.Few {
			n = scale / 1000
		}
		if n < 1 {
			n = 1
		}
		// the time that is left is shared between the parts that are left
		all := w.deadline
		left := time.Until(all)
		w.deadline = time.Now().Add(left / time.Duration(len(parts)-i))
		w.check(p, n, mix(seed, prop.ID+"/"+p.Name, 0))
		w.deadline = all
		if w.best != nil {
			break
		}
	}

	for k := range w.seen {
		w.res.Distinct = append(w.res.Distinct, k)
	}
	sort.Strings(w.res.Distinct)
	w.res.Failure = w.best
	b, _ := json.Marshal(w.res)
	os.WriteFile(filepath.Join(out, "result.json"), b, 0o644)
}

var scratchDir string
var serial int64

// unique returns a number that no other case of this process has
func unique() int64 { return atomic.AddInt64(&serial, 1) }
