// Package lab holds what the drivers of all components share: the event log,
// the schedule perturbation, the script format and the scripted workers.
package lab

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/juju/worker/v4/verifsched"
)

// Ev is one recorded event.
type Ev map[string]any

// Op is one operation of a script.
type Op struct {
	O   string            `json:"o"`             // operation
	ID  string            `json:"id,omitempty"`  // worker / manifold
	K   string            `json:"k,omitempty"`   // label of a call, or other argument
	E   string            `json:"e,omitempty"`   // error class
	Out string            `json:"out,omitempty"` // outcome of a start call
	N   int               `json:"n,omitempty"`
	Off int               `json:"off,omitempty"` // virtual ns to wait before the operation
	Pl  []Beh             `json:"pl,omitempty"`
	In  []string          `json:"in,omitempty"`
	M   map[string]string `json:"m,omitempty"`
}

// Off2 is the time the work function takes.
func (o Op) Off2() int {
	n := 0
	fmt.Sscan(o.M["dur"], &n)
	return n
}

// Beh says how one start call behaves.
type Beh struct {
	Out  string `json:"out"`            // ok, err, goexit, hold
	E    string `json:"e,omitempty"`    // error class for err
	Kill string `json:"kill,omitempty"` // now, slow, delay
	KE   string `json:"ke,omitempty"`   // error class with which a killed worker ends
	Dur  int    `json:"dur,omitempty"`  // virtual ns spent in the start call
	Ctx  bool   `json:"ctx,omitempty"`  // a held start call returns when its context is cancelled
}

// Step is a set of concurrent threads of operations, followed by settling.
type Step struct {
	T [][]Op `json:"t"`
}

// Script is one scenario.
type Script struct {
	Comp  string            `json:"comp"`
	Seed  int64             `json:"seed"`
	Mode  string            `json:"mode"`
	Src   string            `json:"src,omitempty"`
	Cfg   map[string]string `json:"cfg"`
	CfgN  map[string]int    `json:"cfgn,omitempty"`
	Steps []Step            `json:"steps"`
}

// Lab records events.
type Lab struct {
	mu     sync.Mutex
	evs    []Ev
	t0     time.Time
	rmu    sync.Mutex
	rng    *rand.Rand
	nErr   int
	nW     int
	nC     int
	over   bool
	frozen bool
}

// MaxEvents bounds a trace; more than that is a runaway.
const MaxEvents = 4000

// New returns a Lab; it must be called inside the bubble.
func New(seed int64) *Lab {
	return &Lab{t0: time.Now(), rng: rand.New(rand.NewSource(seed))}
}

// Now returns virtual microseconds since the beginning.
func (l *Lab) Now() int { return int(time.Since(l.t0) / time.Microsecond) }

// Emit appends an event.
func (l *Lab) Emit(e Ev) {
	l.mu.Lock()
	l.emitLocked(e)
	l.mu.Unlock()
}

func (l *Lab) emitLocked(e Ev) {
	if l.frozen {
		return
	}
	e["at"] = l.Now()
	if len(l.evs) >= MaxEvents {
		if !l.over {
			l.over = true
			if Runaway != nil {
				Runaway(l.evs)
			}
		}
		return
	}
	l.evs = append(l.evs, e)
}

// Runaway is called when a trace grows beyond MaxEvents.
var Runaway func([]Ev)

// Count returns the number of events so far.
func (l *Lab) Count() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.evs)
}

// Stable takes a snapshot at rest: it runs f on a goroutine of its own, and
// again if anything happened shortly before or meanwhile.  It reports whether f finished.
func (l *Lab) Stable(f func()) bool {
	for i := 0; ; i++ {
		n := l.Count()
		l.Settle()
		if l.Count() != n && i <= 20 {
			continue
		}
		ch := make(chan struct{})
		go func() {
			f()
			close(ch)
		}()
		l.Settle()
		select {
		case <-ch:
		default:
			return false
		}
		if l.Count() == n || i > 20 {
			return true
		}
	}
}

// Doze lets d pass, calling f whenever something happened and came to rest.
func (l *Lab) Doze(d, slice time.Duration, f func()) {
	n := l.Count()
	end := time.Now().Add(d)
	for {
		left := time.Until(end)
		if left <= 0 {
			return
		}
		time.Sleep(min(left, slice))
		synctest.Wait()
		if l.Count() != n {
			f()
			n = l.Count()
		}
	}
}

// Left counts the goroutines of this bubble that execute something of the code
// under test, or were started by it and have not ended.
func Left() int {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(string(buf), "\n\n")
	bubble := bubbleRE.FindString(gs[0])
	n := 0
	for _, g := range gs[1:] {
		head, _, _ := strings.Cut(g, "\n")
		if bubble != "" && bubbleRE.FindString(head) == bubble && codeRE.MatchString(g) {
			n++
		}
	}
	return n
}

var (
	bubbleRE = regexp.MustCompile(`synctest bubble \d+\]`)
	codeRE   = regexp.MustCompile(`(?m)^(created by )?github\.com/juju/worker/v4(/dependency|/catacomb|/workertest)?\.`)
)

// Labels returns the profile labels of the calling goroutine.
// (Needs GODEBUG=tracebacklabels=1.)
func Labels() map[string]string {
	buf := make([]byte, 1024)
	head, _, _ := strings.Cut(string(buf[:runtime.Stack(buf, false)]), "\n")
	m := map[string]string{}
	i := strings.Index(head, "{")
	if i < 0 {
		return m
	}
	for _, kv := range strings.Split(strings.TrimSuffix(head[i+1:], "}:"), ", ") {
		k, v, _ := strings.Cut(kv, ": ")
		if u, err := strconv.Unquote(v); err == nil {
			v = u
		}
		m[k] = v
	}
	return m
}

// Freeze ends the recording.
func (l *Lab) Freeze() { l.Do(func() { l.frozen = true }) }

// Events returns the recorded events.
func (l *Lab) Events() []Ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Ev(nil), l.evs...)
}

// Do runs f with the log locked.
func (l *Lab) Do(f func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	f()
}

// Rand returns a random number below n.
func (l *Lab) Rand(n int) int {
	if n <= 0 {
		return 0
	}
	l.rmu.Lock()
	defer l.rmu.Unlock()
	return l.rng.Intn(n)
}

// Perturb installs the schedule perturbation of the given mode.
func (l *Lab) Perturb(mode string) {
	switch mode {
	case "light":
		verifsched.Hook = func() {
			if l.Rand(12) == 0 {
				time.Sleep(time.Duration(l.Rand(1500)))
			}
		}
	case "heavy":
		verifsched.Hook = func() {
			if l.Rand(3) == 0 {
				time.Sleep(time.Duration(l.Rand(3000)))
			}
		}
	case "pct":
		// A few long delays at random points.
		verifsched.Hook = func() {
			switch l.Rand(40) {
			case 0:
				time.Sleep(time.Duration(5000 + l.Rand(60000)))
			case 1, 2, 3:
				time.Sleep(time.Duration(l.Rand(800)))
			}
		}
	default:
		verifsched.Hook = nil
	}
}

// SettleTime is the virtual time after which everything that is not waiting for
// a timer of the code under test has come to rest.
const SettleTime = 2 * time.Millisecond

// Settle waits until nothing can happen any more without time passing.
func (l *Lab) Settle() {
	time.Sleep(SettleTime)
	synctest.Wait()
}

// Err is an error of a known class.
type Err struct {
	Code string
	Cls  string
	Rank int
	Wrap error
	Deep bool
}

// Cause is what juju's errors.Cause looks at; nil means that the error is its
// own cause.
func (e *Err) Cause() error {
	if e.Deep {
		return e.Wrap
	}
	return nil
}

// Unwrap returns the wrapped error, if any.
func (e *Err) Unwrap() error { return e.Wrap }

func (e *Err) Error() string { return e.Code }

// NewErr returns a fresh error of the class ("" or "nil" give nil).  A digit
// at the end of the class is the rank.
func (l *Lab) NewErr(cls string) error {
	if cls == "" || cls == "nil" {
		return nil
	}
	l.mu.Lock()
	l.nErr++
	n := l.nErr
	l.mu.Unlock()
	rank := 0
	if c := cls[len(cls)-1]; c >= '0' && c <= '9' {
		rank = int(c - '0')
		cls = cls[:len(cls)-1]
	}
	if cls == "X" {
		return Plain[rank%len(Plain)]
	}
	e := &Err{Code: fmt.Sprintf("%s%d-%d", cls, rank, n), Cls: cls, Rank: rank}
	if x := l.Rand(4 * len(Plain)); x < len(Plain) {
		e.Wrap = Plain[x]
		e.Deep = n%2 == 0
	}
	return e
}

// Plain errors are well known values; to the code under test they are errors
// like any other.  Their code is their text.
var Plain = []error{context.Canceled, context.DeadlineExceeded, io.EOF}

// IsPlain reports whether err is one of Plain.
func IsPlain(err error) bool {
	for _, p := range Plain {
		if err == p {
			return true
		}
	}
	return false
}

// Code returns the code of an error.
func Code(err error) string {
	if err == nil {
		return "nil"
	}
	var e *Err
	if errors.As(err, &e) {
		return e.Code
	}
	for _, p := range Plain {
		if errors.Is(err, p) {
			return p.Error()
		}
	}
	return "?"
}

// Stamp converts a time shown in a report, which is cut to whole seconds, to
// the time of an event; -1 stands for no time.
func (l *Lab) Stamp(x interface{}) int {
	s, _ := x.(string)
	t, err := time.ParseInLocation("2006-01-02 15:04:05", s, time.UTC)
	if err != nil {
		return -1
	}
	return int(t.Sub(l.t0.UTC().Truncate(time.Second)) / time.Microsecond)
}

// ID returns a fresh call number.
func (l *Lab) CallID() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.nC++
	return l.nC
}

// W is a scripted worker.
type W struct {
	L    *Lab
	N    int
	ID   string
	B    Beh
	Cls  func(error) (string, int)
	Info func(error) Ev
	Make func(string) error
	Rep  bool
	done chan struct{}
	err  error
	over bool
	kill bool
}

// NewW returns a scripted worker with instance number n.
func NewW(l *Lab, n int, id string, b Beh) *W {
	return &W{L: l, N: n, ID: id, B: b, done: make(chan struct{})}
}

// Kill implements worker.Worker.
func (w *W) Kill() {
	first := false
	w.L.Do(func() {
		if !w.over && !w.kill {
			first = true
			w.kill = true
			w.L.emitLocked(Ev{"k": "kill", "n": w.N, "id": w.ID})
		}
	})
	if !first {
		return
	}
	switch w.B.Kill {
	case "slow":
	case "delay":
		go func() {
			time.Sleep(time.Duration(w.L.Rand(4000)))
			w.Exit(w.newErr(w.B.KE))
		}()
	default:
		w.Exit(w.newErr(w.B.KE))
	}
}

func (w *W) newErr(cls string) error {
	if w.Make != nil {
		return w.Make(cls)
	}
	return w.L.NewErr(cls)
}

// Killed reports whether the worker was killed.
func (w *W) Killed() bool {
	w.L.mu.Lock()
	defer w.L.mu.Unlock()
	return w.kill
}

// Over reports whether the worker has ended.
func (w *W) Over() bool {
	w.L.mu.Lock()
	defer w.L.mu.Unlock()
	return w.over
}

// Exit makes the worker end with the error.
func (w *W) Exit(err error) {
	w.L.mu.Lock()
	defer w.L.mu.Unlock()
	if w.over {
		return
	}
	w.over = true
	w.err = err
	var e Ev
	if w.Info != nil {
		e = w.Info(err)
	} else {
		cls, rank := w.Cls(err)
		e = Ev{"err": Code(err), "cls": cls, "rank": rank}
	}
	e["k"] = "exit"
	e["n"] = w.N
	e["id"] = w.ID
	w.L.emitLocked(e)
	close(w.done)
}

// Wait implements worker.Worker.
func (w *W) Wait() error {
	<-w.done
	return w.err
}

// Done is closed when the worker has ended.
func (w *W) Done() <-chan struct{} { return w.done }

// Clock is the bubble's clock.
type Clock struct{}

func (Clock) Now() time.Time                         { return time.Now() }
func (Clock) After(d time.Duration) <-chan time.Time { return time.After(d) }
