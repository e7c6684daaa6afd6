package drive

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/juju/worker/v4"
	dt "github.com/juju/worker/v4/dependency/testing"
	"github.com/juju/worker/v4/workertest"
	gc "gopkg.in/check.v1"

	"verif/harness/lab"
)

// rec records the calls of Kill.
type rec struct {
	worker.Worker
	l *lab.Lab
	n int
}

func (r *rec) Kill() {
	r.l.Emit(lab.Ev{"k": "kcall", "n": r.n})
	r.Worker.Kill()
}

// recD has a Dead method.
type recD struct {
	*rec
	dead chan struct{}
}

func (r *recD) Dead() <-chan struct{} { return r.dead }

type hWorker struct {
	n    int
	w    worker.Worker
	lw   *lab.W
	fw   *workertest.ForeverWorker
	err  error
	dead chan struct{}
}

type helperDrv struct {
	*lab.Lab
	mu       sync.Mutex
	ws       map[string]*hWorker
	nW       int
	calls    map[int]bool
	watching int
	chans    []<-chan struct{}
}

type oneSuite struct{ f func(*gc.C) }

func (s *oneSuite) TestIt(c *gc.C) { s.f(c) }

// withC runs f with a gocheck context and reports whether the test failed.
func withC(f func(*gc.C)) bool {
	r := gc.Run(&oneSuite{f}, &gc.RunConf{Output: io.Discard})
	return !r.Passed()
}

func runHelper(l *lab.Lab, s *lab.Script) {
	d := &helperDrv{Lab: l, ws: map[string]*hWorker{}, calls: map[int]bool{}}
	l.Emit(lab.Ev{"k": "cfg"})
	l.Perturb(s.Mode)
	for _, st := range s.Steps {
		runStep(l, st, d.do)
		l.Settle()
		d.quiesce()
	}
	time.Sleep(70 * time.Second)
	l.Settle()
	d.quiesce()
	var ids []string
	d.mu.Lock()
	for id := range d.ws {
		ids = append(ids, id)
	}
	d.mu.Unlock()
	sort.Strings(ids)
	for _, id := range ids {
		for _, o := range []string{"kill", "rkill", "exit"} {
			d.do(lab.Op{O: o, ID: id})
		}
	}
	l.Settle()
	d.quiesce()
	l.Freeze()
	l.Perturb("")
}

func (d *helperDrv) code(h *hWorker, err error) string {
	if err == nil {
		return "nil"
	}
	want := h.err
	if h.lw != nil && h.lw.Over() {
		want = h.lw.Wait()
	}
	if err == want {
		return lab.Code(err)
	}
	return "other"
}

func (d *helperDrv) do(op lab.Op) {
	d.mu.Lock()
	h := d.ws[op.ID]
	d.mu.Unlock()
	if op.O == "new" {
		d.create(op)
		return
	}
	if op.O == "watch" {
		d.mu.Lock()
		d.watching++
		d.mu.Unlock()
		d.watch(op)
		d.mu.Lock()
		d.watching--
		d.mu.Unlock()
		return
	}
	if op.O == "sleep" {
		time.Sleep(time.Duration(op.N) * time.Millisecond)
		return
	}
	if h == nil && op.O != "nilor" {
		return
	}
	n := 0
	if h != nil {
		n = h.n
	}
	begin := func() int {
		c := d.CallID()
		d.mu.Lock()
		d.calls[c] = true
		d.Emit(lab.Ev{"k": "call", "c": c, "op": op.O, "n": n})
		d.mu.Unlock()
		return c
	}
	end := func(c int, e lab.Ev) {
		e["k"] = "ret"
		e["c"] = c
		e["op"] = op.O
		d.mu.Lock()
		delete(d.calls, c)
		d.Emit(e)
		d.mu.Unlock()
	}
	switch op.O {
	case "kill":
		h.w.Kill()
	case "rkill":
		if h.fw != nil {
			d.Emit(lab.Ev{"k": "rkill", "n": n})
			h.fw.ReallyKill()
		}
	case "exit":
		if h.lw != nil {
			h.lw.Exit(d.NewErr(op.E))
		}
	case "stop":
		c := begin()
		err := worker.Stop(h.w)
		end(c, lab.Ev{"err": d.code(h, err), "failed": false})
	case "wait":
		c := begin()
		err := h.w.Wait()
		end(c, lab.Ev{"err": d.code(h, err), "failed": false})
	case "dead":
		ch := worker.Dead(h.w)
		d.mu.Lock()
		d.chans = append(d.chans, ch)
		x := len(d.chans)
		d.mu.Unlock()
		d.Emit(lab.Ev{"k": "dch", "x": x, "n": n, "own": h.dead != nil, "same": h.dead != nil && ch == (<-chan struct{})(h.dead)})
	case "alive":
		c := begin()
		f := withC(func(c *gc.C) { workertest.CheckAlive(c, h.w) })
		end(c, lab.Ev{"err": "nil", "failed": f})
	case "killed", "checkkill":
		c := begin()
		var err error
		f := withC(func(c *gc.C) {
			if op.O == "killed" {
				err = workertest.CheckKilled(c, h.w)
			} else {
				err = workertest.CheckKill(c, h.w)
			}
		})
		end(c, lab.Ev{"err": d.code(h, err), "failed": f})
	case "clean":
		c := begin()
		f := withC(func(c *gc.C) { workertest.CleanKill(c, h.w) })
		end(c, lab.Ev{"err": "nil", "failed": f})
	case "dirty":
		c := begin()
		f := withC(func(c *gc.C) { workertest.DirtyKill(c, h.w) })
		end(c, lab.Ev{"err": "nil", "failed": f})
	case "nilor":
		c := begin()
		f := withC(func(c *gc.C) {
			if h == nil {
				workertest.CheckNilOrKill(c, nil)
			} else {
				workertest.CheckNilOrKill(c, h.w)
			}
		})
		end(c, lab.Ev{"err": "nil", "failed": f})
	default:
		panic("unknown op " + op.O)
	}
}

func (d *helperDrv) create(op lab.Op) {
	d.mu.Lock()
	d.nW++
	n := d.nW
	d.mu.Unlock()
	h := &hWorker{n: n, err: d.NewErr(op.E)}
	kind := op.K
	var w worker.Worker
	switch op.K {
	case "error":
		w = workertest.NewErrorWorker(h.err)
	case "dead":
		w = workertest.NewDeadWorker(h.err)
	case "forever":
		h.fw = workertest.NewForeverWorker(h.err)
		w = h.fw
	case "watcher":
		h.err = nil
		fw := workertest.NewFakeWatcher(2, 1)
		w = &fw
		kind = "error"
	default:
		b := lab.Beh{}
		if len(op.Pl) > 0 {
			b = op.Pl[0]
		}
		h.lw = lab.NewW(d.Lab, n, op.ID, b)
		h.lw.Info = func(err error) lab.Ev { return lab.Ev{"err": lab.Code(err)} }
		w = h.lw
		kind = "lab"
	}
	r := &rec{w, d.Lab, n}
	h.w = r
	switch op.M["dead"] {
	case "own":
		h.dead = make(chan struct{})
		h.w = &recD{r, h.dead}
		go func() {
			w.Wait()
			close(h.dead)
		}()
	case "nil":
		h.w = &recD{r, nil}
	}
	d.Emit(lab.Ev{"k": "new", "n": n, "kind": kind, "err": lab.Code(h.err)})
	d.mu.Lock()
	d.ws[op.ID] = h
	d.mu.Unlock()
}

func (d *helperDrv) quiesce() {
	d.mu.Lock()
	n := len(d.calls) + d.watching
	d.mu.Unlock()
	left := 0
	if n == 0 {
		left = lab.Left()
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	pend := []int{}
	for c := range d.calls {
		pend = append(pend, c)
	}
	sort.Ints(pend)
	cl := []int{}
	for i, c := range d.chans {
		if closed(c) {
			cl = append(cl, i+1)
		}
	}
	d.Emit(lab.Ev{"k": "q", "pend": pend, "closed": cl, "left": left})
}

// watch plays with a fake watcher of capacity N with M["pre"] changes loaded.
func (d *helperDrv) watch(op lab.Op) {
	pre, pings, take := 0, 0, 0
	fmt.Sscan(op.M["pre"], &pre)
	fmt.Sscan(op.M["pings"], &pings)
	fmt.Sscan(op.M["take"], &take)
	e := lab.Ev{"k": "watch", "cap": op.N, "pre": pre, "pings": pings, "panic": false, "got": 0, "took": 0, "blocked": 0, "closed": false, "stop": "nil", "err": "nil", "wait": "nil"}
	func() {
		defer func() {
			if x := recover(); x != nil {
				e["panic"] = true
			}
		}()
		w := workertest.NewFakeWatcher(op.N, pre)
		drain := func(max int) (n int, closed bool) {
			for n < max {
				select {
				case _, ok := <-w.Changes():
					if !ok {
						return n, true
					}
					n++
				default:
					return n, false
				}
			}
			return n, false
		}
		took, _ := drain(take)
		e["took"] = took
		var mu sync.Mutex
		left := pings
		for i := 0; i < pings; i++ {
			go func() {
				w.Ping()
				mu.Lock()
				left--
				mu.Unlock()
			}()
		}
		time.Sleep(time.Millisecond)
		mu.Lock()
		e["blocked"] = left
		mu.Unlock()
		got := 0
		for {
			n, _ := drain(1)
			if n == 0 {
				break
			}
			got++
			time.Sleep(time.Microsecond)
		}
		e["got"] = got
		if err := w.Stop(); err != nil {
			e["stop"] = "err"
		}
		if err := w.Err(); err != nil {
			e["err"] = "err"
		}
		w.Close()
		_, cl := drain(1)
		e["closed"] = cl
		w.Kill()
		if err := w.Wait(); err != nil {
			e["wait"] = "err"
		}
	}()
	d.Emit(e)
}

var helperKeys = []string{"new", "kill", "rkill", "exit", "stop", "wait", "dead", "alive", "killed", "checkkill", "clean", "dirty", "nilor", "watch", "sleep"}

func genHelper(r *rand.Rand, focus string) *lab.Script {
	s := &lab.Script{Comp: "helper", Seed: r.Int63(), Mode: modes[r.Intn(len(modes))], Cfg: map[string]string{}}
	w := map[string]int{"new": 6, "kill": 3, "rkill": 2, "exit": 4, "stop": 3, "wait": 3, "dead": 5, "alive": 2, "killed": 2, "checkkill": 2, "clean": 2, "dirty": 2, "nilor": 1, "watch": 1, "sleep": 2}
	kinds := []string{"lab", "lab", "error", "dead", "forever", "watcher"}
	if focus == "C27" {
		w = map[string]int{"new": 8, "kill": 3, "rkill": 2, "exit": 6, "stop": 8, "wait": 2, "dead": 12, "sleep": 1}
	}
	var ids []string
	op := func() lab.Op {
		k := wpick(r, helperKeys, w)
		if len(ids) == 0 {
			k = "new"
		}
		o := lab.Op{O: k}
		if k != "sleep" {
			o.Off = r.Intn(3000)
		}
		if k == "new" {
			o.ID = fmt.Sprintf("h%d", len(ids))
			ids = append(ids, o.ID)
			o.K = kinds[r.Intn(len(kinds))]
			o.E = pick(r, "nil", "E1", "E1")
			o.M = map[string]string{"dead": pick(r, "", "", "own", "nil")}
			o.Pl = []lab.Beh{{Kill: pick(r, "now", "slow", "delay"), KE: pick(r, "nil", "E1")}}
			return o
		}
		o.ID = ids[r.Intn(len(ids))]
		switch k {
		case "exit":
			o.E = pick(r, "nil", "E1")
		case "nilor":
			if r.Intn(3) == 0 {
				o.ID = ""
			}
		case "watch":
			o.N = r.Intn(5)
			o.M = map[string]string{"pre": fmt.Sprint(r.Intn(6)), "pings": fmt.Sprint(r.Intn(5)), "take": fmt.Sprint(r.Intn(4))}
		case "sleep":
			o.N = []int{1, 20, 60, 1000, 4000, 9000, 11000}[r.Intn(7)]
		}
		return o
	}
	for i := 3 + r.Intn(9); i > 0; i-- {
		var st lab.Step
		for t := 1 + r.Intn(3); t > 0; t-- {
			th := []lab.Op{op()}
			if r.Intn(3) == 0 {
				th = append(th, op())
			}
			st.T = append(st.T, th)
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

// The stub getter.

func genStub(r *rand.Rand, focus string) *lab.Script {
	return &lab.Script{Comp: "stub", Seed: r.Int63(), Cfg: map[string]string{}}
}

type hInt int
type hErr struct{ s string }

func (e hErr) Error() string { return e.s }

type hIface interface{ Foo() int }
type hFoo struct{ n int }

func (f *hFoo) Foo() int { return f.n }

func runStub(l *lab.Lab, s *lab.Script) {
	r := rand.New(rand.NewSource(s.Seed))
	values := func() any {
		switch r.Intn(10) {
		case 0:
			return r.Intn(100) + 1
		case 1:
			return fmt.Sprint("s", r.Intn(100))
		case 2:
			return hInt(r.Intn(100) + 1)
		case 3:
			return 2.5 + float64(r.Intn(9))
		case 4:
			return &hFoo{r.Intn(100)}
		case 5:
			return []byte("bytes")
		case 6:
			return struct{ A int }{r.Intn(9)}
		case 7:
			return func() int { return 7 }
		case 8:
			return nil
		}
		return hErr{"as value"}
	}
	targets := []func() any{
		func() any { return new(int) },
		func() any { return new(string) },
		func() any { return new(hInt) },
		func() any { return new(float64) },
		func() any { return new(hIface) },
		func() any { return new(*hFoo) },
		func() any { return new(any) },
		func() any { return new(error) },
		func() any { return new([]byte) },
		func() any { return new(func() int) },
	}
	for round := 0; round < 12; round++ {
		type resource struct {
			outs []any
			err  error
		}
		model := map[string]resource{}
		rs := dt.StubResources{}
		raw := map[string]interface{}{}
		how := pick(r, "raw", "res", "new")
		for i := 0; i < 4; i++ {
			name := fmt.Sprint("r", i)
			var m resource
			switch k := r.Intn(5); {
			case k == 0 && how == "raw":
				m.err = hErr{"configured"}
				raw[name] = m.err
			case how == "raw" && k < 3:
				v := values()
				if _, ok := v.(error); ok {
					v = 3
				}
				m.outs = []any{v}
				raw[name] = v
			case how == "raw":
				for n := r.Intn(4); n > 0; n-- {
					m.outs = append(m.outs, values())
				}
				raw[name] = append([]interface{}{}, m.outs...)
			default:
				for n := r.Intn(4); n > 0; n-- {
					m.outs = append(m.outs, values())
				}
				if how == "new" {
					rs[name] = dt.NewStubResource(m.outs...)
				} else {
					if k < 2 {
						m.err = hErr{"configured"}
					}
					rs[name] = dt.StubResource{Outputs: m.outs, Error: m.err}
				}
			}
			model[name] = m
		}
		get := rs.Getter().Get
		if how == "raw" {
			if r.Intn(2) == 0 {
				get = dt.StubGetter(raw).Get
			} else {
				get = dt.NewStubResources(raw).Getter().Get
			}
		}
		for k := 0; k < 10; k++ {
			name := fmt.Sprint("r", r.Intn(5))
			m, found := model[name]
			var out any
			ptr := "ptr"
			var before any
			switch r.Intn(8) {
			case 0:
				ptr = "nil"
			case 1:
				ptr = "non"
				out = pick(r, "notapointer")
			default:
				out = targets[r.Intn(len(targets))]()
				before = reflect.ValueOf(out).Elem().Interface()
			}
			conv, nils := []bool{}, []bool{}
			for _, v := range m.outs {
				nils = append(nils, v == nil)
				conv = append(conv, ptr == "ptr" && v != nil && reflect.TypeOf(v).ConvertibleTo(reflect.TypeOf(out).Elem()))
			}
			e := lab.Ev{"k": "get", "found": found, "cerr": m.err != nil, "ptr": ptr, "conv": conv, "nils": nils, "res": "ok", "set": []int{}, "touched": false}
			func() {
				defer func() {
					if x := recover(); x != nil {
						e["res"] = "panic"
					}
				}()
				err := get(name, out)
				switch {
				case err == nil:
				case m.err != nil && errors.Is(err, m.err):
					e["res"] = "same"
				default:
					e["res"] = "err"
				}
			}()
			if ptr == "ptr" {
				after := reflect.ValueOf(out).Elem()
				set := []int{}
				for i, v := range m.outs {
					if conv[i] && same(reflect.ValueOf(v).Convert(after.Type()).Interface(), after.Interface()) {
						set = append(set, i+1)
					}
				}
				e["set"] = set
				e["touched"] = !same(before, after.Interface())
			}
			l.Emit(e)
		}
	}
	l.Freeze()
}

func same(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Func && vb.Kind() == reflect.Func {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}
