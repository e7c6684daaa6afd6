package drive

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"runtime"
	"runtime/pprof"
	"sort"
	"sync"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"

	"verif/harness/lab"
)

type rWorker struct{ *lab.W }

type rWorkerRep struct{ *lab.W }

func (w rWorkerRep) Report() map[string]interface{} {
	return map[string]interface{}{"n": w.N}
}

type rCall struct {
	c      int
	op     string
	id     string
	abort  chan struct{}
	once   sync.Once
	cancel context.CancelFunc
	pl     []lab.Beh
	plN    int
	plN2   int // start calls made
	done   bool
}

type callKey struct{}

type rStart struct {
	n    int
	id   string
	ctx  context.Context
	rel  chan lab.Op
	open bool
}

type runnerDrv struct {
	*lab.Lab
	s       *lab.Script
	r       *worker.Runner
	mu      sync.Mutex
	calls   []*rCall
	keys    map[string]*rCall
	starts  []*rStart
	ws      map[string]*lab.W // latest delivered worker of an id
	lastEnd map[string]time.Time
	delay   time.Duration
	nW      int
}

func (d *runnerDrv) cls(err error) (string, int) {
	if err == nil {
		return "nil", 0
	}
	var e *lab.Err
	rank := 0
	cls := "restart"
	if errors.As(err, &e) {
		rank = e.Rank
		switch e.Cls {
		case "F":
			cls = "fatal"
		case "N":
			cls = "norestart"
		}
	} else if lab.Code(err) == "?" {
		// The error that the runner reports for a Goexit.
		switch d.s.Cfg["gx"] {
		case "F":
			cls = "fatal"
		case "N":
			cls = "norestart"
		}
	}
	if d.s.Cfg["fatal"] == "nil" {
		return "fatal", rank
	}
	if cls == "norestart" && d.s.Cfg["restart"] == "nil" {
		cls = "restart"
	}
	return cls, rank
}

func (d *runnerDrv) rank(err error) int {
	var e *lab.Err
	if errors.As(err, &e) {
		return e.Rank
	}
	return 0
}

func runRunner(l *lab.Lab, s *lab.Script) {
	d := &runnerDrv{Lab: l, s: s, keys: map[string]*rCall{}, ws: map[string]*lab.W{}, lastEnd: map[string]time.Time{}}
	p := worker.RunnerParams{Name: "verif", Clock: lab.Clock{}}
	if s.Cfg["fatal"] != "nil" {
		p.IsFatal = func(err error) bool { c, _ := d.cls(err); return c == "fatal" }
	}
	if s.Cfg["restart"] != "nil" {
		p.ShouldRestart = func(err error) bool { c, _ := d.cls(err); return c != "norestart" }
	}
	if s.Cfg["more"] == "rank" {
		p.MoreImportant = func(a, b error) bool { return d.rank(a) > d.rank(b) }
	}
	ms := s.CfgN["delay"]
	p.RestartDelay = time.Duration(ms) * time.Millisecond
	d.delay = p.RestartDelay
	if ms == 0 {
		d.delay = 3 * time.Second
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		panic(err)
	}
	d.r = r
	l.Emit(lab.Ev{"k": "cfg", "delay": int(d.delay / time.Microsecond), "more": s.Cfg["more"] == "rank"})
	l.Perturb(s.Mode)
	go d.do(lab.Op{O: "wait"})
	l.Settle()
	d.quiesce()
	for _, st := range s.Steps {
		runStep(d.Lab, st, d.do)
		l.Settle()
		d.quiesce()
	}
	// Shut down and release everything.
	d.do(lab.Op{O: "kill"})
	l.Settle()
	d.quiesce()
	for i := 0; i < 6; i++ {
		d.mu.Lock()
		starts := append([]*rStart(nil), d.starts...)
		d.mu.Unlock()
		for _, st := range starts {
			select {
			case st.rel <- lab.Op{Out: "ok"}:
			default:
			}
		}
		l.Settle()
		d.quiesce()
		d.mu.Lock()
		var ws []*lab.W
		for _, w := range d.ws {
			ws = append(ws, w)
		}
		d.mu.Unlock()
		for _, w := range ws {
			w.Exit(nil)
		}
		l.Settle()
		d.mu.Lock()
		busy := false
		for _, st := range d.starts {
			busy = busy || st.open
		}
		d.mu.Unlock()
		if !busy {
			break
		}
	}
	d.quiesce()
	// The finished runner still answers.
	runStep(d.Lab, lab.Step{T: [][]lab.Op{
		{{O: "start", ID: "a"}}, {{O: "stop", ID: "a"}}, {{O: "worker", ID: "a"}}, {{O: "remove", ID: "a"}}, {{O: "wait"}},
	}}, d.do)
	time.Sleep(d.delay + 10*time.Millisecond)
	l.Settle()
	d.quiesce()
	l.Perturb("")
	l.Freeze()
	d.mu.Lock()
	for _, c := range d.calls {
		if c.abort != nil {
			c.once.Do(func() { close(c.abort) })
		}
		if c.cancel != nil {
			c.cancel()
		}
	}
	d.mu.Unlock()
}

func runStep(l *lab.Lab, st lab.Step, do func(lab.Op)) {
	for _, th := range st.T {
		th := th
		if len(st.T) == 1 && len(th) == 1 && (th[0].O == "sleep" || th[0].O == "near") {
			do(th[0])
			return
		}
		go func() {
			for _, op := range th {
				if op.Off > 0 {
					time.Sleep(time.Duration(op.Off))
				}
				do(op)
			}
		}()
	}
}

func (d *runnerDrv) newCall(op, id string) *rCall {
	c := &rCall{op: op, id: id}
	d.Lab.Do(func() {})
	c.c = d.CallID()
	d.mu.Lock()
	d.calls = append(d.calls, c)
	d.mu.Unlock()
	return c
}

func (d *runnerDrv) ret(c *rCall, e lab.Ev) {
	e["k"] = "ret"
	e["c"] = c.c
	e["op"] = c.op
	e["id"] = c.id
	d.mu.Lock()
	c.done = true
	d.Emit(e)
	d.mu.Unlock()
}

func (d *runnerDrv) begin(c *rCall) {
	d.Emit(lab.Ev{"k": "call", "c": c.c, "op": c.op, "id": c.id})
}

func resOf(err error) lab.Ev {
	switch {
	case err == nil:
		return lab.Ev{"res": "ok", "err": "nil"}
	case errors.Is(err, worker.ErrDead):
		return lab.Ev{"res": "dead", "err": "-"}
	case errors.Is(err, worker.ErrAborted):
		return lab.Ev{"res": "aborted", "err": "-"}
	case jerrors.Is(err, jerrors.AlreadyExists):
		return lab.Ev{"res": "exists", "err": "-"}
	case jerrors.Is(err, jerrors.NotFound):
		return lab.Ev{"res": "notfound", "err": "-"}
	}
	return lab.Ev{"res": "ok", "err": lab.Code(err)}
}

func (d *runnerDrv) do(op lab.Op) {
	switch op.O {
	case "sleep":
		d.Doze(time.Duration(op.N)*time.Microsecond, d.delay/8, d.quiesce)
	case "near":
		d.mu.Lock()
		t, ok := d.lastEnd[op.ID]
		d.mu.Unlock()
		if ok {
			if x := time.Until(t.Add(d.delay)) - time.Duration(op.N)*time.Microsecond; x > 0 {
				d.Doze(x, x/4+time.Millisecond, d.quiesce)
			}
		}
	case "start":
		c := d.newCall("start", op.ID)
		c.pl = op.Pl
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), callKey{}, c.c))
		c.cancel = cancel
		d.setKey(op.K, c)
		d.begin(c)
		if op.E == "cancelled" {
			d.Emit(lab.Ev{"k": "cancel", "c": c.c})
			cancel()
		}
		err := d.r.StartWorker(ctx, op.ID, func(ctx context.Context) (worker.Worker, error) {
			return d.startFunc(ctx, c)
		})
		d.ret(c, resOf(err))
	case "stop":
		c := d.newCall("stop", op.ID)
		d.begin(c)
		d.ret(c, resOf(d.r.StopWorker(op.ID)))
	case "remove":
		c := d.newCall("remove", op.ID)
		c.abort = make(chan struct{})
		d.setKey(op.K, c)
		d.begin(c)
		d.ret(c, resOf(d.r.StopAndRemoveWorker(op.ID, c.abort)))
	case "worker":
		c := d.newCall("worker", op.ID)
		c.abort = make(chan struct{})
		d.setKey(op.K, c)
		d.begin(c)
		w, err := d.r.Worker(op.ID, c.abort)
		e := resOf(err)
		e["n"] = instOf(w)
		d.ret(c, e)
	case "abort":
		d.mu.Lock()
		c := d.keys[op.K]
		d.mu.Unlock()
		if c != nil && c.abort != nil {
			c.once.Do(func() {
				d.Emit(lab.Ev{"k": "abort", "c": c.c})
				close(c.abort)
			})
		}
	case "cancel":
		d.mu.Lock()
		c := d.keys[op.K]
		d.mu.Unlock()
		if c != nil && c.cancel != nil {
			d.Emit(lab.Ev{"k": "cancel", "c": c.c})
			c.cancel()
		}
	case "kill":
		c := d.newCall("kill", "")
		d.begin(c)
		d.r.Kill()
		d.ret(c, lab.Ev{"res": "ok", "err": "nil"})
	case "wait":
		c := d.newCall("wait", "")
		d.begin(c)
		err := d.r.Wait()
		d.ret(c, lab.Ev{"res": "ok", "err": lab.Code(err)})
	case "exit":
		d.mu.Lock()
		w := d.ws[op.ID]
		d.mu.Unlock()
		if w != nil && !w.Over() {
			err := d.NewErr(op.E)
			d.mu.Lock()
			d.lastEnd[op.ID] = time.Now()
			d.mu.Unlock()
			w.Exit(err)
		}
	case "rel":
		d.mu.Lock()
		var st *rStart
		for _, x := range d.starts {
			if x.id == op.ID && x.open {
				st = x
			}
		}
		d.mu.Unlock()
		if st != nil {
			select {
			case st.rel <- op:
			default:
			}
		}
	default:
		panic("unknown op " + op.O)
	}
}

func instOf(w worker.Worker) int {
	switch w := w.(type) {
	case rWorker:
		return w.N
	case rWorkerRep:
		return w.N
	}
	return 0
}

func (d *runnerDrv) setKey(k string, c *rCall) {
	if k == "" {
		return
	}
	d.mu.Lock()
	d.keys[k] = c
	d.mu.Unlock()
}

func (d *runnerDrv) startFunc(ctx context.Context, c *rCall) (worker.Worker, error) {
	b := lab.Beh{Out: "ok"}
	// The labels of the goroutine and of the context, and the values of the
	// context that was given to StartWorker.
	want := map[string]string{"id": c.id, "name": "verif", "type": "worker"}
	got := map[string]string{}
	pprof.ForLabels(ctx, func(k, v string) bool {
		got[k] = v
		return true
	})
	own := maps.Equal(got, want) && maps.Equal(lab.Labels(), want)
	d.mu.Lock()
	first := c.plN2 == 0
	c.plN2++
	vals := !first || ctx.Value(callKey{}) == c.c
	if c.plN < len(c.pl) {
		b = c.pl[c.plN]
		c.plN++
	}
	d.nW++
	n := d.nW
	st := &rStart{n: n, id: c.id, ctx: ctx, rel: make(chan lab.Op, 1), open: true}
	d.starts = append(d.starts, st)
	d.Emit(lab.Ev{"k": "startIn", "n": n, "id": c.id, "c": c.c, "lab": own, "val": vals})
	d.mu.Unlock()
	if b.Dur > 0 {
		time.Sleep(time.Duration(b.Dur))
	}
	out, e := b.Out, b.E
	if out == "hold" {
		var done <-chan struct{}
		if b.Ctx {
			done = ctx.Done()
		}
		select {
		case op := <-st.rel:
			out, e = op.Out, op.E
			if out == "" {
				out = "ok"
			}
		case <-done:
			out, e = "err", b.E
		}
	}
	if out == "err" && (e == "" || e == "nil") {
		e = "R1"
	}
	end := func(out string, err error) {
		cls, rank := d.cls(err)
		d.mu.Lock()
		st.open = false
		if out != "ok" {
			d.lastEnd[c.id] = time.Now()
		}
		d.Emit(lab.Ev{"k": "startOut", "n": n, "id": c.id, "c": c.c, "out": out, "err": lab.Code(err), "cls": cls, "rank": rank})
		d.mu.Unlock()
	}
	switch out {
	case "ok":
		w := lab.NewW(d.Lab, n, c.id, b)
		w.Cls = d.cls
		d.mu.Lock()
		d.ws[c.id] = w
		d.mu.Unlock()
		end("ok", nil)
		if n%3 == 0 {
			return rWorker{w}, nil
		}
		return rWorkerRep{w}, nil
	case "goexit":
		// The runner reports an error of its own.
		end("goexit", goexitErr)
		runtime.Goexit()
	}
	err := d.NewErr(e)
	end("err", err)
	return nil, err
}

var goexitErr = errors.New("runtime.Goexit called in running worker - probably inappropriate Assert")

// finished reports whether every call has returned, that of Wait among them.
func (d *runnerDrv) finished() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, c := range d.calls {
		if !c.done {
			return false
		}
	}
	return true
}

func (d *runnerDrv) quiesce() {
	var sn struct {
		names []string
		rep   map[string]interface{}
	}
	stuck := !d.Stable(func() {
		sn.names = d.r.WorkerNames()
		sn.rep = d.r.Report()
	})
	if stuck {
		sn.names, sn.rep = nil, nil
	}
	sort.Strings(sn.names)
	rep := []lab.Ev{}
	if ws, ok := sn.rep["workers"].(map[string]interface{}); ok {
		for id, x := range ws {
			m, _ := x.(map[string]interface{})
			e := lab.Ev{"id": id, "st": fmt.Sprint(m["state"]), "n": 0, "ls": d.Stamp(m["started"])}
			if r, ok := m["report"].(map[string]interface{}); ok {
				e["n"] = r["n"]
			}
			rep = append(rep, e)
		}
		sort.Slice(rep, func(i, j int) bool { return rep[i]["id"].(string) < rep[j]["id"].(string) })
	}
	left, all := 0, -1
	if d.finished() {
		left = lab.Left()
	} else if d.s.Cfg["all"] != "" {
		all = lab.Left()
	}
	names := sn.names
	if names == nil {
		names = []string{}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	pend := []int{}
	for _, c := range d.calls {
		if !c.done {
			pend = append(pend, c.c)
		}
	}
	ctx := []int{}
	for _, st := range d.starts {
		if st.open && st.ctx.Err() != nil {
			ctx = append(ctx, st.n)
		}
	}
	d.Emit(lab.Ev{"k": "q", "names": names, "rep": rep, "pend": pend, "ctxc": ctx, "stuck": stuck, "left": left, "all": all})
}
