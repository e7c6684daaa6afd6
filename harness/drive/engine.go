package drive

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"

	"verif/harness/lab"
)

type eWorkerRep struct{ *lab.W }

func (w eWorkerRep) Report() map[string]interface{} { return map[string]interface{}{"n": w.N} }

type eWorker struct{ *lab.W }

type eInst struct {
	c    int
	op   lab.Op
	plN  int
	done bool
	filt dependency.FilterFunc
}

type eStart struct {
	n    int
	id   string
	ctx  context.Context
	rel  chan lab.Op
	open bool
	get  dependency.Getter
}

type engineDrv struct {
	*lab.Lab
	s      *lab.Script
	e      *dependency.Engine
	mu     sync.Mutex
	calls  map[int]bool // pending
	starts []*eStart
	ws     map[string]*lab.W
	selfN  int
	met    map[string]int
	nW     int
	uni    []string
}

// got is what an output function hands out.
type got struct {
	of string
	n  int
}

// probe finds out whether an output function is reached.
type probe struct{ hit bool }

var errOut = &lab.Err{Code: "O", Cls: "O"}

func baseCls(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, dependency.ErrMissing):
		return "M"
	case errors.Is(err, dependency.ErrBounce):
		return "B"
	case errors.Is(err, dependency.ErrUninstall):
		return "U"
	}
	var e *lab.Err
	if errors.As(err, &e) {
		return e.Cls
	}
	if lab.IsPlain(err) {
		return "E"
	}
	return "?"
}

func eCode(err error) string {
	if err == nil {
		return "nil"
	}
	var e *lab.Err
	if errors.As(err, &e) {
		return e.Code
	}
	switch c := baseCls(err); c {
	case "M", "B", "U":
		return c
	}
	return lab.Code(err)
}

// mk makes an error of the class: nil, E, Fn, M, B, U; with w or a appended it
// is wrapped.
func (d *engineDrv) mk(cls string) error {
	if cls == "" || cls == "nil" {
		return nil
	}
	sent := map[byte]error{'M': dependency.ErrMissing, 'B': dependency.ErrBounce, 'U': dependency.ErrUninstall}
	if s := sent[cls[0]]; s != nil {
		if len(cls) == 1 {
			return s
		}
		e := d.NewErr(cls[:1] + "1").(*lab.Err)
		e.Wrap = s
		switch cls[1] {
		case 'a':
			return jerrors.Annotate(e, "annotated")
		case 'f':
			return fmt.Errorf("formatted: %w", e)
		case 't':
			return jerrors.Trace(s)
		}
		return e
	}
	return d.NewErr(cls)
}

func filterFor(m string) dependency.FilterFunc {
	if m == "" {
		return nil
	}
	table := map[string]string{}
	for _, p := range strings.Split(m, ",") {
		kv := strings.SplitN(p, ">", 2)
		table[kv[0]] = kv[1]
	}
	return func(err error) error {
		to, ok := table[baseCls(err)]
		if !ok || baseCls(err) == "?" {
			return err
		}
		switch to {
		case "nil":
			return nil
		}
		rank := 0
		var le *lab.Err
		if errors.As(err, &le) {
			rank = le.Rank
		}
		e := &lab.Err{Code: eCode(err) + "~", Cls: to, Rank: rank}
		switch to {
		case "M":
			e.Wrap = dependency.ErrMissing
		case "B":
			e.Wrap = dependency.ErrBounce
		case "U":
			e.Wrap = dependency.ErrUninstall
		}
		return e
	}
}

func (d *engineDrv) fatal(err error) bool {
	if err == nil {
		return false
	}
	if d.s.Cfg["fatal"] == "any" {
		return true
	}
	return baseCls(err) == "F"
}

// info describes the end of a worker or start call.
func (d *engineDrv) info(filt dependency.FilterFunc) func(error) lab.Ev {
	return func(err error) lab.Ev {
		ferr := err
		if filt != nil {
			ferr = filt(err)
		}
		raw := baseCls(err)
		if raw != "nil" && raw != "M" {
			raw = "E"
		}
		cls := baseCls(ferr)
		if d.fatal(ferr) {
			cls = "fatal"
		} else if cls == "F" || cls == "?" || cls == "O" {
			cls = "E"
		}
		rank := 0
		var e *lab.Err
		if errors.As(ferr, &e) {
			rank = e.Rank
		}
		return lab.Ev{"err": eCode(err), "ferr": eCode(ferr), "raw": raw, "cls": cls, "rank": rank}
	}
}

// RecordStart implements dependency.Metrics.
func (d *engineDrv) RecordStart(name string) {
	d.mu.Lock()
	d.met[name]++
	d.mu.Unlock()
}

type nopLogger struct{}

func (nopLogger) Tracef(string, ...interface{}) {}
func (nopLogger) Debugf(string, ...interface{}) {}
func (nopLogger) Infof(string, ...interface{})  {}
func (nopLogger) Errorf(string, ...interface{}) {}

func rankOf(err error) int {
	var e *lab.Err
	if errors.As(err, &e) {
		return e.Rank
	}
	return 0
}

func runEngine(l *lab.Lab, s *lab.Script) {
	d := &engineDrv{Lab: l, s: s, calls: map[int]bool{}, ws: map[string]*lab.W{}, met: map[string]int{}}
	d.uni = []string{"a", "b", "c", "d", "e", "zz"}
	if s.Cfg["names"] != "" {
		d.uni = append(strings.Split(s.Cfg["names"], ","), "e", "zz")
	}
	ms := func(k string) time.Duration { return time.Duration(s.CfgN[k]) * time.Millisecond }
	cfg := dependency.EngineConfig{
		IsFatal: d.fatal,
		WorstError: func(a, b error) error {
			switch s.Cfg["worst"] {
			case "first":
				if b != nil {
					return b
				}
				return a
			case "last":
				return a
			}
			if b == nil || rankOf(a) > rankOf(b) {
				return a
			}
			return b
		},
		ErrorDelay:       ms("err"),
		BounceDelay:      ms("bounce"),
		BackoffFactor:    float64(s.CfgN["factor"]),
		BackoffResetTime: ms("reset"),
		MaxDelay:         ms("max"),
		Clock:            lab.Clock{},
		Metrics:          d,
		Logger:           nopLogger{},
	}
	if s.Cfg["filter"] != "" {
		cfg.Filter = func(err error) error {
			if err == nil {
				return nil
			}
			return &lab.Err{Code: eCode(err) + "!"}
		}
	}
	e, err := dependency.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	d.e = e
	us := func(k string) int { return s.CfgN[k] * 1000 }
	l.Emit(lab.Ev{"k": "cfg", "err": us("err"), "bounce": us("bounce"), "factor": s.CfgN["factor"], "reset": us("reset"),
		"max": us("max"), "worst": s.Cfg["worst"], "filter": s.Cfg["filter"] != ""})
	l.Perturb(s.Mode)
	go d.do(lab.Op{O: "wait"})
	l.Settle()
	d.quiesce()
	for _, st := range s.Steps {
		runStep(d.Lab, st, d.do)
		l.Settle()
		d.quiesce()
	}
	d.do(lab.Op{O: "kill"})
	l.Settle()
	d.quiesce()
	for i := 0; i < 6; i++ {
		d.mu.Lock()
		starts := append([]*eStart(nil), d.starts...)
		d.mu.Unlock()
		for _, st := range starts {
			select {
			case st.rel <- lab.Op{Out: "ok"}:
			default:
			}
		}
		l.Settle()
		d.quiesce()
		d.mu.Lock()
		var ws []*lab.W
		for _, w := range d.ws {
			ws = append(ws, w)
		}
		busy := false
		for _, st := range d.starts {
			busy = busy || st.open
		}
		d.mu.Unlock()
		sort.Slice(ws, func(i, j int) bool { return ws[i].N < ws[j].N })
		for _, w := range ws {
			w.Exit(nil)
		}
		l.Settle()
		if !busy {
			break
		}
	}
	d.quiesce()
	runStep(d.Lab, lab.Step{T: [][]lab.Op{{{O: "install", ID: "e"}}, {{O: "wait"}}}}, d.do)
	time.Sleep(ms("err") + ms("bounce") + 10*time.Millisecond)
	l.Settle()
	d.quiesce()
	l.Perturb("")
	l.Freeze()
}

func (d *engineDrv) begin(e lab.Ev) int {
	c := d.CallID()
	e["k"] = "call"
	e["c"] = c
	d.mu.Lock()
	d.calls[c] = true
	d.Emit(e)
	d.mu.Unlock()
	return c
}

func (d *engineDrv) end(c int, e lab.Ev) {
	e["k"] = "ret"
	e["c"] = c
	d.mu.Lock()
	delete(d.calls, c)
	d.Emit(e)
	d.mu.Unlock()
}

func nz(xs []string) []string {
	if xs == nil {
		return []string{}
	}
	return xs
}

func (d *engineDrv) do(op lab.Op) {
	switch op.O {
	case "sleep":
		slice := time.Duration(d.s.CfgN["bounce"]) * time.Millisecond / 4
		if slice < 5*time.Millisecond {
			slice = 5 * time.Millisecond
		}
		d.Doze(time.Duration(op.N)*time.Microsecond, slice, d.quiesce)
	case "install":
		inst := &eInst{op: op}
		m := d.manifold(inst)
		if op.K == "self" {
			op.In = nil
		}
		inst.c = d.begin(lab.Ev{"op": "install", "id": op.ID, "in": nz(op.In), "out": m.Output != nil, "self": op.K == "self"})
		d.mu.Lock()
		d.mu.Unlock()
		err := d.e.Install(op.ID, m)
		res := "ok"
		if err != nil {
			res = "err"
		}
		d.end(inst.c, lab.Ev{"op": "install", "id": op.ID, "res": res})
	case "kill":
		c := d.begin(lab.Ev{"op": "kill", "id": ""})
		d.e.Kill()
		d.end(c, lab.Ev{"op": "kill", "id": "", "res": "ok"})
	case "wait":
		c := d.begin(lab.Ev{"op": "wait", "id": ""})
		err := d.e.Wait()
		d.end(c, lab.Ev{"op": "wait", "id": "", "res": "ok", "err": eCode(err)})
	case "exit":
		d.mu.Lock()
		w := d.ws[op.ID]
		d.mu.Unlock()
		if w != nil && !w.Over() {
			w.Exit(d.mk(op.E))
		}
	case "rel":
		d.mu.Lock()
		var st *eStart
		for _, x := range d.starts {
			if x.id == op.ID && x.open {
				st = x
			}
		}
		d.mu.Unlock()
		if st != nil {
			select {
			case st.rel <- op:
			default:
			}
		}
	case "late":
		d.mu.Lock()
		var st *eStart
		for _, x := range d.starts {
			if x.id == op.ID && !x.open {
				st = x
			}
		}
		d.mu.Unlock()
		if st != nil {
			for _, nm := range d.uni {
				p := &probe{}
				e1 := st.get.Get(nm, p)
				e2 := st.get.Get(nm, nil)
				d.Emit(lab.Ev{"k": "late", "n": st.n, "nm": nm, "ok": e1 == nil || e2 == nil, "out": p.hit})
			}
		}
	default:
		panic("unknown op " + op.O)
	}
}

func (d *engineDrv) manifold(inst *eInst) dependency.Manifold {
	op := inst.op
	if op.K == "self" {
		m := dependency.SelfManifold(d.e)
		start := m.Start
		m.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			d.mu.Lock()
			d.nW++
			n := d.nW
			d.selfN = n
			d.Emit(lab.Ev{"k": "startIn", "n": n, "id": op.ID, "c": inst.c})
			d.mu.Unlock()
			w, err := start(ctx, g)
			e := d.info(nil)(err)
			e["k"], e["n"], e["id"], e["c"], e["out"], e["cx"], e["same"] = "startOut", n, op.ID, inst.c, "ok", false, true
			d.Emit(e)
			return w, err
		}
		out := m.Output
		m.Output = func(in worker.Worker, x interface{}) error {
			if p, ok := x.(*probe); ok {
				p.hit = true
				return nil
			}
			g, ok := x.(*got)
			if !ok {
				return errOut
			}
			var i dependency.Installer
			if err := out(in, &i); err != nil {
				return err
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			if in == worker.Worker(d.e) && i == dependency.Installer(d.e) {
				*g = got{op.ID, d.selfN}
			} else {
				*g = got{op.ID, -1}
			}
			return nil
		}
		return m
	}
	inst.filt = filterFor(op.M["filter"])
	m := dependency.Manifold{Inputs: op.In, Filter: inst.filt}
	m.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
		return d.start(ctx, g, inst)
	}
	if op.M["out"] != "no" {
		m.Output = func(in worker.Worker, x interface{}) error {
			if p, ok := x.(*probe); ok {
				p.hit = true
				return nil
			}
			g, ok := x.(*got)
			if !ok {
				return errOut
			}
			n := -1
			switch w := in.(type) {
			case eWorker:
				n = w.N
			case eWorkerRep:
				n = w.N
			}
			*g = got{op.ID, n}
			return nil
		}
	}
	return m
}

func word(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, dependency.ErrMissing):
		return "missing"
	case errors.Is(err, errOut):
		return "outerr"
	}
	return "other"
}

func (d *engineDrv) look(g dependency.Getter) []lab.Ev {
	var see []lab.Ev
	for _, nm := range d.uni {
		var x got
		var wrong int
		o := word(g.Get(nm, &x))
		ex := word(g.Get(nm, nil))
		b := word(g.Get(nm, &wrong))
		see = append(see, lab.Ev{"nm": nm, "o": o, "n": x.n, "of": x.of, "x": ex, "b": b})
	}
	return see
}

func (d *engineDrv) start(ctx context.Context, g dependency.Getter, inst *eInst) (worker.Worker, error) {
	id := inst.op.ID
	b := lab.Beh{Out: "ok"}
	if inst.op.M["need"] != "no" {
		b.Out = "need"
	}
	d.mu.Lock()
	if inst.plN < len(inst.op.Pl) {
		b = inst.op.Pl[inst.plN]
		inst.plN++
	}
	d.nW++
	n := d.nW
	st := &eStart{n: n, id: id, ctx: ctx, rel: make(chan lab.Op, 1), open: true, get: g}
	d.starts = append(d.starts, st)
	d.Emit(lab.Ev{"k": "startIn", "n": n, "id": id, "c": inst.c})
	d.mu.Unlock()
	see := d.look(g)
	d.Emit(lab.Ev{"k": "see", "n": n, "c": inst.c, "see": see})
	if b.Dur > 0 {
		time.Sleep(time.Duration(b.Dur))
	}
	out, e := b.Out, b.E
	if out == "hold" {
		var done <-chan struct{}
		if b.Ctx {
			done = ctx.Done()
		}
		select {
		case op := <-st.rel:
			out, e = op.Out, op.E
			if out == "" {
				out = "ok"
			}
		case <-done:
			out, e = "err", b.E
		}
	}
	same := fmt.Sprint(d.look(g)) == fmt.Sprint(see)
	if out == "need" {
		out = "ok"
		for _, x := range see {
			for _, in := range inst.op.In {
				if x["nm"] == in && x["x"] != "ok" {
					out, e = "err", "Ma"
				}
			}
		}
	}
	info := d.info(inst.filt)
	end := func(out string, err error) {
		ev := info(err)
		ev["k"], ev["n"], ev["id"], ev["c"], ev["out"], ev["same"] = "startOut", n, id, inst.c, out, same
		d.mu.Lock()
		st.open = false
		ev["cx"] = ctx.Err() != nil
		d.Emit(ev)
		d.mu.Unlock()
	}
	if out == "ok" {
		w := lab.NewW(d.Lab, n, id, b)
		w.Info = info
		w.Make = d.mk
		d.mu.Lock()
		d.ws[id] = w
		d.mu.Unlock()
		end("ok", nil)
		if n%3 == 0 {
			return eWorker{w}, nil
		}
		return eWorkerRep{w}, nil
	}
	if e == "" || e == "nil" {
		e = "E1"
	}
	err := d.mk(e)
	end("err", err)
	return nil, err
}

func repCode(x interface{}) string {
	s, ok := x.(string)
	if !ok {
		return "nil"
	}
	for c, e := range map[string]error{"M": dependency.ErrMissing, "B": dependency.ErrBounce, "U": dependency.ErrUninstall} {
		if s == e.Error() {
			return c
		}
	}
	if i := strings.LastIndex(s, ": "); i >= 0 {
		return s[i+2:]
	}
	return s
}

func (d *engineDrv) quiesce() {
	var rep map[string]interface{}
	stuck := !d.Stable(func() { rep = d.e.Report() })
	if stuck {
		rep = nil
	}
	ms := []lab.Ev{}
	if m, ok := rep["manifolds"].(map[string]interface{}); ok {
		for id, x := range m {
			r, _ := x.(map[string]interface{})
			in, _ := r["inputs"].([]string)
			cnt, _ := r["start-count"].(int)
			e := lab.Ev{"id": id, "st": fmt.Sprint(r["state"]), "in": nz(in), "cnt": cnt, "err": repCode(r["error"]), "n": 0, "ls": d.Stamp(r["started"])}
			if wr, ok := r["report"].(map[string]interface{}); ok {
				e["n"] = wr["n"]
			}
			ms = append(ms, e)
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i]["id"].(string) < ms[j]["id"].(string) })
	}
	d.mu.Lock()
	n := len(d.calls)
	d.mu.Unlock()
	left, all := 0, -1
	if n == 0 {
		// Wait has returned, as have all other calls.
		left = lab.Left()
	} else if d.s.Cfg["all"] != "" {
		all = lab.Left()
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	pend := []int{}
	for c := range d.calls {
		pend = append(pend, c)
	}
	sort.Ints(pend)
	ctx := []int{}
	for _, st := range d.starts {
		if st.open && st.ctx.Err() != nil {
			ctx = append(ctx, st.n)
		}
	}
	met := []lab.Ev{}
	for id, n := range d.met {
		met = append(met, lab.Ev{"id": id, "cnt": n})
	}
	sort.Slice(met, func(i, j int) bool { return met[i]["id"].(string) < met[j]["id"].(string) })
	d.Emit(lab.Ev{"k": "q", "met": met, "st": fmt.Sprint(rep["state"]), "eerr": repCode(rep["error"]), "rep": ms, "pend": pend, "ctxc": ctx, "stuck": stuck, "left": left, "all": all})
}
