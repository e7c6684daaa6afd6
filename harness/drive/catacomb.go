package drive

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"gopkg.in/tomb.v2"

	"verif/harness/lab"
)

type cCtx struct {
	ctx    context.Context
	cancel func()
	val    bool
}

type cataDrv struct {
	*lab.Lab
	s       *lab.Script
	c       *catacomb.Catacomb
	foreign error
	mu      sync.Mutex
	calls   map[int]bool
	ws      map[string]*lab.W
	nW      int
	used    bool
	rel     chan string
	ctxs    []*cCtx
	pval    string
	over    bool
	orig    map[string]error
}

type panicker interface{ Panicked() bool }

type stacker interface{ StackTrace() []string }

type ctxKey struct{}

// obs describes an error that came out of the catacomb.
func (d *cataDrv) obs(err error) string {
	if err == nil {
		return "nil"
	}
	var p panicker
	if errors.As(err, &p) && p.Panicked() {
		// The stack is that of the panic, which is in this file.
		var st stacker
		if !errors.As(err, &st) || !strings.Contains(strings.Join(st.StackTrace(), "\n"), "drive.(*cataDrv)") {
			return "P without stack"
		}
		d.mu.Lock()
		defer d.mu.Unlock()
		if strings.Contains(err.Error(), d.pval) {
			return "P"
		}
		return "P?"
	}
	if err == tomb.ErrDying {
		return "tombdying"
	}
	if err == tomb.ErrStillAlive {
		return "alive"
	}
	select {
	case <-d.c.Dying():
		if err.Error() == d.c.ErrDying().Error() {
			return "owndying"
		}
	default:
	}
	if errors.Is(err, d.foreign) {
		return "foreign"
	}
	if lab.IsPlain(err) {
		return err.Error()
	}
	var e *lab.Err
	if errors.As(err, &e) {
		d.mu.Lock()
		defer d.mu.Unlock()
		if o, ok := d.orig[e.Code]; ok && o != err {
			return e.Code + "*" // not the error that was given
		}
		return e.Code
	}
	return "bad"
}

// mk makes an error of the class and says what the catacomb may make of it.
func (d *cataDrv) mk(cls string) (error, []string) {
	err, eff := d.mk1(cls)
	if c := lab.Code(err); err != nil && c != "?" {
		d.mu.Lock()
		d.orig[c] = err
		d.mu.Unlock()
	}
	return err, eff
}

func (d *cataDrv) mk1(cls string) (error, []string) {
	wrap := func(e error, how byte) error {
		switch how {
		case 'a':
			return jerrors.Annotate(e, "annotated")
		case 't':
			return jerrors.Trace(e)
		}
		return fmt.Errorf("formatted: %w", e)
	}
	switch {
	case cls == "" || cls == "nil":
		return nil, []string{"nil"}
	case strings.HasPrefix(cls, "own"):
		err := d.c.ErrDying()
		eff := "bad"
		select {
		case <-d.c.Dying():
			if err.Error() == d.c.ErrDying().Error() {
				eff = "none"
			}
		default:
		}
		if len(cls) > 3 {
			err = wrap(err, cls[3])
		}
		return err, []string{eff}
	case cls == "td":
		return tomb.ErrDying, []string{"bad"}
	case cls == "sa":
		return tomb.ErrStillAlive, []string{"bad"}
	case cls == "for":
		return d.foreign, []string{"bad"}
	case strings.HasPrefix(cls, "for"):
		return wrap(d.foreign, cls[3]), []string{"bad"}
	case cls == "tdw" || cls == "saw":
		e := d.NewErr("W1").(*lab.Err)
		e.Wrap = tomb.ErrDying
		if cls == "saw" {
			e.Wrap = tomb.ErrStillAlive
		}
		return e, []string{e.Code, "bad"}
	case cls[0] == 'X':
		e := d.NewErr(cls)
		return e, []string{lab.Code(e)}
	case len(cls) > 1:
		e := d.NewErr("E1")
		return wrap(e, cls[1]), []string{lab.Code(e)}
	}
	e := d.NewErr("E1")
	return e, []string{lab.Code(e)}
}

var cataErrs = []string{"nil", "E", "E", "X0", "X1", "X2", "Ea", "Ef", "own", "own", "owna", "ownf", "ownt", "td", "tdw", "for", "fora", "forf", "sa", "saw"}

func runCata(l *lab.Lab, s *lab.Script) {
	d := &cataDrv{Lab: l, s: s, calls: map[int]bool{}, ws: map[string]*lab.W{}, orig: map[string]error{}, rel: make(chan string, 4)}
	var f catacomb.Catacomb
	if err := catacomb.Invoke(catacomb.Plan{Name: "foreign", Site: &f, Work: func() error { return nil }}); err != nil {
		panic(err)
	}
	f.Wait()
	d.foreign = f.ErrDying()
	d.c = &catacomb.Catacomb{}
	l.Emit(lab.Ev{"k": "cfg"})
	l.Perturb(s.Mode)
	for _, st := range s.Steps {
		runStep(d.Lab, st, d.do)
		l.Settle()
		d.quiesce()
	}
	d.do(lab.Op{O: "kill"})
	l.Settle()
	d.quiesce()
	d.mu.Lock()
	d.over = true
	close(d.rel)
	d.mu.Unlock()
	l.Settle()
	d.quiesce()
	d.mu.Lock()
	var ws []*lab.W
	for _, w := range d.ws {
		ws = append(ws, w)
	}
	d.mu.Unlock()
	sort.Slice(ws, func(i, j int) bool { return ws[i].N < ws[j].N })
	for _, w := range ws {
		w.Exit(nil)
		l.Settle()
	}
	d.quiesce()
	runStep(d.Lab, lab.Step{T: [][]lab.Op{{{O: "add", ID: "late", Pl: []lab.Beh{{}}}}, {{O: "wait"}}}}, d.do)
	l.Settle()
	d.quiesce()
	d.do(lab.Op{O: "kill", E: "E"})
	d.do(lab.Op{O: "wait"})
	d.quiesce()
	l.Perturb("")
	l.Freeze()
}

func (d *cataDrv) begin(e lab.Ev) int {
	c := d.CallID()
	e["k"] = "call"
	e["c"] = c
	d.mu.Lock()
	d.calls[c] = true
	d.Emit(e)
	d.mu.Unlock()
	return c
}

func (d *cataDrv) end(c int, e lab.Ev) {
	e["k"] = "ret"
	e["c"] = c
	d.mu.Lock()
	delete(d.calls, c)
	d.Emit(e)
	d.mu.Unlock()
}

func (d *cataDrv) worker(id string, b lab.Beh) *lab.W {
	d.mu.Lock()
	d.nW++
	w := lab.NewW(d.Lab, d.nW, id, b)
	d.ws[id] = w
	d.mu.Unlock()
	var emu sync.Mutex
	made := map[error][2]any{}
	w.Make = func(cls string) error {
		err, eff := d.mk(cls)
		if err != nil {
			o := d.obs(err)
			emu.Lock()
			made[err] = [2]any{eff, o}
			emu.Unlock()
		}
		return err
	}
	w.Info = func(err error) lab.Ev {
		emu.Lock()
		defer emu.Unlock()
		if x, ok := made[err]; ok {
			return lab.Ev{"eff": x[0], "obs": x[1]}
		}
		return lab.Ev{"eff": []string{"nil"}, "obs": "nil"}
	}
	if b.Out == "dead" {
		w.Exit(w.Make(b.E))
	}
	return w
}

func (d *cataDrv) do(op lab.Op) {
	switch op.O {
	case "invoke":
		var ws []worker.Worker
		ns := []int{}
		for i, b := range op.Pl {
			w := d.worker(fmt.Sprintf("%s%d", op.ID, i), b)
			ws = append(ws, w)
			ns = append(ns, w.N)
		}
		plan := catacomb.Plan{Name: "work", Site: d.c, Init: ws}
		valid := true
		switch op.K {
		case "noname":
			plan.Name, valid = "", false
		case "nosite":
			plan.Site, valid = nil, false
		case "nilinit":
			i := op.N % (len(ws) + 1)
			plan.Init = append(append(append([]worker.Worker{}, ws[:i]...), nil), ws[i:]...)
			valid = false
		}
		var c int
		plan.Work = func() (err error) {
			d.Emit(lab.Ev{"k": "workIn", "c": c, "lab": maps.Equal(lab.Labels(), map[string]string{"name": "work", "type": "catacomb"})})
			if op.Off2() > 0 {
				time.Sleep(time.Duration(op.Off2()))
			}
			cls := op.E
			switch op.M["work"] {
			case "dying":
				<-d.c.Dying()
			case "hold":
				if x, ok := <-d.rel; ok {
					cls = x
				}
			}
			if strings.HasPrefix(cls, "panic") {
				v := panicValue(cls)
				d.mu.Lock()
				d.pval = fmt.Sprint(v)
				d.mu.Unlock()
				d.Emit(lab.Ev{"k": "workOut", "c": c, "eff": []string{"P"}})
				if cls == "panicrt" {
					var m map[string]int
					m["x"] = 1
				}
				if cls == "panicnil" {
					panic(nil)
				}
				panic(v)
			}
			err, eff := d.mk(cls)
			d.Emit(lab.Ev{"k": "workOut", "c": c, "eff": eff})
			return err
		}
		if op.K == "nowork" {
			plan.Work, valid = nil, false
		}
		c = d.begin(lab.Ev{"op": "invoke", "ns": ns, "valid": valid})
		err := catacomb.Invoke(plan)
		res := "ok"
		if err != nil {
			res = "err"
		} else {
			d.mu.Lock()
			d.used = true
			d.mu.Unlock()
		}
		d.end(c, lab.Ev{"op": "invoke", "res": res})
	case "add":
		if !d.invoked() {
			return
		}
		b := lab.Beh{}
		if len(op.Pl) > 0 {
			b = op.Pl[0]
		}
		w := d.worker(op.ID, b)
		c := d.begin(lab.Ev{"op": "add", "n": w.N})
		err := d.c.Add(w)
		res := "ok"
		if err != nil {
			res = "err"
		}
		obs := d.obs(err)
		if err != nil && w.Over() {
			if werr := w.Wait(); werr != nil && errors.Is(err, werr) {
				obs = "worker"
			}
		}
		d.end(c, lab.Ev{"op": "add", "res": res, "obs": obs})
	case "kill":
		if !d.invoked() {
			return
		}
		err, eff := d.mk(op.E)
		c := d.begin(lab.Ev{"op": "kill", "eff": eff})
		res := "ok"
		func() {
			defer func() {
				if x := recover(); x != nil {
					res = "panic"
				}
			}()
			d.c.Kill(err)
		}()
		d.end(c, lab.Ev{"op": "kill", "res": res})
	case "wait":
		if !d.invoked() {
			return
		}
		c := d.begin(lab.Ev{"op": "wait"})
		err := d.c.Wait()
		d.end(c, lab.Ev{"op": "wait", "res": "ok", "obs": d.obs(err)})
	case "exit", "wkill":
		d.mu.Lock()
		w := d.ws[op.ID]
		d.mu.Unlock()
		if w == nil || w.Over() {
			return
		}
		if op.O == "exit" {
			w.Exit(w.Make(op.E))
			return
		}
		d.Emit(lab.Ev{"k": "ukill", "n": w.N})
		w.Kill()
	case "rel":
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.over {
			return
		}
		select {
		case d.rel <- op.E:
		default:
		}
	case "ctx":
		if !d.invoked() {
			return
		}
		parent := context.WithValue(context.Background(), ctxKey{}, op.ID)
		x := &cCtx{}
		switch op.K {
		case "nil":
			x.ctx = d.c.Context(nil)
			x.val = true
		default:
			p, cancel := context.WithCancel(parent)
			x.cancel = cancel
			x.ctx = d.c.Context(p)
			x.val = x.ctx.Value(ctxKey{}) == op.ID
		}
		d.mu.Lock()
		d.ctxs = append(d.ctxs, x)
		n := len(d.ctxs)
		d.mu.Unlock()
		d.Emit(lab.Ev{"k": "ctx", "x": n, "val": x.val})
	case "pcancel":
		d.mu.Lock()
		n := op.N
		var x *cCtx
		if n < len(d.ctxs) {
			x = d.ctxs[n]
		}
		d.mu.Unlock()
		if x != nil && x.cancel != nil {
			d.Emit(lab.Ev{"k": "pcancel", "x": n + 1})
			x.cancel()
		}
	default:
		panic("unknown op " + op.O)
	}
}

type odd struct{ A, B int }

func panicValue(cls string) any {
	switch cls {
	case "panicerr":
		return &lab.Err{Code: "PE"}
	case "panicint":
		return 4711
	case "panicodd":
		return odd{47, 11}
	case "panicrt":
		return "assignment to entry in nil map"
	case "panicnil":
		return "panic called with nil argument"
	case "panicempty":
		return ""
	}
	return "boom boom"
}

func (d *cataDrv) invoked() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.used
}

func closed(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func (d *cataDrv) quiesce() {
	used := d.invoked()
	dying, dead, obs, edy := false, false, "alive", "bad"
	stuck := false
	if used {
		stuck = !d.Stable(func() {
			dying = closed(d.c.Dying())
			dead = closed(d.c.Dead())
			obs = d.obs(d.c.Err())
			edy = d.obs(d.c.ErrDying())
		})
	}
	d.mu.Lock()
	n := len(d.calls)
	d.mu.Unlock()
	left, all := 0, -1
	if dead && n == 0 {
		left = lab.Left()
	} else if d.s.Cfg["all"] != "" {
		all = lab.Left()
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	pend := []int{}
	for c := range d.calls {
		pend = append(pend, c)
	}
	sort.Ints(pend)
	ctx := []int{}
	for i, x := range d.ctxs {
		if x.ctx.Err() != nil && closed(x.ctx.Done()) {
			ctx = append(ctx, i+1)
		}
	}
	d.Emit(lab.Ev{"k": "q", "dying": dying, "dead": dead, "obs": obs, "edy": edy, "ctx": ctx, "pend": pend, "stuck": stuck, "left": left, "all": all})
}

var cataKeys = []string{"add", "kill", "wait", "exit", "wkill", "rel", "ctx", "pcancel", "invoke"}

func genCata(r *rand.Rand, focus string) *lab.Script {
	w := map[string]int{"add": 8, "kill": 3, "wait": 1, "exit": 6, "wkill": 3, "rel": 2, "ctx": 2, "pcancel": 1, "invoke": 1}
	calm := r.Intn(2) == 0 // few reasons to die
	switch focus {
	case "C24":
		w["kill"] = 12
	case "C25", "C32":
		w["invoke"] = 6
		w["add"] = 12
	case "C26":
		w["ctx"], w["pcancel"] = 8, 4
	}
	if calm {
		w["kill"], w["rel"] = 1, 1
		if focus == "C24" {
			w["kill"] = 3
		}
	}
	s := &lab.Script{Comp: "catacomb", Seed: r.Int63(), Mode: modes[r.Intn(len(modes))], Cfg: map[string]string{}}
	if focus == "C32" {
		s.Cfg["all"] = "1"
		if r.Intn(4) == 0 {
			churnCata(r, s)
			return s
		}
	}
	cls := func() string { return cataErrs[r.Intn(len(cataErrs))] }
	wcls := func() string {
		if r.Intn(3) > 0 || calm && r.Intn(4) > 0 {
			return "nil"
		}
		return cls()
	}
	beh := func() lab.Beh {
		b := lab.Beh{}
		switch r.Intn(6) {
		case 0, 1:
			b.Kill = "slow"
		case 2:
			b.Kill = "delay"
		}
		b.KE = wcls()
		if r.Intn(10) == 0 {
			b.Out = "dead"
			b.E = wcls()
		}
		return b
	}
	var ids []string
	nid := 0
	invoke := func(k string) lab.Op {
		nid++
		o := lab.Op{O: "invoke", ID: fmt.Sprintf("i%d-", nid), K: k, N: r.Intn(4), M: map[string]string{}}
		for i := r.Intn(4); i > 0; i-- {
			ids = append(ids, fmt.Sprintf("%s%d", o.ID, len(o.Pl)))
			o.Pl = append(o.Pl, beh())
		}
		o.M["work"] = pick(r, "dying", "dying", "hold", "hold", "hold", "now")
		o.E = cls()
		if r.Intn(4) == 0 || focus == "C26" && r.Intn(2) == 0 {
			o.E = pick(r, "panic", "panicerr", "panicint", "panicodd", "panicrt", "panicnil", "panicempty")
		}
		if calm && o.M["work"] == "now" {
			o.M["work"] = "hold"
		}
		if r.Intn(3) == 0 {
			o.M["dur"] = fmt.Sprint(r.Intn(6000))
		}
		return o
	}
	bads := []string{"noname", "nosite", "nowork", "nilinit"}
	for r.Intn(5) == 0 || focus == "C25" && r.Intn(2) == 0 && len(s.Steps) < 3 {
		s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{invoke(bads[r.Intn(4)])}}})
	}
	first := lab.Step{T: [][]lab.Op{{invoke("")}}}
	if r.Intn(8) == 0 {
		first.T = append(first.T, []lab.Op{invoke("")})
	}
	s.Steps = append(s.Steps, first)
	spread := []int{0, 300, 5000, 20000}[r.Intn(4)]
	stepwise := r.Intn(10) < 3
	op := func() lab.Op {
		k := wpick(r, cataKeys, w)
		o := lab.Op{O: k}
		if len(ids) > 0 {
			o.ID = ids[r.Intn(len(ids))]
		}
		switch k {
		case "add":
			nid++
			o.ID = fmt.Sprintf("w%d", nid)
			ids = append(ids, o.ID)
			o.Pl = []lab.Beh{beh()}
		case "kill":
			o.E = cls()
		case "exit":
			o.E = wcls()
		case "rel":
			o.E = cls()
			if r.Intn(4) == 0 {
				o.E = pick(r, "panic", "panicerr", "panicodd")
			}
		case "ctx":
			o.ID = fmt.Sprint("v", r.Intn(100))
			o.K = pick(r, "nil", "", "")
		case "pcancel":
			o.N = r.Intn(4)
		case "invoke":
			o = invoke(pick(r, "", "", "noname", "nowork", "nilinit", "nosite"))
		}
		if spread > 0 {
			o.Off = r.Intn(spread)
		}
		return o
	}
	steps := 2 + r.Intn(7)
	for i := 0; i < steps; i++ {
		if stepwise {
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{op()}}})
			continue
		}
		var st lab.Step
		for t := 1 + r.Intn(3); t > 0; t-- {
			var th []lab.Op
			for n := 1 + r.Intn(2); n > 0; n-- {
				th = append(th, op())
			}
			st.T = append(st.T, th)
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}
