package drive

import (
	"context"
	"errors"
	"math/rand"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/workertest"

	"verif/harness/lab"
)

// The graph component calls dependency.Validate on graphs, and the
// dependency.Install helper with an installer that fails at chosen names.

var graphNext int

func genGraph(r *rand.Rand, focus string) *lab.Script {
	s := &lab.Script{Comp: "graph", Seed: r.Int63(), Cfg: map[string]string{}, CfgN: map[string]int{"from": graphNext}}
	// Scripts enumerate all graphs with three nodes and an undefined name in
	// turn, and add random bigger ones.
	graphNext = (graphNext + 64) % 4096
	return s
}

func edgesOf(ms dependency.Manifolds) [][]string {
	out := [][]string{}
	for nm, m := range ms {
		for _, in := range m.Inputs {
			out = append(out, []string{nm, in})
		}
	}
	return out
}

type fakeInstaller struct {
	bad  map[string]bool
	got  []string
	fail error
}

func (f *fakeInstaller) Install(name string, m dependency.Manifold) error {
	f.got = append(f.got, name)
	if f.bad[name] {
		f.fail = &lab.Err{Code: "I-" + name}
		return f.fail
	}
	return nil
}

func runGraph(l *lab.Lab, s *lab.Script) {
	r := rand.New(rand.NewSource(s.Seed))
	val := func(ms dependency.Manifolds) {
		res := "ok"
		if err := dependency.Validate(ms); err != nil {
			res = "err"
		}
		l.Emit(lab.Ev{"k": "val", "edges": edgesOf(ms), "res": res})
	}
	nodes := []string{"a", "b", "c", "x"} // x is never defined
	for g := s.CfgN["from"]; g < s.CfgN["from"]+64; g++ {
		ms := dependency.Manifolds{}
		for i := 0; i < 3; i++ {
			m := dependency.Manifold{}
			for j := 0; j < 4; j++ {
				if g>>(4*i+j)&1 == 1 {
					m.Inputs = append(m.Inputs, nodes[j])
				}
			}
			ms[nodes[i]] = m
		}
		val(ms)
	}
	big := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}
	for k := 0; k < 24; k++ {
		n := 3 + r.Intn(8)
		ord := r.Perm(n)
		ms := dependency.Manifolds{}
		back := r.Intn(2) * r.Intn(3)
		for i := 0; i < n; i++ {
			m := dependency.Manifold{}
			for j := 0; j < i; j++ {
				if r.Intn(3) == 0 {
					m.Inputs = append(m.Inputs, big[ord[j]])
				}
			}
			if r.Intn(6) == 0 {
				m.Inputs = append(m.Inputs, "undefined")
			}
			if r.Intn(6) == 0 && len(m.Inputs) > 0 {
				m.Inputs = append(m.Inputs, m.Inputs[0])
			}
			if r.Intn(12) > 0 {
				ms[big[ord[i]]] = m
			}
		}
		for ; back > 0; back-- {
			i, j := r.Intn(n), r.Intn(n)
			if m, ok := ms[big[i]]; ok {
				m.Inputs = append(m.Inputs, big[j])
				ms[big[i]] = m
			}
		}
		val(ms)
		fi := &fakeInstaller{bad: map[string]bool{}}
		if r.Intn(2) == 0 {
			fi.bad[big[r.Intn(n)]] = true
			fi.bad[big[r.Intn(n)]] = true
		}
		err := dependency.Install(fi, ms)
		given := []string{}
		for nm := range ms {
			given = append(given, nm)
		}
		bad := []string{}
		for nm := range fi.bad {
			bad = append(bad, nm)
		}
		l.Emit(lab.Ev{"k": "many", "given": given, "bad": bad, "got": nz(fi.got), "ok": err == nil, "own": err != nil && errors.Is(err, fi.fail)})
	}
	for k := 0; k < 40; k++ {
		conf(l, r)
	}
	l.Freeze()
}

// conf tries a configuration of an engine and a runner.
func conf(l *lab.Lab, r *rand.Rand) {
	num := func() int { return []int{-1, 0, 0, 0, 0, 1, 5}[r.Intn(7)] }
	has := func() bool { return r.Intn(8) > 0 }
	e := lab.Ev{"k": "conf", "fatal": has(), "worst": has(), "clock": has(), "metrics": has(), "logger": has(),
		"err": num(), "bounce": num(), "reset": num(), "max": num(), "factor": []int{0, 0, 0, 10, 12, 30, 5, 9, -10}[r.Intn(9)]}
	ms := func(k string) time.Duration { return time.Duration(e[k].(int)) * time.Millisecond }
	cfg := dependency.EngineConfig{ErrorDelay: ms("err"), BounceDelay: ms("bounce"), BackoffResetTime: ms("reset"), MaxDelay: ms("max"),
		BackoffFactor: float64(e["factor"].(int)) / 10}
	if e["fatal"].(bool) {
		cfg.IsFatal = func(error) bool { return false }
	}
	if e["worst"].(bool) {
		cfg.WorstError = func(a, b error) error { return a }
	}
	if e["clock"].(bool) {
		cfg.Clock = lab.Clock{}
	}
	if e["metrics"].(bool) {
		cfg.Metrics = dependency.DefaultMetrics()
	}
	if e["logger"].(bool) {
		cfg.Logger = nopLogger{}
	}
	eng, err := dependency.NewEngine(cfg)
	verr := cfg.Validate()
	e["res"], e["eng"], e["val"] = err == nil, eng != nil, verr == nil
	l.Emit(e)
	if eng != nil {
		self := dependency.SelfManifold(eng)
		other := workertest.NewDeadWorker(nil)
		for _, t := range []string{"installer", "reporter", "int", "nil", "worker"} {
			for _, in := range []worker.Worker{eng, other} {
				ok := false
				var err error
				switch t {
				case "installer":
					var x dependency.Installer
					err = self.Output(in, &x)
					ok = x == dependency.Installer(eng)
				case "reporter":
					var x dependency.Reporter
					err = self.Output(in, &x)
					ok = x == dependency.Reporter(eng)
				case "int":
					var x int
					err = self.Output(in, &x)
				case "nil":
					err = self.Output(in, nil)
				case "worker":
					var x worker.Worker
					err = self.Output(in, &x)
				}
				l.Emit(lab.Ev{"k": "self", "t": t, "in": in == worker.Worker(eng), "res": err == nil, "same": ok})
			}
		}
		w, err := self.Start(context.Background(), nil)
		l.Emit(lab.Ev{"k": "self", "t": "start", "in": true, "res": err == nil, "same": w == worker.Worker(eng)})
		eng.Kill()
		werr := eng.Wait()
		l.Emit(lab.Ev{"k": "self", "t": "wait", "in": true, "res": werr == nil, "same": true})
	}
	p := worker.RunnerParams{Name: pick(r, "", "x", "runner")}
	run, err := worker.NewRunner(p)
	l.Emit(lab.Ev{"k": "rconf", "name": p.Name != "", "res": err == nil, "run": run != nil, "val": p.Validate() == nil})
	if run != nil {
		run.Kill()
		run.Wait()
	}
}
