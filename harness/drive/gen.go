package drive

import (
	"fmt"
	"math/rand"

	"verif/harness/lab"
)

var modes = []string{"", "light", "heavy", "pct"}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// wpick picks a key with probability proportional to its weight.
func wpick(r *rand.Rand, keys []string, w map[string]int) string {
	t := 0
	for _, k := range keys {
		t += w[k]
	}
	x := r.Intn(t)
	for _, k := range keys {
		x -= w[k]
		if x < 0 {
			return k
		}
	}
	return keys[0]
}

var runnerKeys = []string{"start", "stop", "remove", "worker", "abort", "cancel", "kill", "exit", "rel", "sleep", "near"}

var runnerFocus = map[string]map[string]int{
	"":    {"start": 10, "stop": 6, "remove": 4, "worker": 5, "abort": 3, "cancel": 1, "kill": 1, "exit": 10, "rel": 6, "sleep": 6, "near": 5},
	"C02": {"start": 10, "stop": 12, "remove": 1, "worker": 2, "abort": 1, "cancel": 0, "kill": 1, "exit": 10, "rel": 8, "sleep": 7, "near": 6},
	"C05": {"start": 10, "stop": 3, "remove": 2, "worker": 2, "abort": 1, "cancel": 1, "kill": 1, "exit": 12, "rel": 8, "sleep": 3, "near": 4},
	"C06": {"start": 10, "stop": 3, "remove": 2, "worker": 2, "abort": 1, "cancel": 1, "kill": 5, "exit": 8, "rel": 6, "sleep": 3, "near": 5},
	"C09": {"start": 10, "stop": 5, "remove": 2, "worker": 14, "abort": 8, "cancel": 1, "kill": 2, "exit": 9, "rel": 7, "sleep": 6, "near": 5},
	"C10": {"start": 10, "stop": 3, "remove": 12, "worker": 2, "abort": 7, "cancel": 1, "kill": 2, "exit": 9, "rel": 7, "sleep": 6, "near": 5},
}

func genRunner(r *rand.Rand, focus string) *lab.Script {
	w, ok := runnerFocus[focus]
	if !ok {
		w = runnerFocus[""]
	}
	fatalW := 2
	switch focus {
	case "C32":
		w = runnerFocus["C09"]
	case "C05", "C07":
		fatalW = 6
		w = runnerFocus["C05"]
	case "C03", "C04", "C11", "C08":
		fatalW = 1
	}
	s := &lab.Script{Comp: "runner", Seed: r.Int63(), Mode: modes[r.Intn(len(modes))], Cfg: map[string]string{}, CfgN: map[string]int{}}
	if focus == "C32" {
		s.Cfg["all"] = "1"
		if r.Intn(4) == 0 {
			churnRunner(r, s)
			return s
		}
	}
	s.Cfg["fatal"] = pick(r, "cls", "cls", "cls", "cls", "nil")
	s.Cfg["restart"] = pick(r, "cls", "cls", "nil")
	s.Cfg["more"] = pick(r, "rank", "rank", "nil")
	s.Cfg["gx"] = pick(r, "", "", "", "F", "N")
	s.CfgN["delay"] = []int{0, 1000, 1000, 5000, 60000}[r.Intn(5)]
	ids := []string{"a", "b", "c"}
	switch r.Intn(5) {
	case 0:
		ids = []string{"a", "", "aa"}
	case 1:
		ids = []string{"aA", "a", "a a"}
	}
	ids = ids[:1+r.Intn(3)]
	if r.Intn(15) == 0 {
		ids = []string{"a", "b", "c", "d", "e", "f", "g"}[:4+r.Intn(4)]
	}
	ecls := func() string {
		x := r.Intn(8 + fatalW)
		switch {
		case x < 3:
			return "R1"
		case x < 4:
			return pick(r, "X0", "X1", "X2", "R1")
		case x < 6:
			return "N1"
		case x < 8:
			return "nil"
		}
		return fmt.Sprintf("F%d", 1+r.Intn(3))
	}
	beh := func() lab.Beh {
		b := lab.Beh{Out: "ok"}
		switch r.Intn(10) {
		case 0, 1, 2:
			b.Out = "hold"
			b.E = ecls()
			b.Ctx = r.Intn(3) == 0
		case 3:
			b.Out = "err"
			b.E = ecls()
		case 4:
			if r.Intn(3) == 0 || focus == "C34" {
				b.Out = "goexit"
			}
		}
		switch r.Intn(5) {
		case 0, 1:
			b.Kill = "slow"
		case 2:
			b.Kill = "delay"
			b.KE = ecls()
		case 3:
			b.KE = ecls()
		}
		if r.Intn(4) == 0 {
			b.Dur = r.Intn(20000)
		}
		return b
	}
	var keys []string
	nk := 0
	stepwise := r.Intn(10) < 4
	spread := []int{0, 300, 5000, 60000}[r.Intn(4)]
	op := func() lab.Op {
		k := wpick(r, runnerKeys, w)
		o := lab.Op{O: k, ID: ids[r.Intn(len(ids))]}
		switch k {
		case "start":
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				o.Pl = append(o.Pl, beh())
			}
			nk++
			o.K = fmt.Sprintf("k%d", nk)
			if r.Intn(30) == 0 {
				o.E = "cancelled"
			}
			keys = append(keys, o.K)
		case "worker", "remove":
			nk++
			o.K = fmt.Sprintf("k%d", nk)
			keys = append(keys, o.K)
		case "abort", "cancel":
			if len(keys) == 0 {
				return lab.Op{O: "exit", ID: o.ID, E: ecls()}
			}
			o.K = keys[len(keys)-1-r.Intn(min(len(keys), 3))]
			o.ID = ""
		case "exit":
			o.E = ecls()
		case "rel":
			o.Out = pick(r, "ok", "ok", "ok", "err", "goexit")
			if focus == "C34" && r.Intn(2) == 0 {
				o.Out = "goexit"
			} else if o.Out == "goexit" && r.Intn(2) == 0 {
				o.Out = "ok"
			}
			o.E = ecls()
		}
		if spread > 0 {
			o.Off = r.Intn(spread)
		}
		return o
	}
	dly := s.CfgN["delay"] * 1000
	if dly == 0 {
		dly = 3000000
	}
	sleepOp := func() lab.Op {
		switch r.Intn(6) {
		case 0:
			return lab.Op{O: "sleep", N: dly / 2}
		case 3:
			// Let workers run for long, once in a while.
			if r.Intn(2) == 0 {
				return lab.Op{O: "sleep", N: min(dly*(10+r.Intn(90)), 400000000)}
			}
		case 1:
			return lab.Op{O: "sleep", N: dly + 10000}
		case 2:
			return lab.Op{O: "near", ID: ids[r.Intn(len(ids))], N: r.Intn(100)}
		}
		return lab.Op{O: "sleep", N: dly - 20000}
	}
	n := 4 + r.Intn(12)
	// Begin with something to work on.
	for i := range ids {
		if r.Intn(4) > 0 {
			o := op()
			for o.O != "start" {
				o = op()
			}
			o.ID = ids[i]
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{o}}})
		}
	}
	for i := 0; i < n; i++ {
		o := op()
		if o.O == "sleep" || o.O == "near" {
			so := sleepOp()
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{so}}})
			continue
		}
		if stepwise {
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{o}}})
			continue
		}
		var st lab.Step
		nt := 1 + r.Intn(4)
		for t := 0; t < nt; t++ {
			var th []lab.Op
			no := 1 + r.Intn(3)
			for len(th) < no {
				if o.O != "sleep" && o.O != "near" && (o.O != "kill" || r.Intn(2) == 0) {
					th = append(th, o)
				}
				o = op()
			}
			st.T = append(st.T, th)
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}
