package drive

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/lab"
)

var engineKeys = []string{"install", "exit", "rel", "kill", "sleep", "late"}

func genEngine(r *rand.Rand, focus string) *lab.Script {
	w := map[string]int{"install": 3, "exit": 10, "rel": 7, "kill": 1, "sleep": 12, "late": 1}
	fatalW, cyc := 1, 0
	oneNode := false
	errOnly := false
	switch focus {
	case "C16":
		oneNode = r.Intn(3) > 0
		errOnly = r.Intn(2) == 0
		w["exit"], w["sleep"], w["kill"], fatalW = 10, 16, 0, 0
	case "C18":
		fatalW = 5
		w["kill"] = 2
	case "C19", "C32":
		w["kill"] = 4
		fatalW = 2
	case "C20":
		w["install"] = 16
		w["kill"] = 1
		cyc = 3
	case "C17":
		w["late"] = 4
		w["kill"] = 0
		fatalW = 0
	case "C13", "C14", "C12":
		w["kill"] = 0
		fatalW = 0
	case "C15":
		fatalW = 0
		w["kill"] = 0
	}
	s := &lab.Script{Comp: "engine", Seed: r.Int63(), Mode: modes[r.Intn(len(modes))], Cfg: map[string]string{}, CfgN: map[string]int{}}
	s.Cfg["fatal"] = "cls"
	if focus == "C32" {
		s.Cfg["all"] = "1"
		if r.Intn(4) == 0 {
			churnEngine(r, s)
			return s
		}
	}
	if fatalW > 0 && r.Intn(6) == 0 {
		s.Cfg["fatal"] = "any"
	}
	s.Cfg["worst"] = pick(r, "rank", "rank", "first", "last")
	s.Cfg["filter"] = pick(r, "", "", "mark")
	n := func(xs ...int) int { return xs[r.Intn(len(xs))] }
	s.CfgN["err"] = n(1000, 1000, 3000)
	s.CfgN["bounce"] = n(50, 100, 200, 0)
	s.CfgN["factor"] = n(0, 0, 1, 2, 3)
	s.CfgN["reset"] = n(0, 2000, 10000, 60000)
	s.CfgN["max"] = n(0, 0, 4000, 7000)
	if focus == "C16" {
		s.CfgN["bounce"] = n(50, 200, 300)
		s.CfgN["factor"] = n(0, 1, 2, 2, 3)
		s.CfgN["reset"] = n(0, 2000, 2000, 10000)
	}
	all := []string{"a", "b", "c", "d"}
	switch r.Intn(4) {
	case 0:
		// One name within another, whitespace, case.
		all = []string{"aa", "a", "aab", "aA"}
		s.Cfg["names"] = strings.Join(all, ",")
	case 1:
		all = []string{"x y", "x", "ee", "e-"}
		s.Cfg["names"] = strings.Join(all, ",")
	}
	names := all[:2+r.Intn(3)]
	if r.Intn(15) == 0 {
		// "e" is the engine itself.
		names = []string{"a", "b", "c", "d", "f", "g", "h"}[:5+r.Intn(3)]
		s.Cfg["names"] = strings.Join(names, ",")
	}
	if oneNode {
		names = names[:1+r.Intn(2)]
	}
	// A random order; inputs mostly point backwards in it.
	ord := r.Perm(len(names))
	pos := map[string]int{}
	for i, x := range ord {
		pos[names[x]] = i
	}
	ecls := func() string {
		if errOnly && r.Intn(6) > 0 {
			return "E1"
		}
		x := r.Intn(20 + 2*fatalW)
		switch {
		case x < 1:
			return pick(r, "X0", "X1", "X2")
		case x < 6:
			return "E1"
		case x < 9:
			return "nil"
		case x < 12:
			return pick(r, "M", "Mw", "Ma", "Mf", "Mt")
		case x < 16:
			return pick(r, "B", "Bw", "Ba", "Bf", "Bt")
		case x < 20:
			return pick(r, "U", "Uw", "Ua", "Uf", "Ut", "E1")
		}
		return fmt.Sprintf("F%d", 1+r.Intn(3))
	}
	beh := func() lab.Beh {
		b := lab.Beh{Out: "need"}
		switch r.Intn(10) {
		case 0, 1:
			b.Out = "hold"
			b.Ctx = r.Intn(3) == 0
			b.E = ecls()
		case 2:
			b.Out = "err"
			b.E = ecls()
		case 3:
			b.Out = "ok"
		}
		switch r.Intn(6) {
		case 0, 1:
			b.Kill = "slow"
		case 2:
			b.Kill = "delay"
			b.KE = ecls()
		case 3:
			b.KE = ecls()
		}
		if r.Intn(5) == 0 {
			b.Dur = r.Intn(20000)
		}
		return b
	}
	outOf := map[string]string{}
	filtOf := map[string]string{}
	for _, nm := range names {
		if r.Intn(6) == 0 {
			outOf[nm] = "no"
		}
		if r.Intn(5) == 0 {
			filtOf[nm] = pick(r, "F>E", "E>B", "M>U", "E>nil", "E>F", "U>M", "nil>E", "B>E,E>M")
			if fatalW == 0 && filtOf[nm] == "E>F" {
				filtOf[nm] = ""
			}
		}
	}
	install := func(nm string) lab.Op {
		o := lab.Op{O: "install", ID: nm, M: map[string]string{"out": outOf[nm], "filter": filtOf[nm]}}
		for _, x := range names {
			p := 2
			if pos[x] < pos[nm] {
				p = 6
			} else if cyc == 0 && x != nm {
				p = 0
			} else if x == nm {
				p = 0
				if cyc > 0 && r.Intn(20) == 0 {
					p = 9
				}
			} else if cyc > 0 {
				p = 2
			}
			if r.Intn(10) < p {
				o.In = append(o.In, x)
			}
		}
		if r.Intn(12) == 0 && len(o.In) > 0 {
			o.In = append(o.In, o.In[r.Intn(len(o.In))])
		}
		r.Shuffle(len(o.In), func(i, j int) { o.In[i], o.In[j] = o.In[j], o.In[i] })
		if r.Intn(3) == 0 {
			o.M["need"] = "no"
		}
		for i := r.Intn(5); i > 0; i-- {
			o.Pl = append(o.Pl, beh())
		}
		return o
	}
	selfIn := !oneNode && r.Intn(5) == 0
	stepwise := r.Intn(10) < 5
	spread := n(0, 300, 5000, 60000)
	op := func() lab.Op {
		k := wpick(r, engineKeys, w)
		o := lab.Op{O: k, ID: names[r.Intn(len(names))]}
		switch k {
		case "install":
			o = install(o.ID)
		case "exit":
			o.E = ecls()
		case "rel":
			o.Out = pick(r, "ok", "ok", "ok", "err", "need")
			o.E = ecls()
		}
		if spread > 0 {
			o.Off = r.Intn(spread)
		}
		return o
	}
	sleepOp := func() lab.Op {
		b, e := s.CfgN["bounce"]*1000, s.CfgN["err"]*1000
		return lab.Op{O: "sleep", N: n(b*12/10+3000, b*12/10+3000, b/2, e/2, e*12/10+3000, e*24/10, s.CfgN["reset"]*500+5000, b*3+e)}
	}
	// Install most of them.
	var first lab.Step
	if selfIn {
		first.T = append(first.T, []lab.Op{{O: "install", ID: "e", K: "self"}})
	}
	for _, x := range r.Perm(len(names)) {
		if r.Intn(8) > 0 {
			first.T = append(first.T, []lab.Op{install(names[x])})
		}
	}
	if selfIn {
		for i := range first.T {
			if o := &first.T[i][0]; o.K != "self" && r.Intn(3) == 0 {
				o.In = append(o.In, "e")
			}
		}
	}
	if r.Intn(2) == 0 {
		s.Steps = append(s.Steps, first)
	} else {
		for _, t := range first.T {
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{t}})
			if r.Intn(3) == 0 {
				s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{sleepOp()}}})
			}
		}
	}
	steps := 4 + r.Intn(12)
	for i := 0; i < steps; i++ {
		o := op()
		if o.O == "sleep" {
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{sleepOp()}}})
			continue
		}
		if stepwise {
			s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{o}}})
			continue
		}
		var st lab.Step
		nt := 1 + r.Intn(3)
		for t := 0; t < nt; t++ {
			var th []lab.Op
			no := 1 + r.Intn(2)
			for len(th) < no {
				if o.O != "sleep" {
					th = append(th, o)
				}
				o = op()
			}
			st.T = append(st.T, th)
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}
