package drive

import (
	"fmt"
	"math/rand"

	"verif/harness/lab"
)

// Scripts in which many things begin and end one after another while the
// runner, engine or catacomb lives on.

func add(s *lab.Script, o lab.Op) { s.Steps = append(s.Steps, lab.Step{T: [][]lab.Op{{o}}}) }

func churnRunner(r *rand.Rand, s *lab.Script) {
	s.Cfg["fatal"], s.Cfg["restart"], s.Cfg["more"] = "cls", "cls", "rank"
	s.CfgN["delay"] = 1000
	id := pick(r, "a", "b")
	k := 0
	key := func() string { k++; return fmt.Sprintf("k%d", k) }
	ok := []lab.Beh{{Out: "ok"}}
	for i := 1 + r.Intn(2); i > 0; i-- {
		n := 12 + r.Intn(6)
		switch r.Intn(6) {
		case 0:
			// Failed starts and restarts.
			var pl []lab.Beh
			for j := 0; j < n; j++ {
				pl = append(pl, lab.Beh{Out: pick(r, "err", "err", "goexit"), E: "R1"})
			}
			pl = append(pl, lab.Beh{Out: "ok"})
			add(s, lab.Op{O: "start", ID: id, K: key(), Pl: pl})
			add(s, lab.Op{O: "sleep", N: (n + 1) * 1010000})
			add(s, lab.Op{O: "remove", ID: id, K: key()})
		case 1:
			// Workers that fail and are restarted.
			pl := make([]lab.Beh, n+1)
			for j := range pl {
				pl[j].Out = "ok"
			}
			add(s, lab.Op{O: "start", ID: id, K: key(), Pl: pl})
			for j := 0; j < n; j++ {
				add(s, lab.Op{O: "exit", ID: id, E: "R1"})
				add(s, lab.Op{O: "sleep", N: 1010000})
			}
			add(s, lab.Op{O: "stop", ID: id})
		case 2, 3:
			// Lookups and removals that give up.
			o := pick(r, "worker", "remove")
			kill := ""
			out := "hold"
			if o == "remove" {
				out, kill = "ok", "slow"
			}
			add(s, lab.Op{O: "start", ID: id, K: key(), Pl: []lab.Beh{{Out: out, Kill: kill}}})
			for j := 0; j < n; j++ {
				c := key()
				add(s, lab.Op{O: o, ID: id, K: c})
				add(s, lab.Op{O: "abort", K: c})
			}
			add(s, lab.Op{O: "rel", ID: id, Out: "ok"})
			add(s, lab.Op{O: "stop", ID: id})
			add(s, lab.Op{O: "exit", ID: id, E: "nil"})
		case 4:
			for j := 0; j < n; j++ {
				add(s, lab.Op{O: "start", ID: id, K: key(), Pl: ok})
				add(s, lab.Op{O: "exit", ID: id, E: pick(r, "nil", "N1")})
			}
		case 5:
			for j := 0; j < n; j++ {
				add(s, lab.Op{O: "start", ID: id, K: key(), Pl: ok})
				if r.Intn(2) == 0 {
					add(s, lab.Op{O: "stop", ID: id})
				} else {
					add(s, lab.Op{O: "remove", ID: id, K: key()})
				}
			}
		}
	}
}

func churnEngine(r *rand.Rand, s *lab.Script) {
	s.Cfg["worst"], s.Cfg["filter"] = "rank", ""
	s.CfgN["err"], s.CfgN["bounce"] = 1000, 100
	need := func(o string) lab.Op {
		return lab.Op{O: "install", ID: o, M: map[string]string{"out": "", "filter": ""}}
	}
	a, b := need("a"), need("b")
	b.In = []string{"a"}
	if r.Intn(3) == 0 {
		for j := 0; j < 12; j++ {
			a.Pl = append(a.Pl, lab.Beh{Out: "err", E: pick(r, "E1", "B")})
		}
	}
	add(s, a)
	add(s, b)
	for j := 12 + r.Intn(6); j > 0; j-- {
		add(s, lab.Op{O: "exit", ID: pick(r, "a", "a", "b"), E: pick(r, "E1", "E1", "B", "M")})
		add(s, lab.Op{O: "sleep", N: 1210000})
	}
}

func churnCata(r *rand.Rand, s *lab.Script) {
	add(s, lab.Op{O: "invoke", ID: "i1-", N: 0, M: map[string]string{"work": "hold"}})
	how := r.Intn(3)
	for j := 1; j < 14+r.Intn(6); j++ {
		id := fmt.Sprintf("w%d", j)
		switch how {
		case 0:
			add(s, lab.Op{O: "add", ID: id, Pl: []lab.Beh{{}}})
			add(s, lab.Op{O: "exit", ID: id, E: "nil"})
		case 1:
			add(s, lab.Op{O: "add", ID: id, Pl: []lab.Beh{{}}})
			add(s, lab.Op{O: "wkill", ID: id})
		case 2:
			add(s, lab.Op{O: "add", ID: id, Pl: []lab.Beh{{Out: "dead", E: "nil"}}})
		}
	}
}
