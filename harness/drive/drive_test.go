package drive

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"

	"verif/harness/lab"
)

var (
	fComp   = flag.String("comp", "runner", "component")
	fN      = flag.Int("scn", 10, "scenarios to generate")
	fSeed   = flag.Int64("vseed", 1, "seed")
	fFocus  = flag.String("focus", "", "property to concentrate on")
	fIn     = flag.String("in", "", "file of scripts to run instead of generating")
	fOut    = flag.String("out", "", "output prefix")
	fPlain  = flag.Bool("plain", false, "no schedule perturbation")
	fRepeat = flag.Int("rep", 1, "runs of each script")
)

var runners = map[string]func(*lab.Lab, *lab.Script){
	"runner":   runRunner,
	"engine":   runEngine,
	"graph":    runGraph,
	"catacomb": runCata,
	"helper":   runHelper,
	"stub":     runStub,
	"panic":    runPanic,
}

var gens = map[string]func(*rand.Rand, string) *lab.Script{
	"runner":   genRunner,
	"engine":   genEngine,
	"graph":    genGraph,
	"catacomb": genCata,
	"helper":   genHelper,
	"stub":     genStub,
	"panic":    genPanic,
}

func TestDrive(t *testing.T) {
	if *fOut == "" {
		t.Skip("no output")
	}
	scr, err := os.Create(*fOut + ".scripts")
	if err != nil {
		t.Fatal(err)
	}
	tr, err := os.Create(*fOut + ".traces")
	if err != nil {
		t.Fatal(err)
	}
	next := func() *lab.Script { return nil }
	if *fIn != "" {
		f, err := os.Open(*fIn)
		if err != nil {
			t.Fatal(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		next = func() *lab.Script {
			for sc.Scan() {
				if len(sc.Bytes()) == 0 {
					continue
				}
				s := &lab.Script{}
				if err := json.Unmarshal(sc.Bytes(), s); err != nil {
					t.Fatal(err)
				}
				return s
			}
			return nil
		}
	} else {
		r := rand.New(rand.NewSource(*fSeed))
		graphNext = int(*fSeed%64) * 64
		i := 0
		next = func() *lab.Script {
			if i >= *fN {
				return nil
			}
			i++
			return gens[*fComp](r, *fFocus)
		}
	}
	for s := next(); s != nil; s = next() {
		for k := 0; k < *fRepeat; k++ {
			if *fPlain {
				s.Mode = ""
			}
			line, _ := json.Marshal(s)
			fmt.Fprintf(scr, "%s\n", line)
			evs := runOne(t, s)
			out, err := json.Marshal(map[string]any{"ev": evs})
			if err != nil {
				t.Fatal(err)
			}
			fmt.Fprintf(tr, "%s\n", out)
			s.Seed++
		}
	}
	fmt.Fprintln(os.Stderr, "DRIVE-DONE")
}

func runOne(t *testing.T, s *lab.Script) (evs []lab.Ev) {
	var l *lab.Lab
	lab.Runaway = func(evs []lab.Ev) {
		out, _ := json.Marshal(map[string]any{"ev": evs[:400]})
		os.WriteFile(*fOut+".runaway", out, 0o644)
		fmt.Fprintln(os.Stderr, "DRIVE-RUNAWAY")
		os.Exit(7)
	}
	defer func() {
		if x := recover(); x != nil {
			// Goroutines that are left blocked for ever make the bubble panic;
			// whether that is right is decided by the recorded events.
			msg := fmt.Sprint(x)
			if len(msg) < 8 || msg[:8] != "deadlock" {
				fmt.Fprintln(os.Stderr, "DRIVE-PANIC", msg, string(debug.Stack()))
				os.Exit(6)
			}
		}
		if l != nil {
			l.Perturb("")
			evs = l.Events()
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		l = lab.New(s.Seed)
		runners[s.Comp](l, s)
	})
	return nil
}
