package drive

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/juju/worker/v4"
	"verif/harness/lab"
)

// What happens when a start function panics can only be seen from outside the
// process: each scenario runs in a child, which is this binary with only
// TestChild selected.

const childEnv = "VERIF_CHILD"

func genPanic(r *rand.Rand, _ string) *lab.Script {
	return &lab.Script{Comp: "panic", Seed: r.Int63(), Cfg: map[string]string{
		"when":  pick(r, "first", "restart", "dying", "stopped", "second"),
		"what":  pick(r, "string", "error", "struct"),
		"value": fmt.Sprintf("boom-%d", r.Intn(1000000)),
		"fatal": pick(r, "nil", "no", "yes"),
	}}
}

func runPanic(l *lab.Lab, s *lab.Script) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestChild$", "-test.timeout=60s")
	cmd.Env = append(os.Environ(), childEnv+"="+s.Cfg["when"]+","+s.Cfg["what"]+","+s.Cfg["value"]+","+s.Cfg["fatal"])
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	text := out.String()
	// If the start function was not called, there is nothing to judge here.
	ready := strings.Contains(text, "CHILD-READY")
	l.Emit(lab.Ev{"k": "crash", "when": s.Cfg["when"], "what": s.Cfg["what"], "fatal": s.Cfg["fatal"],
		"ready": ready,
		"died": !ready || !strings.Contains(text, "CHILD-SURVIVED"), "said": !ready || strings.Contains(text, "panic: ") && strings.Contains(text, s.Cfg["value"])})
}

type oddPanic struct{ s string }

func (o oddPanic) String() string { return o.s }

func TestChild(t *testing.T) {
	f := strings.Split(os.Getenv(childEnv), ",")
	if len(f) != 4 {
		t.Skip("not a child")
	}
	when, what, value, fatal := f[0], f[1], f[2], f[3]
	p := worker.RunnerParams{Name: "child", RestartDelay: time.Millisecond}
	switch fatal {
	case "no":
		p.IsFatal = func(error) bool { return false }
	case "yes":
		p.IsFatal = func(err error) bool { return err.Error() != "again" }
	default:
		if when != "restart" {
			break
		}
		p.IsFatal = func(err error) bool { return err.Error() != "again" }
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	inside, release := make(chan struct{}, 1), make(chan struct{})
	n := 0
	if when == "second" {
		_ = r.StartWorker(ctx, "other", func(ctx context.Context) (worker.Worker, error) {
			<-ctx.Done()
			return nil, ctx.Err()
		})
	}
	_ = r.StartWorker(ctx, "w", func(ctx context.Context) (worker.Worker, error) {
		n++
		if when == "restart" && n < 3 {
			return nil, errors.New("again")
		}
		if when == "dying" || when == "stopped" {
			inside <- struct{}{}
			<-release
		}
		fmt.Println("CHILD-READY")
		switch what {
		case "error":
			panic(errors.New(value))
		case "struct":
			panic(oddPanic{value})
		}
		panic(value)
	})
	switch when {
	case "dying":
		<-inside
		r.Kill()
		close(release)
	case "stopped":
		<-inside
		_ = r.StopWorker("w")
		close(release)
	}
	time.Sleep(3 * time.Second)
	fmt.Println("CHILD-SURVIVED")
}
