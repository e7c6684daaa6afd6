From a2cb4b15892e9197da5c6ca042e15966c6b58be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 01/12] fix: let every StopAndRemoveWorker caller see the
 worker removed

Removal was announced by sending a single value, so of several
concurrent callers only one returned.
---
 runner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runner.go b/runner.go
index bda5937..68c4cc6 100644
--- a/runner.go
+++ b/runner.go
@@ -94,8 +94,8 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
-	// done is used to signal when the worker has finished
-	// running and is removed from the runner.
+	// done is closed when the worker has finished running and
+	// is removed from the runner.
 	done chan struct{}
 
 	// started holds the time the worker was started.
@@ -486,7 +486,7 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
-		done:         make(chan struct{}, 1),
+		done:         make(chan struct{}),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
@@ -563,7 +563,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 772d039e5dd8ca06da80c739cf83530c7dd057e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 02/12] fix: do not hand out a finished worker while its
 restart is pending

Worker and Report kept treating the finished worker as the current one
until its replacement had started.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index 68c4cc6..c14b3f9 100644
--- a/runner.go
+++ b/runner.go
@@ -551,6 +551,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The finished worker is no longer current: callers of Worker have to
+	// wait for its replacement.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From 7c743b879c05f7f876167305b7e72cedfa6db2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 03/12] fix: return the first fatal error if MoreImportant is
 nil

As documented; the last one was returned.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index c14b3f9..1b64361 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From 47a4822a5900631d21731d5de8e03424698d8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 04/12] fix: StopAndRemoveWorker restarted failing workers and
 ignored abort

A worker that failed with a non-fatal error while being stopped was
restarted and the caller left waiting; and abort was not noticed while
the worker was stopping.
---
 runner.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 1b64361..9f433f0 100644
--- a/runner.go
+++ b/runner.go
@@ -293,12 +293,15 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
-	workerErr := Stop(w)
+	// Stop the worker through the runner, so that it's known to be stopped
+	// deliberately and is not restarted, whatever error it stops with.
+	// If the runner is dead then the worker is already removed.
+	_ = runner.StopWorker(id)
 
 	select {
 	case <-abort:
 	case <-done:
-		return workerErr
+		return w.Wait()
 	}
 	return ErrAborted
 }
-- 
2.43.0


From a0877689f1410258257737ed4bd08e06a82a9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 05/12] fix: shut down without delay after a fatal error

Workers waiting for their restart delay were still started, and delayed
the shutdown; contexts of start calls were not cancelled; and callers of
Worker could block.
---
 runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner.go b/runner.go
index 9f433f0..477da47 100644
--- a/runner.go
+++ b/runner.go
@@ -532,6 +532,8 @@ func (runner *Runner) workerDone(info doneInfo) {
 			runner.removeWorker(info.id, workerInfo.done)
 			if !runner.isDying {
 				runner.isDying = true
+				// Interrupt pending restarts, start calls and lookups.
+				runner.tomb.Kill(nil)
 				runner.killAll()
 			}
 			return
-- 
2.43.0


From 38ad9108647b43d9d76f90813fe101d0032c7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 06/12] fix: do not shorten the restart delay after a clean
 exit

With a backoff factor, a worker that had no recent error was restarted after
delay/factor instead of delay.
---
 dependency/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..507d44e 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,7 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(max(info.recentErrors-1, 0)))
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From 7bf7c86f27019b3a5bd3efeaee58abd27a66b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 07/12] fix: never treat an aborted start as an error of the
 manifold

The internal errAborted of a start that was cancelled during its delay was
passed to the manifold's filter and to IsFatal, so that a dependency change or
Kill could make the engine fail with an error that no worker returned.
---
 dependency/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 507d44e..daf4468 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -650,13 +650,15 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		}
 	}
 
-	if filter := engine.manifolds[name].Filter; filter != nil {
+	// An aborted start is our own doing, not an error of the manifold.
+	aborted := errors.Is(err, errAborted)
+	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {
 		err = filter(err)
 	}
 
 	if info.stopped() {
 		engine.tomb.Kill(errors.Errorf("fatal: unexpected %q manifold worker stop", name))
-	} else if engine.config.IsFatal(err) {
+	} else if !aborted && engine.config.IsFatal(err) {
 		engine.worstError = engine.config.WorstError(err, engine.worstError)
 		engine.tomb.Kill(nil)
 	}
-- 
2.43.0


From 70691db0df9a22569021df2e5b9ad7cde39530eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:11 +0000
Subject: [PATCH 08/12] fix: do not report tomb.ErrDying for an engine
 installed in itself

The self manifold ended with tomb.ErrDying, which was passed to IsFatal and
could become the engine's final error.
---
 dependency/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index daf4468..ca079ca 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -559,7 +559,7 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 			// need this func to keep running to keep the self manifold
 			// accessible as a resource.
 			<-engine.tomb.Dying()
-			return tomb.ErrDying
+			return nil
 		}
 
 		return worker.Wait()
-- 
2.43.0


From ed6c10f9b3e7a8f6ac2755d2d4273364ea0a9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:54 +0000
Subject: [PATCH 09/12] fix: do not panic when killed with tomb.ErrStillAlive

Catacomb.Kill passed tomb.ErrStillAlive (for example a worker's Wait result)
on to the tomb, which panics on it.
---
 catacomb/catacomb.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..fe0b9aa 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -243,15 +243,19 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // Kill kills the Catacomb's internal tomb with the supplied error, or one
 // derived from it.
 //   - if it's caused by this catacomb's ErrDying, it passes on tomb.ErrDying.
-//   - if it's tomb.ErrDying, or caused by another catacomb's ErrDying, it passes
-//     on a new error complaining about the misuse.
+//   - if it's tomb.ErrDying or tomb.ErrStillAlive, or caused by another
+//     catacomb's ErrDying, it passes on a new error complaining about the
+//     misuse.
 //   - all other errors are passed on unmodified.
 //
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
 // is dead will be ignored.
 func (catacomb *Catacomb) Kill(err error) {
-	if err == tomb.ErrDying {
+	switch err {
+	case tomb.ErrDying:
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
+	case tomb.ErrStillAlive:
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
 	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
-- 
2.43.0


From d54e7b59e446bf4dc2f8bcd472317e0f059b3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 10/12] fix: ignore errors given to Kill after the catacomb is
 dead

The tomb lets a non-nil reason replace a nil one even after it is dead, so
a Kill after Wait had returned nil made later calls of Wait and Err report
an error, although Kill promises to ignore it.
---
 catacomb/catacomb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index fe0b9aa..8346942 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -251,6 +251,12 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
 // is dead will be ignored.
 func (catacomb *Catacomb) Kill(err error) {
+	select {
+	case <-catacomb.tomb.Dead():
+		// The tomb itself would still let err replace a nil reason.
+		return
+	default:
+	}
 	switch err {
 	case tomb.ErrDying:
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
-- 
2.43.0


From 507ffdaeb811ac94450482465bccbd54fadb093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 11/12] fix: report the time of the worker's last start, not of
 the first

---
 runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index 477da47..7a68297 100644
--- a/runner.go
+++ b/runner.go
@@ -98,7 +98,8 @@ type workerInfo struct {
 	// is removed from the runner.
 	done chan struct{}
 
-	// started holds the time the worker was started.
+	// started holds the time the worker was last started, or
+	// the time of the StartWorker call if that is still in progress.
 	started time.Time
 }
 
@@ -583,6 +584,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From 4c9ee6f7b1831ab6310763c38ef4721148c4a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 12/12] fix: do not leave a goroutine behind when the engine is
 installed in itself

---
 dependency/engine.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ca079ca..62a20e3 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -565,11 +565,16 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 		return worker.Wait()
 	}
 
-	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	// We may or may not send on started, but we *must* send on stopped. Only
+	// if this is the engine itself may the loop have finished without us.
+	err := startWorkerAndWait()
+	select {
+	case engine.stopped <- stoppedTicket{
 		name:        name,
-		err:         startWorkerAndWait(),
+		err:         err,
 		resourceLog: snapshot.accessLog,
+	}:
+	case <-engine.tomb.Dead():
 	}
 }
 
-- 
2.43.0

