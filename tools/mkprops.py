#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
R=["runner.go"];E=["dependency/engine.go"];C=["catacomb/catacomb.go"]
p("C01","Runner: at most one live worker per id",
  "For every worker id, a Runner never calls the id's start function while an earlier start call for that id is still executing, or while a worker returned by one has not yet finished. This holds for every mix of StartWorker, StopWorker, StopAndRemoveWorker, worker failures, restarts and shutdown.",
  ["schedules","histories"],"every interleaving of API calls on one id, slow/fast start functions, worker exits, restart timers and shutdown",
  "The suite counts concurrent starts only in single-threaded happy paths; overlap needs a particular interleaving of stop, exit, restart timer and a new StartWorker.",
  R,[("run loop owns the workers map; an entry is removed only when its goroutine reported done","runner.go:run/startWorker/workerDone")],
  [("workers","id -> current entry; present while a start call or worker of that id exists","runner.go:Runner.workers")],
  ["start function entry/return","worker Wait returning"])
p("C02","Runner: StopWorker is final",
  "Once StopWorker(id) has returned nil for a known id, the id's worker is killed, and so is any worker that an already scheduled start call (at most one) still delivers. When it ends with any non-fatal result, or no error, the id is removed and its start function is not called again unless StartWorker is called again.",
  ["schedules","histories"],"StopWorker issued at any point of the worker's life: before/inside its start call, running, exiting, waiting for its restart delay, already stopping",
  "Tests stop a worker only while it is plainly running, and once during the restart delay; they do not stop it inside start or concurrently with its exit and do not check what happens afterwards for every error.",
  R,[("stop marks the entry so that a late worker is killed on arrival and no restart is scheduled","runner.go:killWorkerLocked/setWorker/workerDone")],
  [("stopping/start","entry was deliberately stopped","runner.go:workerInfo")],
  ["worker Kill","start function entry","WorkerNames"])
p("C03","Runner: failed workers are restarted after the restart delay",
  "When a worker or its start function ends with an error that is not fatal and that ShouldRestart accepts, the same start function is called again, not earlier than RestartDelay (3s if unset) after the failure and as soon as that delay has passed. This repeats for every later failure, as long as the id has not been stopped and the runner is not shutting down. The context of a restart is cancelled only by the shutdown of the runner.",
  ["histories","schedules","inputs"],"every sequence of failures of start functions and workers (including a start function that exits its goroutine), any number of ids and restarts",
  "Tests see at most three restarts of one worker and one measured delay.",
  R,[("restart goroutine waits for the clock before calling start","runner.go:workerDone/runWorker")],
  [("restartDelay","delay used for the next restart","runner.go:workerInfo")],["start function entry times","worker exit times"])
p("C04","Runner: finished workers are removed, other workers are left alone",
  "A worker that ends without error, or with a non-fatal error that ShouldRestart rejects, is removed from the runner and is not started again unless StartWorker is called again for its id. The runner never kills a worker unless it was asked to stop that id, was itself killed, or some worker failed fatally.",
  ["histories","schedules"],"every order of worker completions and failures over several ids",
  "Tests check a single completed worker, never the other workers' undisturbed life during arbitrary histories.",
  R,[("done handling removes the entry or schedules a restart","runner.go:workerDone")],[],["start function entry","worker Kill","WorkerNames"])
p("C05","Runner: a fatal error shuts the whole runner down",
  "As soon as a worker or start function ends with an error that IsFatal accepts (every error if IsFatal is unset), every other worker is killed, including those delivered by start calls still in progress, and pending restarts are cancelled. From then on no start function is called, and the runner finishes as soon as the remaining workers have finished, without waiting for any restart delay.",
  ["schedules","histories"],"a fatal error at any point relative to other workers starting, running, stopping or waiting for a restart",
  "Tests use a fatal error with all others plainly running or one inside start.",
  R,[("fatal error marks the runner dying and kills all","runner.go:workerDone/killAll/setWorker")],[("isDying","shutdown has begun","runner.go:Runner.isDying")],
  ["worker Kill","Runner.Wait return","start function entry"])
p("C06","Runner: Wait returns exactly when everything has finished",
  "Kill causes every current worker, and every worker delivered later by a start call still in progress, to be killed, interrupts pending restarts and cancels the contexts of start calls, which are not cancelled before unless the context of the StartWorker call is. Wait never returns while a start call is executing or a worker is still running, always returns once they have all finished, and no start function is called after it has returned.",
  ["schedules","histories","fault_sequences"],"Kill (or a fatal error) at any moment, with workers that take arbitrarily long to start and stop, including ones that fail while stopping",
  "Tests kill idle or simple runners; the shutdown race windows (start in flight, restart timer firing, concurrent StartWorker) are not enumerated.",
  R,[("loop exits only when dying and no entries are left","runner.go:run")],[("workers","entries with a live goroutine","runner.go:Runner.workers")],["Runner.Wait return","worker Wait return"])
p("C07","Runner: Wait reports the most important fatal error",
  "Runner.Wait returns nil if no worker ended with a fatal error, and otherwise the most important of all fatal errors that workers and start functions ended with up to the end of the shutdown, as judged by MoreImportant. If MoreImportant is unset it returns the first fatal error. Non-fatal errors are never returned.",
  ["histories","inputs","schedules"],"every set and order of fatal and non-fatal errors before and during shutdown, however caused",
  "One test with ten workers of increasing importance.",
  R,[("final error bookkeeping","runner.go:workerDone/NewRunner")],[("finalError","best fatal error so far","runner.go:Runner.finalError")],["Runner.Wait result"])
p("C08","Runner: StartWorker accepts each id once and takes effect at once",
  "StartWorker returns an AlreadyExists error exactly when the id is still known to a live runner, and then the given start function is never called; when it returns nil on a runner that is not shutting down, the id is known at once and its start function is called promptly, with no delay. On a runner that has finished it returns ErrDead, and during shutdown it never causes the start function to be called.",
  ["schedules","histories"],"every interleaving of StartWorker with other StartWorker/StopWorker calls on the same id, exits, and shutdown",
  "Tests try a duplicate start only on a running or stopping worker.",
  R,[("start requests are serialised by the run loop and answered","runner.go:StartWorker/startWorker")],[],["StartWorker result","start function entry","WorkerNames"])
p("C09","Runner: Worker returns the current worker or waits for it",
  "Worker(id) returns only a worker of that id that is current, never one known to have finished or been stopped before the call; while a known id has no current worker (starting, or waiting to be restarted) the call waits for it. It returns NotFound only if the id is not known and the runner was not already killed or finished when it was called, ErrDead only if the runner is shutting down, ErrAborted only after abort, and it never stays blocked once a worker is available, the id was removed, the runner was killed or the call was aborted.",
  ["schedules","histories"],"lookups issued and aborted at any moment relative to starts, exits, restarts, removal and shutdown, any number of concurrent lookups",
  "Tests cover one lookup per situation with sleeps; missed wake-ups and stale results need specific interleavings.",
  R,[("lookups wait on a condition variable that the run loop signals","runner.go:workerInfo"),("restart clears the finished worker","runner.go:workerDone")],
  [("worker","current worker of the entry","runner.go:workerInfo.worker")],["Worker result"])
p("C10","Runner: StopAndRemoveWorker stops, removes and reports",
  "StopAndRemoveWorker(id) kills the id's worker and returns that worker's own error only after the worker has finished and the id is no longer known, and the worker is not restarted whatever error it ended with. Every concurrent caller returns, none stays blocked once the id is removed, an aborted call returns ErrAborted without waiting any longer, and a call on a runner that was killed or has finished returns ErrDead, not NotFound.",
  ["schedules","histories"],"any number of concurrent callers, workers that stop slowly or fail while stopping, aborts at any time, concurrent shutdown",
  "Tests use a single caller and a fatal or nil worker error.",
  R,[("removal is announced to waiters","runner.go:removeWorker"),("deliberate stop","runner.go:StopAndRemoveWorker")],[("done","closed when the entry is removed","runner.go:workerInfo.done")],["StopAndRemoveWorker result","WorkerNames"])
p("C11","Runner: WorkerNames and Report tell the truth",
  "When the runner is quiescent, WorkerNames and Report list exactly the known ids: those accepted by StartWorker and neither completed, removed nor stopped-and-ended. Report shows an id as started exactly when its current worker is available to Worker, together with that worker's own report and no other's, and the time when it was last started.",
  ["histories"],"every history of starts, stops, failures, restarts",
  "Tests look at one static set of running workers.",
  R,[("report under the lock that guards the entries","runner.go:Report/WorkerNames")],[],["WorkerNames","Report"])

p("C12","Engine: at most one live worker per manifold",
  "For every installed name, an Engine never calls the manifold's start function while an earlier start call for that name is still executing, or while a worker returned by one has not yet finished, whatever the sequence of dependency changes, bounces, errors, uninstalls, reinstalls and shutdown.",
  ["schedules","histories"],"every interleaving of starts, exits and dependency bounces over any acyclic graph",
  "Tests use graphs of at most three manifolds and a few scripted bounces.",
  E,[("loop goroutine tracks starting/running state per name","dependency/engine.go:requestStart/requestStop/gotStarted/gotStopped")],[("current","name -> state of its worker","dependency/engine.go:Engine.current")],["start function entry/return","worker Wait return"])
p("C13","Engine: no worker keeps running with stale inputs",
  "Whenever the worker of a manifold starts or stops, every manifold that lists it as an input and is starting or running with the previous state of that input is stopped and started again, and every idle one is started again. So once the engine has settled, each live worker was started with exactly the current workers of all its declared inputs, and each idle manifold has already been tried with them.",
  ["schedules","histories","configurations"],"every acyclic graph, every install order (including inputs installed later, uninstalled and reinstalled), every timing of dependency changes relative to start calls and delays",
  "Tests bounce two- or three-node chains at quiet moments.",
  E,[("bounceDependents on every start and stop","dependency/engine.go:bounceDependents"),("inputs snapshotted when a start is requested; changes cancel it","dependency/engine.go:snapshot/requestStop")],
  [("dependents","input name -> names to bounce","dependency/engine.go:Engine.dependents")],["what Getter.Get returned in the start call","worker Kill","start function entry"])
p("C14","Engine: workers with unchanged inputs are left alone",
  "An engine that is not shutting down kills a worker, or cancels its start, only if one of that manifold's own declared inputs started or stopped since the start was requested. A manifold whose worker finished without error, or reported a missing dependency, is not started again until one of its declared inputs changes.",
  ["schedules","histories","configurations"],"every acyclic graph and history",
  "Tests check only that one completed worker is not restarted for 50ms.",
  E,[("bounce only along declared dependencies","dependency/engine.go:bounceDependents/gotStopped")],[],["worker Kill","start context cancellation","start function entry"])
p("C15","Engine: the exit error decides what happens next",
  "After a manifold's filter (if any) has converted its error, a worker or start function that ended by itself with ErrBounce is started again after the bounce delay, with ErrUninstall is removed so that its name can be installed again, with nil or ErrMissing stays down until an input changes, and with any other non-fatal error is started again after the error delay. The same holds for errors that wrap these values.",
  ["inputs","histories"],"every error value and wrapping, from start functions and workers, filtered or not, in every state of the manifold",
  "One scripted example per error value.",
  E+["dependency/interface.go"],[("error dispatch","dependency/engine.go:gotStopped")],[],["start function entry","Install result","Report"])
p("C16","Engine: restart delays and exponential backoff",
  "An installed manifold is first started without delay; a bounced one after BounceDelay, a failed one after ErrorDelay, each varied by at most 10%. With a backoff factor the delay is multiplied by it for each further consecutive failure, limited by MaxDelay; a clean exit, or having run for BackoffResetTime, makes the next failure count as the first again, and a first failure is never delayed less than the base delay allows.",
  ["inputs","histories"],"every configuration of the delays and every history of failures, clean exits, long runs and bounces",
  "Two scripted sequences of three failures.",
  E,[("delay computation","dependency/engine.go:requestStart"),("consecutive failure count","dependency/engine.go:gotStopped")],[("recentErrors","consecutive failures","dependency/engine.go:workerInfo.recentErrors")],["time between worker exit and next start call"])
p("C17","Engine: Getter exposes exactly the declared inputs",
  "During a start call, Get succeeds for a name only if it is declared as an input and its worker was running when the start was requested, hands that worker (and no other) to the input's own output function, and otherwise returns ErrMissing, including when an output is requested from a manifold that exposes none. After the start call has returned, every Get fails and never reaches an output function.",
  ["inputs","histories"],"every name, declared or not, in every state of its manifold, with and without output function, during and after the start call",
  "One scripted case per rule.",
  ["dependency/snapshot.go","dependency/engine.go"],[("snapshot of workers and outputs restricted to inputs; expiry","dependency/snapshot.go:Get/rawAccess/expire")],[],["Getter.Get result"])
p("C18","Engine: fatal errors stop the engine and the worst one is reported",
  "When a worker or start function ends with an error that, after the manifold's filter, IsFatal accepts, the engine shuts down; when it is shut down, Wait returns the result of folding WorstError over all such errors, passed through the engine's filter, and nil if there were none. An error that no worker or start function returned is never treated as fatal.",
  ["schedules","histories","inputs"],"every set and order of fatal errors before and during shutdown, and plain Kill at any moment (also with starts pending)",
  "Tests inject one fatal error, or two with a constant WorstError.",
  E,[("fatal error tracking","dependency/engine.go:gotStopped/Wait")],[("worstError","fold of fatal errors","dependency/engine.go:Engine.worstError")],["Engine.Wait result"])
p("C19","Engine: Wait returns exactly when every worker has finished",
  "Kill, or a fatal error, makes the engine kill every worker, including those delivered by start calls still in progress, cancel the contexts of pending start calls, and start nothing more. Wait never returns while a start call is executing or a worker is running, and always returns once they have finished, also if the engine is installed in itself.",
  ["schedules","histories"],"Kill or fatal error at any moment relative to starts, delays, exits, installs, with slow workers and slow start functions",
  "Tests kill engines at quiet moments.",
  E,[("loop exits only when dying and all others stopped","dependency/engine.go:loop/allOthersStopped"),("start aborts when dying","dependency/engine.go:runWorker")],[],["Engine.Wait return","worker Kill","start function entry"])
p("C20","Engine: Install keeps the dependency graph acyclic and names unique",
  "Install and Validate reject a manifold exactly when the graph of installed manifolds together with it contains a cycle, and Install also rejects a name that is still installed; a rejected manifold is never started and changes nothing. Everything else is accepted and started, whatever the order of installation and whether or not its inputs are installed yet; a name can be reused after it was uninstalled. The Install helper for several manifolds installs all of them, or stops at the first error and returns it.",
  ["inputs","configurations","histories"],"every directed graph and every install order, with uninstalls in between",
  "A trivial cycle, one two-node cycle and one eight-node graph.",
  ["dependency/util.go","dependency/engine.go"],[("topological visit","dependency/util.go:Validate"),("duplicate check","dependency/engine.go:gotInstall")],[],["Install result","Validate result","start function entry"])
p("C21","Engine: Report describes the actual state of every manifold",
  "Report lists exactly the installed manifolds with their declared inputs; when the engine is settled, each one's state is started exactly if its worker is running and has not been told to stop, starting if a start call is pending or executing, and stopped only if there is neither a pending start nor a worker. It comes with the number of successful starts, the time of the last one, the worker's own report and, when stopped, the last error. The engine itself is reported as started, stopping or stopped accordingly.",
  ["histories","schedules"],"every history of installs, starts, failures, bounces and shutdown",
  "A handful of static situations.",
  E+["dependency/reporter.go"],[("live report taken on the loop goroutine","dependency/engine.go:liveReport/manifoldsReport")],[],["Report"])

p("C22","Catacomb: dead exactly when the work and all workers have finished",
  "A catacomb becomes dead, and Wait returns, only after its work function has returned and every worker it took over through Init or a successful Add has finished. It does become dead as soon as all of that has happened.",
  ["schedules","histories"],"Add, Kill, worker exits and the end of the work function in every order and overlap",
  "Stress tests check only that nothing deadlocks.",
  C,[("wait group covers the add listener and two goroutines per worker","catacomb/catacomb.go:Invoke/add")],[("wg","outstanding goroutines","catacomb/catacomb.go:Catacomb.wg")],["Wait/Dead","worker Wait return"])
p("C23","Catacomb: any failure kills everything, clean completion nothing",
  "When the work function returns, a worker ends with an error, or Kill is called, the catacomb is dying and every worker it is responsible for is killed, including any added concurrently. A worker that ends without error leaves the catacomb and all its other workers untouched, and a catacomb that is not dying kills no worker.",
  ["schedules","histories"],"every order and overlap of worker ends, Kill, Add and work function return",
  "Tests look at one worker at a time.",
  C,[("per-worker goroutines propagate errors and deaths","catacomb/catacomb.go:add")],[],["Dying","worker Kill"])
p("C24","Catacomb: the first real error wins",
  "Wait and Err report the first non-nil error passed to Kill, returned by the work function or by a worker; nil never replaces an error, an error does replace nil, and this catacomb's own ErrDying (even wrapped) replaces nothing. Foreign or misused dying errors are replaced by a distinct error instead of being mistaken for a clean exit, errors given after the catacomb is dead are ignored, and Kill never panics, whatever error it is given.",
  ["inputs","schedules","histories"],"every sequence and overlap of kills with nil, plain, wrapped and dying errors, own or foreign",
  "Pairs of sequential kills.",
  C,[("Kill translates dying errors","catacomb/catacomb.go:Kill/ErrDying")],[],["Wait result","Err"])
p("C25","Catacomb: responsibility for workers is never dropped",
  "If Invoke fails, because the plan is invalid or the catacomb was already used, every worker in Init has been killed and has finished when it returns, the work function is not run, and an earlier use of the catacomb is not disturbed. If Add fails, the worker has been killed and has finished, the catacomb is dying, and the result is the worker's own error or the catacomb's ErrDying; if Add succeeds the catacomb is responsible for the worker even if it is dying at that moment.",
  ["inputs","schedules"],"every invalid plan shape, reuse, and Add racing with the catacomb's death",
  "Each invalid field once; Add only when plainly dying or dead.",
  C,[("deferred stop of Init workers","catacomb/catacomb.go:Invoke/stopWorkers"),("Add stops the worker when dying","catacomb/catacomb.go:Add")],[],["Invoke result","Add result","worker Kill/Wait"])
p("C26","Catacomb: panics in the work function and contexts",
  "A panic in the work function kills the catacomb with an error that describes the panic and reports itself as a panic, with the stack of the panic in its StackTrace, and the workers are stopped as after any other failure. Every context obtained from the catacomb is cancelled as soon as the catacomb is dying or its parent context is cancelled, and not before.",
  ["inputs","schedules"],"every panic value, contexts with any parent requested before or after the catacomb starts dying",
  "One string panic, two context cases.",
  C,[("runSafely","catacomb/catacomb.go:runSafely"),("tomb context","catacomb/catacomb.go:Context")],[],["Wait result","context Done"])
p("C27","Stop and Dead agree with the worker",
  "Stop kills the worker, returns only after the worker has finished, and returns the worker's own error. The channel returned by Dead is closed once the worker has finished and never before; a worker's own non-nil Dead channel is used as is.",
  ["schedules","inputs"],"every worker implementation and timing",
  "One example each.",
  ["worker.go"],[("Stop, Dead","worker.go:Stop/Dead")],[],["Stop result","Dead channel"])
p("C28","Test workers and check helpers behave as what they stand for",
  "The workers of workertest end exactly when and with the error they promise: an error worker runs until killed, a dead worker is finished from the start, a forever worker ignores Kill, a fake watcher delivers exactly the preloaded and pinged changes. CheckAlive fails the test exactly if the worker ends while it watches; the kill helpers kill the worker where they say so, return its own error after it has finished, and fail the test exactly when it does not finish in time, or, for CleanKill, when it ends with an error.",
  ["inputs","schedules","histories"],"every order and overlap of kills, exits, waits and helper calls on every kind of worker",
  "One example per helper.",
  ["workertest/workers.go","workertest/check.go","workertest/fake_watcher.go"],[("tomb based workers","workertest/workers.go"),("helpers wait with a timeout","workertest/check.go")],[],["Wait result","test status","helper result"])
p("C29","No data races between API calls",
  "No two goroutines of the library access the same memory without synchronisation, whatever the API calls made concurrently.",
  ["schedules"],"every concurrent use of the exported API",
  "The race detector sees only the executed interleavings.",
  R+E+C,[("loop ownership and mutexes","runner.go, dependency/engine.go, catacomb/catacomb.go")],[],[])
p("C30","Stub getter: Get answers exactly as configured",
  "The stub getter of dependency/testing answers Get for an unknown name with an error, for a configured error with that error, for a nil target with nil, and otherwise sets the target to the first configured output that can be converted to its type, or returns an error and leaves the target alone. It never panics on a configured output, whichever way the resources were built.",
  ["inputs"],"every combination of configured resources, outputs, targets and construction function",
  "The stub getter has no tests.",
  ["dependency/testing/stub.go"],[("reflection over outputs","dependency/testing/stub.go:Getter.Get")],[],["Get result","target value"])
p("C31","Engine and runner: configuration, metrics and self manifold",
  "NewEngine and NewRunner accept exactly the valid configurations and otherwise return an error and no engine or runner. The engine tells its Metrics about each successful start of a worker exactly once. SelfManifold starts as the engine itself and exposes it as Installer and Reporter, and nothing else.",
  ["inputs","histories"],"every combination of configuration fields, every history of starts, every requested output type",
  "Each field once; metrics are never checked.",
  ["dependency/engine.go","dependency/util.go","dependency/metrics.go","runner.go"],[("Validate","dependency/engine.go:EngineConfig.Validate"),("RecordStart","dependency/engine.go:gotStarted"),("SelfManifold","dependency/util.go:SelfManifold")],[],["NewEngine result","Metrics calls","Get result"])
p("C32","Nothing is left running",
  "Once a runner, engine or catacomb has finished and every call made to it has returned, none of the goroutines it started remains, whatever calls were aborted or failed and whatever workers, start functions, restarts and late answers there were. While it lives, finished workers, failed starts, restarts and aborted calls leave no goroutines that pile up. The same holds for Stop, Dead and the helpers of workertest once their worker has finished.",
  ["schedules","histories"],"every interleaving of calls, aborts, failures and shutdown",
  "Tests never look for goroutines that stay behind; a leak needs a particular order of an abort or a shutdown and an answer nobody waits for, or a long life with many short-lived workers.",
  ["runner.go","dependency/engine.go","catacomb/catacomb.go","worker.go","workertest/check.go"],[("lookup goroutine","runner.go:workerInfo"),("worker goroutines","runner.go:runWorker, dependency/engine.go:runWorker, catacomb/catacomb.go:add"),("waiting goroutines","worker.go:Dead, workertest/check.go")],[],["goroutines left when everything has finished"])
p("C33","Work is attributable: profile labels and the caller's context",
  "Every start call a runner makes, the first one and each restart, runs on a goroutine and with a context that are labelled for profiling with type worker, the runner's name and the id of the worker, and a catacomb's work function runs on a goroutine labelled with type catacomb and the name of the plan; none carries the name or id of anything else. The context of a worker's first start call carries the values of the context given to StartWorker.",
  ["histories"],"every start and restart of every id, every invocation",
  "A missing or wrong label fails no ordinary test and is noticed only when a profile of a running system has to be read.",
  ["runner.go","catacomb/catacomb.go"],[("labels of start calls","runner.go:startWorker, runner.go:workerDone"),("labels of the work function","catacomb/catacomb.go:Invoke")],[],["profile labels and context values inside start and work functions"])
p("C34","Runner: a start function that does not return",
  "A start function that ends its goroutine with runtime.Goexit (a failed assertion of a test, for instance) counts as one that returned an error, whenever it happens: IsFatal and ShouldRestart decide about that error, the id is restarted after the delay or removed, a fatal one shuts the runner down and is what Wait returns, and the runner never waits for that call again. A panic of a start function is not swallowed: it ends the process, with its value.",
  ["inputs","schedules"],"Goexit and panic in the first start call or a restart, before or after StopWorker, Kill or a fatal error, whatever IsFatal and ShouldRestart answer",
  "One test calls Goexit once, in a first start with nothing else going on; a panic in a start function cannot be tested in the same process.",
  ["runner.go"],[("deferred handling of a start call that does not return","runner.go:runWorker")],[],["WorkerNames, later start calls, results of Wait","exit of a child process"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
