------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The design of worker.Runner (runner.go), one action per critical section *)
(* or channel communication, together with an environment of clients,      *)
(* start functions and workers.  Every action says in ev' which events of  *)
(* RunnerContract it makes visible; con is the contract's observer, so     *)
(* that Ok states that the design keeps the contract.                      *)
(*                                                                         *)
(* Time passes only when nothing else can happen (Tick), which is also how *)
(* the harness runs the real code.  Quiesce is the snapshot taken at rest. *)
(***************************************************************************)
EXTENDS RunnerContract, Json

SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)
FoldLeft(op(_, _), base, seq) == SX!FoldLeft(op, base, seq)

CONSTANTS Ids,        \* worker ids
          MaxOps,     \* operations of the environment
          Burst,      \* operations of the environment between two moments of rest
          Ops,        \* which operations are used
          Outs,       \* what start functions may do: ok, hold, err, goexit
          Classes,    \* classes of errors: nil, R1, N1, F1, F2
          Slow,       \* {FALSE}, {TRUE} or BOOLEAN: do workers take their time to stop
          More,       \* MoreImportant compares ranks
          Gx          \* the class of the error that stands for a Goexit

VARIABLES now, tomb, loop, W, G, I, K, removed, con, ev, ops, burst, hist, rest

vars == <<now, tomb, loop, W, G, I, K, removed, con, ev, ops, burst, hist, rest>>

Delay == 1000000
Nil == [none |-> TRUE]
NoErr == [cls |-> "nil", rank |-> 0, code |-> "nil"]

ClsOf(k) == CASE k = "nil" -> "nil" [] k \in {"F1", "F2"} -> "fatal" [] k = "N1" -> "norestart" [] OTHER -> "restart"
MkErr(k, n) == IF k = "nil" THEN NoErr
               ELSE [cls |-> ClsOf(k), rank |-> IF k = "F2" THEN 2 ELSE 1, code |-> k \o "-" \o ToString(n)]

NewK(op, id, pc) == [op |-> op, id |-> id, pc |-> pc, ab |-> FALSE, plan |-> <<>>, w |-> 0, of |-> 0, woken |-> FALSE, stray |-> "", res |-> "-"]

Init ==
  /\ now = 0 /\ tomb = "alive" /\ loop = [pc |-> "idle", dying |-> FALSE, fin |-> NoErr]
  /\ W = [id \in Ids |-> Nil] /\ G = NoFun /\ I = NoFun /\ removed = {}
  /\ K = (1 :> NewK("wait", "", "wait"))
  /\ ev = <<[k |-> "cfg", delay |-> Delay, more |-> More], [k |-> "call", c |-> 1, op |-> "wait", id |-> ""]>>
  /\ con = Step(Step(CInit, ev[1]), ev[2])
  /\ ops = 0 /\ burst = 0 /\ hist = <<>> /\ rest = FALSE

\* What an action shows, and that it was not the end of everything.
Emit(evs) ==
  /\ ev' = [i \in 1..Len(evs) |-> evs[i] @@ [at |-> now]]
  /\ con' = FoldLeft(LAMBDA s, e: Step(s, e), con, ev')
Quiet == ev' = <<>> /\ con' = con
Busy2 == rest' = FALSE

Entry(id) == W[id]
Known(id) == W[id] # Nil
Dying == tomb # "alive"
Alive(n) == ~I[n].over

Ret(c, res, err, n) == [k |-> "ret", c |-> c, op |-> K[c].op, id |-> K[c].id, res |-> res, err |-> err, n |-> n]

---------------------------------------------------------------------------
(* Killing: under the mutex. *)

\* Kill(w) shows an event unless the worker has ended or was killed before.
KillEvs(n) == IF Alive(n) /\ ~I[n].killed THEN <<[k |-> "kill", n |-> n, id |-> I[n].id]>> ELSE <<>>
KillI(J, n) == IF ~J[n].over THEN [J EXCEPT ![n].killed = TRUE] ELSE J

KillEntry(e) == [e EXCEPT !.stopping = TRUE, !.start = FALSE, !.w = 0]

\* All entries of S are killed: the new W and I, and the events.
KW(Wn, S) == [id \in Ids |-> IF id \in S /\ Wn[id] # Nil THEN KillEntry(Wn[id]) ELSE Wn[id]]
KWorkers(Wn, S) == {Wn[id].w : id \in {x \in S : Wn[x] # Nil}} \ {0}
KI(J, Wn, S) == [n \in DOMAIN J |-> IF n \in KWorkers(Wn, S) /\ ~J[n].over THEN [J[n] EXCEPT !.killed = TRUE] ELSE J[n]]
KEvs(Wn, S) == FoldLeft(LAMBDA s, n: s \o KillEvs(n), <<>>, SetToSeq(KWorkers(Wn, S)))

\* The broadcast that follows every step of the loop.
Wake(L) == [c \in DOMAIN L |-> IF L[c].pc = "waiting" THEN [L[c] EXCEPT !.woken = TRUE]
                               ELSE IF L[c].stray = "wait" THEN [L[c] EXCEPT !.stray = "woken"] ELSE L[c]]

---------------------------------------------------------------------------
(* The environment. *)

Env(o) == ops < MaxOps /\ burst < Burst /\ ops' = ops + 1 /\ burst' = burst + 1 /\ hist' = Append(hist, o)
Keep == ops' = ops /\ burst' = burst /\ hist' = hist

NewCall(op, id, pc, o) ==
  LET c == Len(SetToSeq(DOMAIN K)) + 1 IN
  /\ Env(o @@ [c |-> c])
  /\ K' = Set(K, c, NewK(op, id, pc))
  /\ Emit(<<[k |-> "call", c |-> c, op |-> op, id |-> id]>>)
  /\ Busy2
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

CallStart(id) == "start" \in Ops /\ NewCall("start", id, "send", [o |-> "start", id |-> id])
CallStop(id) == "stop" \in Ops /\ NewCall("stop", id, "send", [o |-> "stop", id |-> id])
CallRemove(id) == "remove" \in Ops /\ NewCall("remove", id, "look", [o |-> "remove", id |-> id])
CallWorker(id) == "worker" \in Ops /\ NewCall("worker", id, "look", [o |-> "worker", id |-> id])
CallKill == "kill" \in Ops /\ \A c \in DOMAIN K : K[c].op # "kill"
            /\ NewCall("kill", "", "send", [o |-> "kill", id |-> ""])

Abort(c) ==
  /\ "abort" \in Ops /\ K[c].op \in {"remove", "worker"} /\ K[c].pc # "done" /\ ~K[c].ab
  /\ Env([o |-> "abort", c |-> c, id |-> ""])
  /\ K' = [K EXCEPT ![c].ab = TRUE]
  /\ Emit(<<[k |-> "abort", c |-> c]>>) /\ Busy2
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* A held start call goes on.
Release(c, out, cls) ==
  /\ G[c].pc = "hold"
  /\ Env([o |-> "rel", c |-> c, id |-> K[c].id, out |-> out, e |-> cls])
  /\ G' = [G EXCEPT ![c].pc = "out", ![c].out = out, ![c].err = MkErr(cls, G[c].n)]
  /\ Quiet /\ Busy2
  /\ UNCHANGED <<now, tomb, loop, W, I, K, removed>>

End(n, e) == [k |-> "exit", n |-> n, id |-> I[n].id, err |-> e.code, cls |-> e.cls, rank |-> e.rank]

\* A worker ends by itself, or finally after being killed.
ExitEnv(n, cls) ==
  /\ ~I[n].over /\ I[n].up /\ (I[n].killed => I[n].slow)
  /\ Env([o |-> "exit", c |-> n, id |-> I[n].id, e |-> cls])
  /\ I' = [I EXCEPT ![n].over = TRUE, ![n].err = MkErr(cls, n)]
  /\ Emit(<<End(n, MkErr(cls, n))>>) /\ Busy2
  /\ UNCHANGED <<now, tomb, loop, W, G, K, removed>>

---------------------------------------------------------------------------
(* Workers and start functions. *)

ExitKilled(n, cls) ==
  /\ ~I[n].over /\ I[n].killed /\ ~I[n].slow
  /\ I' = [I EXCEPT ![n].over = TRUE, ![n].err = MkErr(cls, n)]
  /\ K' = [K EXCEPT ![I[n].c].plan[I[n].k].ke = cls]
  /\ Emit(<<End(n, MkErr(cls, n))>>) /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, removed>>

\* runWorker: the restart delay is interrupted, or has passed.
DelayDying(c) ==
  /\ G[c].pc = "delay" /\ Dying
  /\ G' = [G EXCEPT ![c].pc = "sendD", ![c].err = NoErr]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, I, K, removed>>

DelayOver(c) ==
  /\ G[c].pc = "delay" /\ now >= G[c].until
  /\ G' = [G EXCEPT ![c].pc = "call"]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, I, K, removed>>

StartIn(c, out, cls) ==
  /\ G[c].pc = "call"
  /\ (out # "err" => cls = "nil") /\ (out = "err" => cls # "nil")
  /\ LET n == Len(SetToSeq(DOMAIN I)) + 1 IN
     /\ I' = Set(I, n, [c |-> c, k |-> Len(K[c].plan) + 1, id |-> K[c].id, killed |-> FALSE, over |-> FALSE, up |-> FALSE, slow |-> FALSE, err |-> NoErr])
     /\ G' = [G EXCEPT ![c].pc = IF out = "hold" THEN "hold" ELSE "out", ![c].n = n, ![c].out = out, ![c].err = MkErr(cls, n)]
     /\ Emit(<<[k |-> "startIn", n |-> n, id |-> K[c].id, c |-> c, lab |-> TRUE, val |-> TRUE]>>)
  /\ K' = [K EXCEPT ![c].plan = Append(@, [out |-> out, e |-> cls, kill |-> "", ke |-> "nil"])]
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, removed>>

StartOut(c, slow) ==
  /\ G[c].pc = "out"
  /\ LET n == G[c].n
         ok == G[c].out = "ok"
         e == IF ok THEN NoErr ELSE IF G[c].out = "goexit" THEN [cls |-> Gx, rank |-> 0, code |-> "?"] ELSE G[c].err
     IN /\ (~ok => slow = FALSE)
        /\ G' = [G EXCEPT ![c].pc = IF ok THEN "sendS" ELSE "sendD", ![c].err = e]
        /\ I' = [I EXCEPT ![n].up = ok, ![n].over = ~ok, ![n].slow = slow, ![n].err = e]
        /\ Emit(<<[k |-> "startOut", n |-> n, id |-> K[c].id, c |-> c, out |-> G[c].out, err |-> e.code, cls |-> e.cls, rank |-> e.rank]>>)
  /\ K' = [K EXCEPT ![c].plan = [@ EXCEPT ![Len(@)].kill = IF slow THEN "slow" ELSE ""]]
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, removed>>

\* worker.Wait returns.
WaitReturns(c) ==
  /\ G[c].pc = "run" /\ I[G[c].n].over
  /\ G' = [G EXCEPT ![c].pc = "sendD", ![c].err = I[G[c].n].err]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, I, K, removed>>

---------------------------------------------------------------------------
(* The run loop. *)

LoopIdle == loop.pc = "idle" /\ ~(loop.dying /\ \A id \in Ids : ~Known(id))

LoopExit ==
  /\ loop.pc = "idle" /\ loop.dying /\ \A id \in Ids : ~Known(id)
  /\ loop' = [loop EXCEPT !.pc = "gone"] /\ tomb' = "dead"
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, W, G, I, K, removed>>

LoopDying ==
  /\ LoopIdle /\ Dying /\ "saw" \notin DOMAIN loop
  /\ W' = KW(W, Ids) /\ I' = KI(I, W, Ids) /\ Emit(KEvs(W, Ids))
  /\ loop' = [pc |-> "idle", dying |-> TRUE, fin |-> loop.fin, saw |-> TRUE]
  /\ K' = Wake(K)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, G, removed>>

LoopStart(c) ==
  /\ LoopIdle /\ K[c].op = "start" /\ K[c].pc = "send"
  /\ LET id == K[c].id IN
     IF loop.dying THEN K' = Wake([K EXCEPT ![c].pc = "reply", ![c].res = "ok"]) /\ UNCHANGED <<W, G>>
     ELSE IF Known(id) THEN K' = Wake([K EXCEPT ![c].pc = "reply", ![c].res = "exists"]) /\ UNCHANGED <<W, G>>
     ELSE /\ K' = Wake([K EXCEPT ![c].pc = "reply", ![c].res = "ok"])
          /\ W' = [W EXCEPT ![id] = [c |-> c, stopping |-> FALSE, start |-> TRUE, w |-> 0, at |-> now]]
          /\ G' = Set(G, c, [pc |-> "call", n |-> 0, until |-> 0, err |-> NoErr, out |-> "-"])
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, I, removed>>

LoopStop(c) ==
  /\ LoopIdle /\ K[c].pc = "send" /\ K[c].op \in {"stop", "remove"}
  /\ W' = KW(W, {K[c].id}) /\ I' = KI(I, W, {K[c].id}) /\ Emit(KEvs(W, {K[c].id}))
  /\ K' = Wake([K EXCEPT ![c].pc = IF K[c].op = "stop" THEN "reply" ELSE "done?", ![c].res = "ok"])
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, G, removed>>

LoopStarted(c) ==
  /\ LoopIdle /\ G[c].pc = "sendS"
  /\ LET id == K[c].id
         Wn == [W EXCEPT ![id].w = G[c].n, ![id].at = now]
         die == loop.dying \/ W[id].stopping
     IN IF die THEN W' = KW(Wn, {id}) /\ I' = KI(I, Wn, {id}) /\ Emit(KEvs(Wn, {id}))
        ELSE W' = Wn /\ I' = I /\ Quiet
  /\ G' = [G EXCEPT ![c].pc = "run"]
  /\ K' = Wake(K)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, removed>>

RemoveEntry(id) == W' = [W EXCEPT ![id] = Nil] /\ removed' = removed \cup {W[id].c}

LoopDone(c) ==
  /\ LoopIdle /\ G[c].pc = "sendD"
  /\ LET id == K[c].id
         e == G[c].err
         x == W[id]
     IN CASE e.cls = "fatal" ->
               LET better == loop.fin = NoErr \/ (More /\ e.rank > loop.fin.rank)
                   fin == IF better THEN e ELSE loop.fin
               IN /\ RemoveEntry(id)
                  /\ G' = [G EXCEPT ![c].pc = "none"]
                  /\ loop' = IF loop.dying THEN [loop EXCEPT !.fin = fin] ELSE [loop EXCEPT !.fin = fin, !.pc = "fatal"]
                  /\ K' = IF loop.dying THEN Wake(K) ELSE K
          [] (e.cls = "nil" /\ ~x.stopping) \/ e.cls = "norestart" \/ ~x.start ->
               /\ RemoveEntry(id)
               /\ G' = [G EXCEPT ![c].pc = "none"]
               /\ loop' = loop
               /\ K' = Wake(K)
          [] OTHER ->
               /\ W' = [W EXCEPT ![id].w = 0]
               /\ G' = [G EXCEPT ![c].pc = "delay", ![c].until = now + Delay]
               /\ loop' = loop
               /\ K' = Wake(K)
               /\ removed' = removed
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, I>>

\* A fatal error: the tomb is killed, then all workers.
LoopFatal ==
  /\ loop.pc = "fatal"
  /\ tomb' = IF tomb = "alive" THEN "dying" ELSE tomb
  /\ W' = KW(W, Ids) /\ I' = KI(I, W, Ids) /\ Emit(KEvs(W, Ids))
  /\ loop' = [loop EXCEPT !.pc = "idle", !.dying = TRUE]
  /\ K' = Wake(K)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, G, removed>>

---------------------------------------------------------------------------
(* The calls. *)

Finish(c, evs) == K' = [K EXCEPT ![c].pc = "done"] /\ Emit(evs)

RetStartStop(c) ==
  /\ K[c].op \in {"start", "stop"} /\ K[c].pc = "reply"
  /\ Finish(c, <<Ret(c, K[c].res, "-", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

RetDead(c) ==
  /\ K[c].op \in {"start", "stop"} /\ K[c].pc = "send" /\ tomb = "dead"
  /\ Finish(c, <<Ret(c, "dead", "-", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* StopAndRemoveWorker goes on even if the runner is dead.
RemoveDead(c) ==
  /\ K[c].op = "remove" /\ K[c].pc = "send" /\ tomb = "dead"
  /\ K' = [K EXCEPT ![c].pc = "done?"]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

RunKill(c) ==
  /\ K[c].op = "kill" /\ K[c].pc = "send"
  /\ tomb' = IF tomb = "alive" THEN "dying" ELSE tomb
  /\ Finish(c, <<Ret(c, "ok", "nil", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, loop, W, G, I, removed>>

RunWait(c) ==
  /\ K[c].op = "wait" /\ K[c].pc = "wait" /\ tomb = "dead"
  /\ Finish(c, <<Ret(c, "ok", loop.fin.code, 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* workerInfo: the look at the map under the mutex.
Look(c) ==
  /\ K[c].pc = "look"
  /\ LET id == K[c].id IN
     K' = [K EXCEPT ![c] =
            IF ~Known(id) THEN [@ EXCEPT !.pc = "looked", !.res = "notfound"]
            ELSE IF W[id].w # 0 THEN [@ EXCEPT !.pc = "looked", !.res = "ok", !.w = W[id].w, !.of = W[id].c]
            ELSE [@ EXCEPT !.pc = "waiting", !.woken = FALSE]]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* The waiting goroutine looks again after a broadcast.
LookAgain(c) ==
  /\ K[c].pc = "waiting" /\ K[c].woken
  /\ LET id == K[c].id IN
     K' = [K EXCEPT ![c] =
            IF ~Known(id) THEN [@ EXCEPT !.pc = "heard", !.res = "notfound"]
            ELSE IF W[id].w # 0 THEN [@ EXCEPT !.pc = "heard", !.res = "ok", !.w = W[id].w, !.of = W[id].c]
            ELSE [@ EXCEPT !.woken = FALSE]]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* workerInfo returns res.
InfoRet(c, res) ==
  IF K[c].op = "worker" THEN Finish(c, <<Ret(c, res, "-", IF res = "ok" THEN K[c].w ELSE 0)>>)
  ELSE IF res = "ok" THEN K' = [K EXCEPT ![c].pc = "send"] /\ Quiet
  ELSE Finish(c, <<Ret(c, res, "-", 0)>>)

Looked(c) ==
  /\ K[c].pc \in {"looked", "heard"}
  /\ InfoRet(c, IF Dying /\ (K[c].pc = "looked" \/ K[c].res = "notfound") THEN "dead" ELSE K[c].res)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

\* The select of workerInfo may prefer the death of the runner, or the abort.
\* The goroutine that waits for the caller stays until it is woken.
Desert(c, res) ==
  K' = [K EXCEPT ![c].pc = "done", ![c].res = res,
                 ![c].stray = IF K[c].pc = "heard" THEN "" ELSE IF K[c].woken THEN "woken" ELSE "wait"]
LookDead(c) ==
  /\ K[c].pc \in {"waiting", "heard"} /\ Dying
  /\ Desert(c, "dead") /\ Emit(<<Ret(c, "dead", "-", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>
LookAbort(c) ==
  /\ K[c].pc \in {"waiting", "heard"} /\ K[c].ab
  /\ Desert(c, "aborted") /\ Emit(<<Ret(c, "aborted", "-", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>
\* A deserted goroutine sees that it was aborted, or that there is something to tell, or waits on.
StrayAgain(c) ==
  /\ K[c].stray = "woken"
  /\ K' = [K EXCEPT ![c].stray = IF K[c].res # "aborted" /\ Known(K[c].id) /\ W[K[c].id].w = 0 THEN "wait" ELSE ""]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

RemoveDone(c) ==
  /\ K[c].pc = "done?" /\ K[c].of \in removed
  /\ Finish(c, <<Ret(c, "ok", I[K[c].w].err.code, 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>
RemoveAbort(c) ==
  /\ K[c].pc = "done?" /\ K[c].ab
  /\ Finish(c, <<Ret(c, "aborted", "-", 0)>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, loop, W, G, I, removed>>

---------------------------------------------------------------------------
Internal ==
  \/ LoopExit \/ LoopDying \/ LoopFatal
  \/ \E c \in DOMAIN G :
       \/ DelayDying(c) \/ DelayOver(c) \/ WaitReturns(c) \/ LoopStarted(c) \/ LoopDone(c)
       \/ \E out \in Outs, cls \in Classes : StartIn(c, out, cls)
       \/ \E s \in Slow : StartOut(c, s)
  \/ \E n \in DOMAIN I, cls \in Classes : ExitKilled(n, cls)
  \/ \E c \in DOMAIN K :
       \/ LoopStart(c) \/ LoopStop(c) \/ RetStartStop(c) \/ RetDead(c) \/ RemoveDead(c)
       \/ RunKill(c) \/ RunWait(c) \/ Look(c) \/ LookAgain(c) \/ Looked(c) \/ LookDead(c) \/ LookAbort(c)
       \/ RemoveDone(c) \/ RemoveAbort(c) \/ StrayAgain(c)

\* Something internal can happen.
Can ==
  \/ loop.pc = "fatal"
  \/ loop.pc = "idle" /\ loop.dying /\ \A id \in Ids : ~Known(id)
  \/ LoopIdle /\ Dying /\ "saw" \notin DOMAIN loop
  \/ \E c \in DOMAIN G :
       \/ G[c].pc = "delay" /\ (Dying \/ now >= G[c].until)
       \/ G[c].pc \in {"call", "out"}
       \/ G[c].pc = "run" /\ I[G[c].n].over
       \/ G[c].pc \in {"sendS", "sendD"} /\ LoopIdle
  \/ \E n \in DOMAIN I : ~I[n].over /\ I[n].killed /\ ~I[n].slow
  \/ \E c \in DOMAIN K :
       \/ K[c].pc \in {"reply", "look", "looked", "heard"} \/ K[c].stray = "woken"
       \/ K[c].pc = "send" /\ (LoopIdle \/ tomb = "dead" \/ K[c].op = "kill")
       \/ K[c].pc = "wait" /\ tomb = "dead"
       \/ K[c].pc = "waiting" /\ (K[c].woken \/ Dying \/ K[c].ab)
       \/ K[c].pc = "done?" /\ (K[c].of \in removed \/ K[c].ab)

Rep(id) == [id |-> id, st |-> IF W[id].w # 0 THEN "started" ELSE "stopped",
            n |-> IF W[id].w # 0 /\ W[id].w % 3 # 0 THEN W[id].w ELSE 0, ls |-> W[id].at]

\* The goroutines of the runner, beside its loop.
Left == {c \in DOMAIN G : G[c].pc # "none"} \cup {c \in DOMAIN K : K[c].stray # ""}
Quiesce ==
  /\ ~rest /\ ~Can
  /\ LET ks == SetToSeq({id \in Ids : Known(id)}) IN
     Emit(<<[k |-> "q", names |-> ks, rep |-> [i \in 1..Len(ks) |-> Rep(ks[i])],
             pend |-> SetToSeq({c \in DOMAIN K : K[c].pc # "done"}),
             ctxc |-> SetToSeq({G[c].n : c \in {x \in DOMAIN G : G[x].pc = "hold" /\ Dying}}),
             stuck |-> FALSE, left |-> IF tomb = "dead" THEN Cardinality(Left) ELSE 0,
             all |-> 1 + Cardinality(Left) + Cardinality({c \in DOMAIN K : K[c].pc # "done"})]>>)
  /\ rest' = TRUE /\ ops' = ops /\ burst' = 0 /\ hist' = Append(hist, [o |-> "q"])
  /\ UNCHANGED <<now, tomb, loop, W, G, I, K, removed>>

\* Time passes until all restart delays are over.
Tick ==
  /\ rest /\ "sleep" \in Ops /\ \E c \in DOMAIN G : G[c].pc = "delay" /\ now < G[c].until
  /\ now' = now + Delay + 10000
  /\ Env([o |-> "sleep", c |-> 0, id |-> ""])
  /\ Quiet /\ Busy2
  /\ UNCHANGED <<tomb, loop, W, G, I, K, removed>>

EnvNext ==
  \/ \E id \in Ids : CallStart(id) \/ CallStop(id) \/ CallRemove(id) \/ CallWorker(id)
  \/ CallKill
  \/ \E c \in DOMAIN K : Abort(c)
  \/ \E c \in DOMAIN G : \E out \in {"ok", "err", "goexit"} \cap Outs, cls \in Classes :
        (out = "err") = (cls # "nil") /\ Release(c, out, cls)
  \/ \E n \in DOMAIN I, cls \in Classes : ExitEnv(n, cls)
  \/ Tick

Next == Internal \/ Quiesce \/ EnvNext
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* States that differ only in the history recorded for replay, in the last *)
(* events or in the absolute positions of events need not be told apart.   *)

\* Only these positions are ever compared with the position of an incarnation or instance.
Pend(c) == con.calls[c].pend /\ con.calls[c].op \in {"start", "worker", "remove"}
Cuts ==
  {con.qpos}
  \cup UNION {{con.calls[c].pos, con.calls[c].qpos} : c \in {x \in DOMAIN con.calls : Pend(x)}}
  \cup {con.calls[c].rpos : c \in {x \in DOMAIN con.calls : con.calls[x].op = "remove"}}
CallView(k, p, R(_)) ==
  [k EXCEPT !.pos = IF p THEN R(@) ELSE 0, !.qpos = IF p THEN R(@) ELSE 0,
            !.rpos = IF k.op = "remove" THEN R(@) ELSE 0,
            !.exOK = p /\ @, !.acc = IF k.pend THEN @ ELSE {}, !.old = IF p THEN @ ELSE {}]
ConView ==
  LET ps == Cuts
      R(p) == Cardinality({x \in ps : x < p})
  IN [con EXCEPT
       !.pos = 0, !.qpos = R(@),
       !.calls = [c \in DOMAIN @ |-> CallView(@[c], Pend(c), R)],
       !.inc = [c \in DOMAIN @ |-> [@[c] EXCEPT !.pos = R(@), !.inPos = R(@), !.endPos = R(@)]],
       !.inst = [n \in DOMAIN @ |-> [@[n] EXCEPT !.endPos = R(@), !.inAt = IF con.inst[n].over THEN 0 ELSE @,
                                                 !.outAt = IF con.inst[n].over THEN 0 ELSE @]]]
KView == [c \in DOMAIN K |-> [K[c] EXCEPT !.plan = <<>>]]
DesignView == <<now, tomb, loop, W, G, I, KView, removed, ops, burst, rest>>
FullView == <<DesignView, ConView>>

---------------------------------------------------------------------------
(* What the design guarantees. *)

\* The contract is kept.
Ok == con.viol = {}

Running(id) == {n \in DOMAIN I : I[n].id = id /\ ~I[n].over}
OneInstance == \A id \in Ids : Cardinality(Running(id)) <= 1
\* Nothing is left behind when the runner is dead.
DeadMeansDone == tomb = "dead" => /\ \A n \in DOMAIN I : I[n].over
                                  /\ \A c \in DOMAIN G : G[c].pc = "none"
                                  /\ \A c \in DOMAIN K : K[c].stray # "wait"
\* Every entry has exactly one goroutine, and every goroutine an entry.
EntryHasGoroutine ==
  /\ \A id \in Ids : Known(id) => G[W[id].c].pc # "none"
  /\ \A c \in DOMAIN G : G[c].pc # "none" => W[K[c].id] # Nil /\ W[K[c].id].c = c
\* The current worker of an entry is its latest instance.
CurrentIsLatest == \A id \in Ids : Known(id) /\ W[id].w # 0 => W[id].w = G[W[id].c].n
\* A stopping entry never holds a worker that was not killed.
StoppingIsKilled == \A id \in Ids : Known(id) /\ W[id].stopping => W[id].w = 0 /\ ~W[id].start

\* The system is at rest when nothing but the environment can move.
CanIsRight == Can <=> ENABLED Internal

\* For test generation: show the operations and plans of a complete behaviour.
Complete == rest /\ ops = MaxOps
Show == Complete => PrintT("SCRIPT " \o ToJson([h |-> hist, p |-> [c \in DOMAIN K |-> K[c].plan]]))
=============================================================================
