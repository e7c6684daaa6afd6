------------------------------ MODULE Catacomb ------------------------------
(***************************************************************************)
(* The design of catacomb.Catacomb (catacomb/catacomb.go) on top of a      *)
(* tomb: the listener, the goroutine of the work function, two goroutines  *)
(* per worker (g1 waits for it, g2 stops it when the catacomb is dying)    *)
(* and the calls, one action per step that others can observe, together    *)
(* with an environment of clients and workers.  Every action says in ev'   *)
(* which events of CatacombContract it makes visible; con is the           *)
(* contract's observer, so that Ok states that the design keeps the        *)
(* contract.                                                               *)
(***************************************************************************)
EXTENDS CatacombContract, Json

SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)
FoldLeft(op(_, _), base, seq) == SX!FoldLeft(op, base, seq)

CONSTANTS Inits,      \* numbers of Init workers of Invoke
          Invokes,    \* how often Invoke may be called
          MaxOps,     \* operations of the environment
          Burst,      \* operations of the environment between two moments of rest
          Ops,        \* which operations are used: invoke bad add kill wait exit wkill rel ctx pcancel
          Works,      \* what work functions do: hold, dying
          Kinds,      \* workers: norm, slow (takes its time to stop), dead (is finished already)
          Classes,    \* errors given by work functions, workers and Kill: nil E own for td
          KClasses,   \* errors of workers that are killed
          Panics      \* may the work function panic

VARIABLES tomb, reason, dirty, lst, lw, wk, w, K, X, con, ev, ops, burst, hist, rest

vars == <<tomb, reason, dirty, lst, lw, wk, w, K, X, con, ev, ops, burst, hist, rest>>

Dying == tomb # "alive"
Code(k, n) == k \o "-" \o n
\* An error of class k made now by someone called n.
MkErr(k, n) ==
  CASE k = "nil" -> [k |-> k, eff |-> "nil", obs |-> "nil"]
    [] k = "own" -> IF Dying THEN [k |-> k, eff |-> "none", obs |-> "owndying"] ELSE [k |-> k, eff |-> "bad", obs |-> "bad"]
    [] k = "for" -> [k |-> k, eff |-> "bad", obs |-> "foreign"]
    [] k = "td" -> [k |-> k, eff |-> "bad", obs |-> "tombdying"]
    [] k = "P" -> [k |-> k, eff |-> "P", obs |-> "P"]
    [] OTHER -> [k |-> k, eff |-> Code(k, n), obs |-> Code(k, n)]
NoErr == [k |-> "nil", eff |-> "nil", obs |-> "nil"]

Init ==
  /\ tomb = "alive" /\ reason = "alive" /\ dirty = FALSE /\ lst = "no" /\ lw = 0
  /\ wk = [pc |-> "no", c |-> 0, mode |-> "-", err |-> NoErr]
  /\ w = NoFun /\ K = NoFun /\ X = NoFun
  /\ con = Step(CInit, [k |-> "cfg"]) /\ ev = <<[k |-> "cfg"]>>
  /\ ops = 0 /\ burst = 0 /\ hist = <<>> /\ rest = TRUE

Emit(evs) == ev' = evs /\ con' = FoldLeft(LAMBDA s, e: Step(s, e), con, evs)
Quiet == ev' = <<>> /\ con' = con
Busy2 == rest' = FALSE
Keep == ops' = ops /\ burst' = burst /\ hist' = hist /\ Busy2
Env(o) == ops < MaxOps /\ burst < Burst /\ ops' = ops + 1 /\ burst' = burst + 1 /\ hist' = Append(hist, o) /\ Busy2

Used == \E c \in DOMAIN K : K[c].op = "invoke" /\ K[c].res = "ok" /\ K[c].pc = "done"
NCalls == Cardinality(DOMAIN K)
NWork == Cardinality(DOMAIN w)

\* tomb.Kill with an error that Catacomb.Kill has translated.
TombKill(eff) ==
  IF eff = "none" THEN UNCHANGED <<tomb, reason>>
  ELSE /\ tomb' = IF tomb = "alive" THEN "dying" ELSE tomb
       /\ reason' = IF reason \in {"alive", "nil"} THEN eff ELSE reason
Tomb == UNCHANGED <<tomb, reason>>

---------------------------------------------------------------------------
(* The environment. *)
NewWrk(kind, k) ==
  [kind |-> kind, killed |-> FALSE, over |-> kind = "dead", err |-> IF kind = "dead" THEN k ELSE NoErr, g1 |-> "no", g2 |-> "no", ke |-> "nil"]
ExitEv(n, e) == [k |-> "exit", n |-> n, eff |-> <<e.eff>>, obs |-> e.obs]
Name(n) == "w" \o ToString(n)

NewCall(op, ns, valid, e) == [op |-> op, ns |-> ns, valid |-> valid, err |-> e, pc |-> "start", i |-> 1, res |-> "-"]

CallInvoke(valid, kinds, mode) ==
  /\ (IF valid THEN "invoke" ELSE "bad") \in Ops
  /\ Cardinality({x \in DOMAIN K : K[x].op = "invoke"}) < Invokes
  /\ LET c == NCalls + 1
         ns == [i \in 1..Len(kinds) |-> NWork + i] IN
     /\ Env([o |-> "invoke", c |-> c, ns |-> ns, e |-> IF valid THEN mode ELSE "bad"])
     /\ w' = w @@ [n \in Range(ns) |-> NewWrk(kinds[n - NWork][1], MkErr(kinds[n - NWork][2], Name(n)))]
     /\ K' = Set(K, c, [NewCall("invoke", ns, valid, NoErr) EXCEPT !.res = mode])
     /\ Emit([i \in 1..Cardinality({n \in Range(ns) : w'[n].over}) |->
                LET ds == SelectSeq(ns, LAMBDA n: w'[n].over) IN ExitEv(ds[i], w'[ds[i]].err)]
             \o <<[k |-> "call", c |-> c, op |-> "invoke", ns |-> ns, valid |-> valid]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, X>>

CallAdd(kind, k) ==
  /\ "add" \in Ops /\ Used
  /\ LET c == NCalls + 1
         n == NWork + 1
         e == MkErr(k, Name(n)) IN
     /\ Env([o |-> "add", c |-> c, ns |-> <<n>>, e |-> ""])
     /\ w' = Set(w, n, NewWrk(kind, e))
     /\ K' = Set(K, c, NewCall("add", <<n>>, TRUE, NoErr))
     /\ Emit((IF kind = "dead" THEN <<ExitEv(n, e)>> ELSE <<>>) \o <<[k |-> "call", c |-> c, op |-> "add", n |-> n]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, X>>

CallKill(k) ==
  /\ "kill" \in Ops /\ Used
  /\ LET c == NCalls + 1
         e == MkErr(k, "k" \o ToString(c)) IN
     /\ Env([o |-> "kill", c |-> c, ns |-> <<>>, e |-> k])
     /\ K' = Set(K, c, NewCall("kill", <<>>, TRUE, e))
     /\ Emit(<<[k |-> "call", c |-> c, op |-> "kill", eff |-> <<e.eff>>]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

CallWait ==
  /\ "wait" \in Ops /\ Used
  /\ LET c == NCalls + 1 IN
     /\ Env([o |-> "wait", c |-> c, ns |-> <<>>, e |-> ""])
     /\ K' = Set(K, c, NewCall("wait", <<>>, TRUE, NoErr))
     /\ Emit(<<[k |-> "call", c |-> c, op |-> "wait"]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

ExitEnv(n, k) ==
  /\ "exit" \in Ops /\ ~w[n].over /\ (w[n].killed => w[n].kind = "slow")
  /\ Env([o |-> "exit", c |-> 0, ns |-> <<n>>, e |-> k])
  /\ w' = [w EXCEPT ![n].over = TRUE, ![n].err = MkErr(k, Name(n))]
  /\ Emit(<<ExitEv(n, MkErr(k, Name(n)))>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

\* Kill(n) shows an event unless the worker has ended or was killed before.
KillEv(n) == IF w[n].over \/ w[n].killed THEN <<>> ELSE <<[k |-> "kill", n |-> n]>>
Killed(n) == [w EXCEPT ![n].killed = @ \/ ~w[n].over]

WKill(n) ==
  /\ "wkill" \in Ops /\ ~w[n].over /\ ~w[n].killed
  /\ Env([o |-> "wkill", c |-> 0, ns |-> <<n>>, e |-> ""])
  /\ w' = Killed(n) /\ Emit(<<[k |-> "ukill", n |-> n]>> \o KillEv(n))
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

Ctx ==
  /\ "ctx" \in Ops /\ Used
  /\ LET x == Cardinality(DOMAIN X) + 1 IN
     /\ Env([o |-> "ctx", c |-> x, ns |-> <<>>, e |-> ""])
     /\ X' = Set(X, x, FALSE)
     /\ Emit(<<[k |-> "ctx", x |-> x, val |-> TRUE]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, K>>

PCancel(x) ==
  /\ "pcancel" \in Ops /\ ~X[x]
  /\ Env([o |-> "pcancel", c |-> x - 1, ns |-> <<>>, e |-> ""])
  /\ X' = [X EXCEPT ![x] = TRUE]
  /\ Emit(<<[k |-> "pcancel", x |-> x]>>)
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, K>>

\* The work function is told to return.
Rel(k) ==
  /\ "rel" \in Ops /\ wk.pc = "run" /\ wk.mode = "hold"
  /\ (k = "P") => Panics
  /\ Env([o |-> "rel", c |-> 0, ns |-> <<>>, e |-> k])
  /\ wk' = [wk EXCEPT !.pc = "out", !.mode = k]
  /\ Quiet /\ UNCHANGED <<tomb, reason, dirty, lst, lw, w, K, X>>

---------------------------------------------------------------------------
(* Invoke. *)
InvokeStart(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "start"
  /\ IF K[c].valid /\ ~dirty
     THEN dirty' = TRUE /\ K' = [K EXCEPT ![c].pc = "add"]
     ELSE dirty' = dirty /\ K' = [K EXCEPT ![c].pc = "stop"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, lst, lw, wk, w, X>>

InvokeAdd(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "add" /\ K[c].i <= Len(K[c].ns)
  /\ LET n == K[c].ns[K[c].i] IN w' = [w EXCEPT ![n].g1 = "wait", ![n].g2 = "sel"]
  /\ K' = [K EXCEPT ![c].i = @ + 1]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, X>>

InvokeGo(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "add" /\ K[c].i > Len(K[c].ns)
  /\ lst' = "run" /\ wk' = [wk EXCEPT !.pc = "ready", !.c = c, !.mode = K[c].res]
  /\ K' = [K EXCEPT ![c].pc = "ret", ![c].res = "ok"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lw, w, X>>

\* Failed: the workers are stopped one by one.
InvokeStop(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "stop"
  /\ LET i == K[c].i IN
     IF i > Len(K[c].ns) THEN K' = [K EXCEPT ![c].pc = "ret", ![c].res = "err"] /\ w' = w /\ Quiet
     ELSE K' = [K EXCEPT ![c].pc = "stopw"] /\ w' = Killed(K[c].ns[i]) /\ Emit(KillEv(K[c].ns[i]))
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, X>>

InvokeStopped(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "stopw" /\ w[K[c].ns[K[c].i]].over
  /\ K' = [K EXCEPT ![c].pc = "stop", ![c].i = @ + 1]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

InvokeRet(c) ==
  /\ K[c].op = "invoke" /\ K[c].pc = "ret"
  /\ K' = [K EXCEPT ![c].pc = "done"]
  /\ Emit(<<[k |-> "ret", c |-> c, op |-> "invoke", res |-> K[c].res]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

---------------------------------------------------------------------------
(* Add. *)
AddSent(c) ==
  /\ K[c].op = "add" /\ K[c].pc = "start" /\ lst = "run"
  /\ lst' = "got" /\ lw' = K[c].ns[1]
  /\ K' = [K EXCEPT ![c].pc = "ret", ![c].res = "ok"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, wk, w, X>>

AddDying(c) ==
  /\ K[c].op = "add" /\ K[c].pc = "start" /\ Dying
  /\ w' = Killed(K[c].ns[1]) /\ Emit(KillEv(K[c].ns[1]))
  /\ K' = [K EXCEPT ![c].pc = "stopw"]
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, X>>

AddStopped(c) ==
  /\ K[c].op = "add" /\ K[c].pc = "stopw" /\ w[K[c].ns[1]].over
  /\ K' = [K EXCEPT ![c].pc = "ret", ![c].res = "err"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

AddRet(c) ==
  /\ K[c].op = "add" /\ K[c].pc = "ret"
  /\ K' = [K EXCEPT ![c].pc = "done"]
  /\ Emit(<<[k |-> "ret", c |-> c, op |-> "add", res |-> K[c].res,
             obs |-> IF K[c].res = "ok" THEN "nil" ELSE IF w[K[c].ns[1]].err.eff = "nil" THEN "owndying" ELSE "worker"]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

---------------------------------------------------------------------------
(* Kill and Wait.  Kill looks whether the tomb is dead, then kills it. *)
KillCheck(c) ==
  /\ K[c].op = "kill" /\ K[c].pc = "start"
  /\ K' = [K EXCEPT ![c].pc = IF tomb = "dead" THEN "ret" ELSE "do"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

KillDo(c) ==
  /\ K[c].op = "kill" /\ K[c].pc = "do"
  /\ TombKill(K[c].err.eff) /\ K' = [K EXCEPT ![c].pc = "ret"]
  /\ Quiet /\ Keep /\ UNCHANGED <<dirty, lst, lw, wk, w, X>>

KillRet(c) ==
  /\ K[c].op = "kill" /\ K[c].pc = "ret"
  /\ K' = [K EXCEPT ![c].pc = "done"]
  /\ Emit(<<[k |-> "ret", c |-> c, op |-> "kill", res |-> "ok"]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

WaitRet(c) ==
  /\ K[c].op = "wait" /\ K[c].pc = "start" /\ tomb = "dead"
  /\ K' = [K EXCEPT ![c].pc = "done"]
  /\ Emit(<<[k |-> "ret", c |-> c, op |-> "wait", res |-> "ok", obs |-> reason]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, X>>

---------------------------------------------------------------------------
(* The catacomb's goroutines. *)
LstDying ==
  /\ lst = "run" /\ Dying /\ lst' = "done"
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lw, wk, w, K, X>>

LstAdd ==
  /\ lst = "got" /\ lst' = "run" /\ lw' = 0
  /\ w' = [w EXCEPT ![lw].g1 = "wait", ![lw].g2 = "sel"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, wk, K, X>>

Waited(n) ==
  /\ w[n].g1 = "wait" /\ w[n].over
  /\ w' = [w EXCEPT ![n].g1 = IF w[n].err.eff = "nil" THEN "done" ELSE "kill"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

Failed(n) ==
  /\ w[n].g1 = "kill" /\ TombKill(w[n].err.eff)
  /\ w' = [w EXCEPT ![n].g1 = "done"]
  /\ Quiet /\ Keep /\ UNCHANGED <<dirty, lst, lw, wk, K, X>>

StopIt(n) ==
  /\ w[n].g2 = "sel" /\ Dying
  /\ w' = [Killed(n) EXCEPT ![n].g2 = "stopw"] /\ Emit(KillEv(n))
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

StopDone(n) ==
  /\ \/ w[n].g2 = "stopw" /\ w[n].over
     \/ w[n].g2 = "sel" /\ w[n].g1 = "done"
  /\ w' = [w EXCEPT ![n].g2 = "done"]
  /\ Quiet /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

WorkIn ==
  /\ wk.pc = "ready" /\ wk' = [wk EXCEPT !.pc = "run"]
  /\ Emit(<<[k |-> "workIn", c |-> wk.c, lab |-> TRUE]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, w, K, X>>

WorkOut(k) ==
  /\ \/ wk.pc = "out" /\ k = wk.mode /\ wk' = [wk EXCEPT !.pc = "kill", !.err = MkErr(k, "work")]
     \/ wk.pc = "run" /\ wk.mode = "dying" /\ Dying /\ k \in Classes
        /\ wk' = [wk EXCEPT !.pc = "kill", !.err = MkErr(k, "work")]
  /\ Emit(<<[k |-> "workOut", c |-> wk.c, eff |-> <<wk'.err.eff>>]>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, w, K, X>>

WorkKill ==
  /\ wk.pc = "kill" /\ TombKill(wk.err.eff) /\ wk' = [wk EXCEPT !.pc = "wg"]
  /\ Quiet /\ Keep /\ UNCHANGED <<dirty, lst, lw, w, K, X>>

Idle == lst # "run" /\ lst # "got" /\ \A n \in DOMAIN w : w[n].g1 \in {"no", "done"} /\ w[n].g2 \in {"no", "done"}
Die ==
  /\ wk.pc = "wg" /\ Idle
  /\ wk' = [wk EXCEPT !.pc = "done"] /\ tomb' = "dead" /\ reason' = IF reason = "alive" THEN "nil" ELSE reason
  /\ Quiet /\ Keep /\ UNCHANGED <<dirty, lst, lw, w, K, X>>

ExitKilled(n, k) ==
  /\ ~w[n].over /\ w[n].killed /\ w[n].kind # "slow"
  /\ w' = [w EXCEPT ![n].over = TRUE, ![n].err = MkErr(k, Name(n)), ![n].ke = k]
  /\ Emit(<<ExitEv(n, MkErr(k, Name(n)))>>)
  /\ Keep /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, K, X>>

---------------------------------------------------------------------------
Internal ==
  \/ \E c \in DOMAIN K : \/ InvokeStart(c) \/ InvokeAdd(c) \/ InvokeGo(c) \/ InvokeStop(c) \/ InvokeStopped(c) \/ InvokeRet(c)
                         \/ AddSent(c) \/ AddDying(c) \/ AddStopped(c) \/ AddRet(c)
                         \/ KillCheck(c) \/ KillDo(c) \/ KillRet(c) \/ WaitRet(c)
  \/ LstDying \/ LstAdd \/ WorkIn \/ WorkKill \/ Die
  \/ \E k \in Classes \cup {"P"} : WorkOut(k)
  \/ \E n \in DOMAIN w : Waited(n) \/ Failed(n) \/ StopIt(n) \/ StopDone(n) \/ \E k \in KClasses : ExitKilled(n, k)

\* Something can happen without the environment.
Can ==
  \/ \E c \in DOMAIN K :
       CASE K[c].pc = "done" -> FALSE
         [] K[c].pc = "stopw" -> w[K[c].ns[K[c].i]].over
         [] K[c].op = "wait" -> tomb = "dead"
         [] K[c].op = "add" /\ K[c].pc = "start" -> lst = "run" \/ Dying
         [] OTHER -> TRUE
  \/ lst = "got" \/ (lst = "run" /\ Dying)
  \/ wk.pc \in {"ready", "out", "kill"} \/ (wk.pc = "run" /\ wk.mode = "dying" /\ Dying) \/ (wk.pc = "wg" /\ Idle)
  \/ \E n \in DOMAIN w :
       \/ w[n].g1 = "kill" \/ (w[n].g1 = "wait" /\ w[n].over)
       \/ w[n].g2 = "sel" /\ (Dying \/ w[n].g1 = "done")
       \/ w[n].g2 = "stopw" /\ w[n].over
       \/ ~w[n].over /\ w[n].killed /\ w[n].kind # "slow"

Quiesce ==
  /\ ~rest /\ ~Can
  /\ Emit(<<[k |-> "q", dying |-> Used /\ Dying, dead |-> Used /\ tomb = "dead",
             obs |-> IF Used THEN reason ELSE "alive", edy |-> IF Used /\ Dying THEN "owndying" ELSE "bad",
             ctx |-> SetToSeq({x \in DOMAIN X : X[x] \/ Dying}),
             pend |-> SetToSeq({c \in DOMAIN K : K[c].pc # "done"}), stuck |-> FALSE,
             left |-> Cardinality({n \in DOMAIN w : w[n].g1 \notin {"no", "done"} \/ w[n].g2 \notin {"no", "done"}})
                      + (IF lst \in {"run", "got"} THEN 1 ELSE 0) + (IF wk.pc # "done" THEN 1 ELSE 0),
             all |-> 2 + Cardinality({n \in DOMAIN w : w[n].g1 \notin {"no", "done"}}) + Cardinality({n \in DOMAIN w : w[n].g2 \notin {"no", "done"}})
                     + Cardinality({c \in DOMAIN K : K[c].pc # "done"})]>>)
  /\ rest' = TRUE /\ ops' = ops /\ burst' = 0 /\ hist' = Append(hist, [o |-> "q"])
  /\ UNCHANGED <<tomb, reason, dirty, lst, lw, wk, w, K, X>>

\* A new worker: its kind, and the error it ended with if it is finished already.
News == {<<kd, "nil">> : kd \in Kinds} \cup (IF "dead" \in Kinds THEN {<<"dead", k>> : k \in Classes} ELSE {})

EnvNext ==
  \/ \E v \in BOOLEAN, m \in Inits, mode \in Works : \E kinds \in [1..m -> News] : CallInvoke(v, kinds, mode)
  \/ \E x \in News : CallAdd(x[1], x[2])
  \/ \E k \in Classes : CallKill(k) \/ Rel(k)
  \/ Rel("P") \/ CallWait \/ Ctx
  \/ \E x \in DOMAIN X : PCancel(x)
  \/ \E n \in DOMAIN w : WKill(n) \/ \E k \in Classes : ExitEnv(n, k)

Next == Internal \/ Quiesce \/ EnvNext
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* States that differ only in the history recorded for replay, in the last *)
(* events or in absolute positions need not be told apart.                 *)
DesignView == <<tomb, reason, dirty, lst, lw, wk, [n \in DOMAIN w |-> [w[n] EXCEPT !.ke = ""]], K, X, ops, burst, rest>>
Cuts == {con.calls[c].pos : c \in DOMAIN con.calls} \cup {con.w[n].at : n \in DOMAIN con.w}
        \cup UNION {{x.from, x.to} : x \in con.causes} \cup {0}
ConView ==
  LET ps == Cuts
      R(p) == Cardinality({x \in ps : x < p})
  IN [con EXCEPT !.pos = 0,
       !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.pos = R(@)]],
       !.w = [n \in DOMAIN @ |-> [@[n] EXCEPT !.at = R(@)]],
       !.causes = {[x EXCEPT !.from = R(@), !.to = R(@)] : x \in @}]
FullView == <<DesignView, ConView>>

---------------------------------------------------------------------------
(* What the design guarantees. *)
Ok == con.viol = {}
Owned(n) == w[n].g1 # "no" \/ lw = n
DeadMeansDone == tomb = "dead" => wk.pc = "done" /\ \A n \in DOMAIN w : Owned(n) => w[n].over
\* Only a worker's own failure, the work function or Kill makes the catacomb die.
Killers == Dying => \/ wk.pc \in {"wg", "done"} \/ \E c \in DOMAIN K : K[c].op = "kill" /\ K[c].pc \in {"ret", "done"}
                    \/ \E n \in DOMAIN w : w[n].g1 = "done" /\ w[n].err.eff # "nil"
\* At rest, a dying catacomb has told all its workers to stop.
AllKilled == rest /\ Dying => \A n \in DOMAIN w : Owned(n) => w[n].killed \/ w[n].over
\* A worker handed over by a successful call is owned.
NeverDropped == \A c \in DOMAIN K : K[c].res = "ok" /\ K[c].op \in {"invoke", "add"} => \A n \in Range(K[c].ns) : Owned(n)
\* A worker of a failed call is finished when the call returns.
FailedStopped == \A c \in DOMAIN K : K[c].res = "err" /\ K[c].op \in {"invoke", "add"} => \A n \in Range(K[c].ns) : w[n].over

\* The system is at rest when nothing but the environment can move.
CanIsRight == Can <=> ENABLED Internal

\* For test generation: show the operations and plans of a complete behaviour.
Complete == rest /\ ops = MaxOps
Show == Complete => PrintT("SCRIPT " \o ToJson([h |-> hist, w |-> [n \in DOMAIN w |-> [kind |-> w[n].kind, e |-> w[n].err.k, ke |-> w[n].ke]], work |-> wk.err.k]))
=============================================================================
