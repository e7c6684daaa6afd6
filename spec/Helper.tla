------------------------------- MODULE Helper -------------------------------
(***************************************************************************)
(* The design of worker.Stop and worker.Dead (worker.go) and of the test   *)
(* workers and check helpers of package workertest, one action per step    *)
(* that others can observe, together with an environment of clients and of *)
(* workers of its own.  Every action says in ev' which events of           *)
(* HelperContract it makes visible; con is the contract's observer, so     *)
(* that Ok states that the design keeps the contract.                      *)
(*                                                                         *)
(* Time passes only when nothing else can happen, up to goal.              *)
(***************************************************************************)
EXTENDS HelperContract, Json

SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)
FoldLeft(op(_, _), base, seq) == SX!FoldLeft(op, base, seq)

CONSTANTS Kinds,      \* workers: lab (ends when killed), slow (told when to end), error, dead, forever
          Errs,       \* the errors they end with: nil E
          Deads,      \* their Dead methods: "" (none), own, nil
          Ops,        \* which operations are used: kill rkill exit sleep nobody and the calls below
          MaxWorkers, \* how many workers there may be
          MaxOps,     \* operations of the environment
          Burst,      \* operations of the environment between two moments of rest
          Times       \* how long the environment may sleep

VARIABLES now, goal, wk, K, X, con, ev, ops, burst, hist, rest

vars == <<now, goal, wk, K, X, con, ev, ops, burst, hist, rest>>

AliveDelay == 50000
KillTimeout == 10 * Second
Timed == {"alive", "killed", "checkkill", "clean", "dirty", "nilor"}
Kills == {"stop", "checkkill", "clean", "dirty", "nilor"}
Calls == Timed \cup {"stop", "wait"}

Code(k, n) == IF k = "nil" THEN "nil" ELSE k \o "-" \o ToString(n)
NW == Cardinality(DOMAIN wk)
NK == Cardinality(DOMAIN K)
NX == Cardinality(DOMAIN X)

Init ==
  /\ now = 0 /\ goal = 0 /\ wk = NoFun /\ K = NoFun /\ X = NoFun
  /\ con = HInit /\ ev = <<>> /\ ops = 0 /\ burst = 0 /\ hist = <<>> /\ rest = TRUE

Emit(evs) ==
  /\ ev' = [i \in 1..Len(evs) |-> evs[i] @@ [at |-> now]]
  /\ con' = FoldLeft(LAMBDA s, e: Step(s, e), con, ev')
Quiet == ev' = <<>> /\ con' = con
Keep == ops' = ops /\ burst' = burst /\ hist' = hist /\ rest' = FALSE
Env(o) == ops < MaxOps /\ burst < Burst /\ now = goal /\ ops' = ops + 1 /\ burst' = burst + 1 /\ hist' = Append(hist, o) /\ rest' = FALSE
O(o, n) == [o |-> o, n |-> n]

---------------------------------------------------------------------------
(* The environment. *)
New(kind, e, d) ==
  LET n == NW + 1 IN
  /\ NW < MaxWorkers
  /\ Env([o |-> "new", n |-> n, kind |-> kind, e |-> e, dead |-> d])
  /\ wk' = Set(wk, n, [kind |-> kind, err |-> Code(e, n), dead |-> d, killed |-> FALSE, over |-> kind = "dead"])
  /\ Emit(<<[k |-> "new", n |-> n, kind |-> IF kind = "slow" THEN "lab" ELSE kind, err |-> Code(e, n)]>>)
  /\ UNCHANGED <<now, goal, K, X>>

\* What Kill(w) does: an error worker ends.
Killed(n) == wk' = [wk EXCEPT ![n].killed = TRUE, ![n].over = @ \/ wk[n].kind = "error"]
KcallEv(n) == [k |-> "kcall", n |-> n]

KillEnv(n) == "kill" \in Ops /\ Env(O("kill", n)) /\ Killed(n) /\ Emit(<<KcallEv(n)>>) /\ UNCHANGED <<now, goal, K, X>>

ReallyKill(n) ==
  /\ "rkill" \in Ops /\ wk[n].kind = "forever" /\ ~wk[n].over /\ Env(O("rkill", n))
  /\ wk' = [wk EXCEPT ![n].over = TRUE]
  /\ Emit(<<[k |-> "rkill", n |-> n]>>)
  /\ UNCHANGED <<now, goal, K, X>>

HEnd(n, e) ==
  /\ wk' = [wk EXCEPT ![n].over = TRUE, ![n].err = Code(e, n)]
  /\ Emit(<<[k |-> "exit", n |-> n, err |-> Code(e, n)]>>)
  /\ UNCHANGED <<now, goal, K, X>>
ExitEnv(n, e) ==
  /\ "exit" \in Ops /\ wk[n].kind \in {"lab", "slow"} /\ ~wk[n].over /\ (wk[n].kind = "lab" => ~wk[n].killed)
  /\ Env([o |-> "exit", n |-> n, e |-> e]) /\ HEnd(n, e)

Call(op, n) ==
  LET c == NK + 1 IN
  /\ op \in Ops /\ (n = 0 => op = "nilor")
  /\ Env(O(op, n))
  /\ K' = Set(K, c, [op |-> op, n |-> n, pc |-> IF n = 0 THEN "ret" ELSE IF op \in Kills THEN "kill" ELSE "wait", until |-> 0, g |-> FALSE])
  /\ Emit(<<[k |-> "call", c |-> c, op |-> op, n |-> n]>>)
  /\ UNCHANGED <<now, goal, wk, X>>

Sleep(t) ==
  /\ "sleep" \in Ops /\ rest /\ Env(O("sleep", t)) /\ goal' = now + t
  /\ Quiet /\ UNCHANGED <<now, wk, K, X>>

---------------------------------------------------------------------------
(* Workers, calls, and the goroutines behind Dead. *)
ExitKilled(n, e) ==
  /\ wk[n].kind = "lab" /\ wk[n].killed /\ ~wk[n].over
  /\ HEnd(n, e) /\ Keep

CallKill(c) ==
  /\ K[c].pc = "kill" /\ Killed(K[c].n) /\ Emit(<<KcallEv(K[c].n)>>)
  /\ K' = [K EXCEPT ![c].pc = "wait"]
  /\ Keep /\ UNCHANGED <<now, goal, X>>

\* A goroutine waits for the worker (it stays when the time is over first), and the timer starts.
CallTimer(c) ==
  /\ K[c].pc = "wait" /\ K[c].op \in Timed /\ K[c].until = 0
  /\ K' = [K EXCEPT ![c].until = now + IF K[c].op = "alive" THEN AliveDelay ELSE KillTimeout, ![c].g = TRUE]
  /\ Quiet /\ Keep /\ UNCHANGED <<now, goal, wk, X>>

Ret(c, failed, err) ==
  /\ K' = [K EXCEPT ![c].pc = "done", ![c].until = 0]
  /\ Emit(<<[k |-> "ret", c |-> c, op |-> K[c].op, failed |-> failed, err |-> err]>>)
  /\ Keep /\ UNCHANGED <<now, goal, wk, X>>

\* The goroutine ends with the worker, whether someone still listens or not.
WaiterEnds(c) ==
  /\ K[c].g /\ wk[K[c].n].over
  /\ K' = [K EXCEPT ![c].g = FALSE]
  /\ Quiet /\ Keep /\ UNCHANGED <<now, goal, wk, X>>

Ready(c) == K[c].pc = "wait" /\ (K[c].op \in Timed => K[c].until # 0)
\* Wait has returned.
CallOver(c) ==
  /\ Ready(c) /\ wk[K[c].n].over /\ ~K[c].g
  /\ LET e == wk[K[c].n].err IN
     CASE K[c].op = "alive" -> Ret(c, TRUE, "nil")
       [] K[c].op = "clean" -> Ret(c, e # "nil", "nil")
       [] K[c].op = "dirty" -> Ret(c, FALSE, "nil")
       [] K[c].op = "nilor" -> Ret(c, TRUE, "nil")
       [] OTHER -> Ret(c, FALSE, e)
\* The time is over.
CallTimeout(c) ==
  /\ Ready(c) /\ K[c].op \in Timed /\ now >= K[c].until
  /\ Ret(c, K[c].op # "alive", IF K[c].op \in {"killed", "checkkill"} THEN "other" ELSE "nil")
CallNobody(c) == K[c].pc = "ret" /\ Ret(c, FALSE, "nil")

\* Dead(w): the worker's own channel if it has one, else one closed by a goroutine.
Dead(n) ==
  /\ "dead" \in Ops /\ Env(O("dead", n))
  /\ LET own == wk[n].dead = "own" IN
     /\ X' = Set(X, NX + 1, [n |-> n, own |-> own, closed |-> FALSE])
     /\ Emit(<<[k |-> "dch", x |-> NX + 1, n |-> n, own |-> own, same |-> own]>>)
  /\ UNCHANGED <<now, goal, wk, K>>
CloseDead(x) ==
  /\ ~X[x].closed /\ wk[X[x].n].over
  /\ X' = [X EXCEPT ![x].closed = TRUE]
  /\ Quiet /\ Keep /\ UNCHANGED <<now, goal, wk, K>>

Internal ==
  \/ \E n \in DOMAIN wk, e \in Errs : ExitKilled(n, e)
  \/ \E c \in DOMAIN K : CallKill(c) \/ CallTimer(c) \/ CallOver(c) \/ CallTimeout(c) \/ CallNobody(c) \/ WaiterEnds(c)
  \/ \E x \in DOMAIN X : CloseDead(x)

Can ==
  \/ \E n \in DOMAIN wk : wk[n].kind = "lab" /\ wk[n].killed /\ ~wk[n].over
  \/ \E c \in DOMAIN K : \/ K[c].pc \in {"kill", "ret"}
                         \/ K[c].g /\ wk[K[c].n].over
                         \/ K[c].pc = "wait" /\ (wk[K[c].n].over \/ (K[c].op \in Timed /\ (K[c].until = 0 \/ now >= K[c].until)))
  \/ \E x \in DOMAIN X : ~X[x].closed /\ wk[X[x].n].over

Due == {K[c].until : c \in {d \in DOMAIN K : K[d].pc = "wait" /\ K[d].until # 0}}
Advance ==
  /\ ~Can /\ now < goal
  /\ now' = LET d == {t \in Due : t < goal} IN IF d = {} THEN goal ELSE CHOOSE t \in d : \A u \in d : u >= t
  /\ Quiet /\ Keep /\ UNCHANGED <<goal, wk, K, X>>

Quiesce ==
  /\ ~rest /\ ~Can /\ now = goal
  /\ Emit(<<[k |-> "q", pend |-> SetToSeq({c \in DOMAIN K : K[c].pc # "done"}), closed |-> SetToSeq({x \in DOMAIN X : X[x].closed}),
             left |-> Cardinality({x \in DOMAIN X : ~X[x].closed /\ ~X[x].own}) + Cardinality({c \in DOMAIN K : K[c].g})]>>)
  /\ rest' = TRUE /\ ops' = ops /\ burst' = 0 /\ hist' = Append(hist, O("q", 0))
  /\ UNCHANGED <<now, goal, wk, K, X>>

EnvNext ==
  \/ \E kind \in Kinds, e \in Errs, d \in Deads : New(kind, e, d)
  \/ \E n \in DOMAIN wk : KillEnv(n) \/ ReallyKill(n) \/ Dead(n) \/ (\E e \in Errs : ExitEnv(n, e)) \/ \E op \in Calls : Call(op, n)
  \/ ("nobody" \in Ops /\ Call("nilor", 0))
  \/ \E t \in Times : Sleep(t)

Next == Internal \/ Advance \/ Quiesce \/ EnvNext
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* States that differ only in the history recorded for replay, in the last *)
(* events or in absolute positions and instants need not be told apart.    *)
Rel(t) == t - now
Early(t) == IF t < now - Slack THEN 0 ELSE Rel(t)
FullView ==
  LET ps == {con.calls[c].pos : c \in DOMAIN con.calls} \cup {con.w[n].kpos : n \in DOMAIN con.w}
      R(p) == Cardinality({x \in ps : x < p})
      live == {c \in DOMAIN K : K[c].pc # "done"}
  IN <<goal - now, wk, [c \in live |-> [K[c] EXCEPT !.until = IF @ = 0 THEN 0 ELSE Rel(@)]], NK, X, ops, burst, rest,
       [con EXCEPT !.pos = 0,
          !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.pos = R(@), !.at = Rel(@)]],
          !.w = [n \in DOMAIN @ |-> [@[n] EXCEPT !.kpos = R(@), !.at = Early(@)]]]>>

---------------------------------------------------------------------------
(* What the design guarantees. *)
Ok == con.viol = {}
\* A worker of workertest ends only as it promises.
Promised == \A n \in DOMAIN wk : LET w == wk[n] IN
  CASE w.kind = "error" -> w.over = w.killed [] w.kind = "dead" -> w.over [] OTHER -> TRUE
\* At rest a channel is closed exactly if its worker has ended.
Channels == rest => \A x \in DOMAIN X : X[x].closed = wk[X[x].n].over
NoneLost == rest => \A c \in DOMAIN K : K[c].pc # "done" => ~wk[K[c].n].over
CanIsRight == Can <=> ENABLED Internal

\* For test generation: show the operations of a complete behaviour.
Complete == rest /\ ops = MaxOps
Show == Complete => PrintT("SCRIPT " \o ToJson([h |-> hist]))
=============================================================================
