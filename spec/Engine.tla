------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The design of dependency.Engine (dependency/engine.go), one action per  *)
(* message handled by the loop and per step of the runWorker goroutines,   *)
(* together with an environment of clients, manifolds and workers.  Every  *)
(* action says in ev' which events of EngineContract it makes visible; con *)
(* is the contract's observer, so that Ok states that the design keeps the *)
(* contract.                                                               *)
(*                                                                         *)
(* Time passes only when nothing else can happen (Tick), which is also how *)
(* the harness runs the real code.  Quiesce is the snapshot taken at rest. *)
(***************************************************************************)
EXTENDS EngineContract, Json

SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)
FoldLeft(op(_, _), base, seq) == SX!FoldLeft(op, base, seq)

CONSTANTS Shape,      \* the manifolds that may be installed, see Specs
          Pre,        \* are the manifolds of the shape installed at the beginning: all at once, seq (one
                      \* after the other, without disturbance), none
          MaxOps,     \* operations of the environment
          Burst,      \* operations of the environment between two moments of rest
          Ops,        \* which operations are used: install exit rel kill tick late
          Outs,       \* what start functions may do: need, hold, err
          Classes,    \* classes of errors: nil E M B U F1 F2
          KClasses,   \* classes of errors of workers that are killed
          Slow,       \* do workers take their time to stop
          Filter,     \* what manifold filters do: "" or e.g. "E>B"
          Factor, Reset, MaxDelay, Fuzz

VARIABLES now, tomb, saw, worst, M, D, Cur, G, I, K, gid, met, con, ev, ops, burst, hist, rest

vars == <<now, tomb, saw, worst, M, D, Cur, G, I, K, gid, met, con, ev, ops, burst, hist, rest>>

ErrDelay == 1000000
BounceDelay == 100000

Names == {"a", "b", "c"}
Sp(id, in) == [id |-> id, in |-> in]
\* The sequence of manifolds of a shape, each installed once at the beginning (if Pre).
First ==
  CASE Shape = "one" -> <<Sp("a", <<>>)>>
    [] Shape = "chain2" -> <<Sp("a", <<>>), Sp("b", <<"a">>)>>
    [] Shape = "chain3" -> <<Sp("a", <<>>), Sp("b", <<"a">>), Sp("c", <<"b">>)>>
    [] Shape = "tri" -> <<Sp("a", <<>>), Sp("b", <<"a">>), Sp("c", <<"a", "b">>)>>
    [] Shape = "join" -> <<Sp("a", <<>>), Sp("b", <<>>), Sp("c", <<"a", "b">>)>>
    [] Shape = "dup" -> <<Sp("a", <<>>), Sp("b", <<"a", "a">>)>>
    [] Shape = "cycle" -> <<Sp("a", <<"b">>), Sp("b", <<"c">>)>>
\* What may be installed later.
Specs == Range(First) \cup (IF Shape = "cycle" THEN {Sp("b", <<>>), Sp("c", <<"a">>), Sp("c", <<>>), Sp("c", <<"c">>)} ELSE {})

Cfg == [k |-> "cfg", err |-> ErrDelay, bounce |-> BounceDelay, factor |-> Factor, reset |-> Reset,
        max |-> MaxDelay, worst |-> "rank", filter |-> FALSE]

Nil == [none |-> TRUE]
ClsOf(k) == CASE k \in {"F1", "F2"} -> "fatal" [] OTHER -> k
RankOf(k) == IF k = "F2" THEN 2 ELSE IF k = "F1" THEN 1 ELSE 0
\* The filter turns errors of one class into errors of another.
Filt(k) == CASE Filter = "E>B" /\ k = "E" -> "B" [] Filter = "F>E" /\ k \in {"F1", "F2"} -> "E"
             [] Filter = "E>nil" /\ k = "E" -> "nil" [] Filter = "M>U" /\ k = "M" -> "U" [] OTHER -> k
Code(k, n) == IF k = "nil" THEN "nil" ELSE k \o "-" \o ToString(n)
\* An error of class k made by instance n.
MkErr(k, n) ==
  LET f == Filt(k) IN
  [k |-> k, raw |-> IF k \in {"nil", "M"} THEN k ELSE "E", cls |-> ClsOf(f), err |-> Code(k, n),
   ferr |-> IF f = k THEN Code(k, n) ELSE IF f = "nil" THEN "nil" ELSE Code(k, n) \o "~", rank |-> RankOf(f)]
NoErr == MkErr("nil", 0)
Aborted == [NoErr EXCEPT !.k = "aborted", !.cls = "aborted", !.err = "aborted", !.ferr = "aborted"]

NewK(op, x, pc) == [op |-> op, id |-> x.id, in |-> x.in, pc |-> pc, res |-> "-", plan |-> <<>>]
CallEv(c, k) == IF k.op = "install" THEN [k |-> "call", c |-> c, op |-> k.op, id |-> k.id, in |-> k.in, out |-> TRUE, self |-> FALSE]
                ELSE [k |-> "call", c |-> c, op |-> k.op, id |-> ""]

At0(e) == e @@ [at |-> 0]
Init ==
  LET f == IF Pre = "all" THEN First ELSE <<>>
      ks == <<NewK("wait", Sp("", <<>>), "wait")>> \o [i \in 1..Len(f) |-> NewK("install", f[i], "send")]
  IN
  /\ now = 0 /\ tomb = "alive" /\ saw = FALSE /\ worst = NoErr
  /\ M = [x \in Names |-> Nil] /\ D = [x \in Names |-> <<>>] /\ Cur = [x \in Names |-> Nil]
  /\ G = NoFun /\ I = NoFun /\ gid = 0 /\ met = [x \in Names |-> 0]
  /\ K = [c \in 1..Len(ks) |-> ks[c]]
  /\ ev = <<Cfg>> \o [c \in 1..Len(ks) |-> CallEv(c, ks[c])]
  /\ con = FoldLeft(LAMBDA s, e: Step(s, At0(e)), CInit, ev)
  /\ ops = 0 /\ burst = 0 /\ rest = FALSE
  /\ hist = [i \in 1..Len(f) |-> [o |-> "install", c |-> i + 1, id |-> f[i].id, in |-> f[i].in]]

Emit(evs) ==
  /\ ev' = [i \in 1..Len(evs) |-> evs[i] @@ [at |-> now]]
  /\ con' = FoldLeft(LAMBDA s, e: Step(s, e), con, ev')
Quiet == ev' = <<>> /\ con' = con
Busy2 == rest' = FALSE
Keep2 == ops' = ops /\ burst' = burst
Keep == ops' = ops /\ burst' = burst /\ hist' = hist
\* With Pre = "seq": the manifolds are installed one by one, and start undisturbed.
Calls == Cardinality(DOMAIN K)
Setup == Pre = "seq" /\ ops = 0 /\ ~(rest /\ Calls > Len(First))
Env(o) == ~Setup /\ ops < MaxOps /\ burst < Burst /\ ops' = ops + 1 /\ burst' = burst + 1 /\ hist' = Append(hist, o)

Dying == tomb # "alive"
In(x) == M[x] # Nil

---------------------------------------------------------------------------
(* What the loop does to its records.  S collects the effects of one message. *)
S0 == [M |-> M, D |-> D, Cur |-> Cur, G |-> G, I |-> I, gid |-> gid, evs |-> <<>>, dying |-> Dying, bad |-> FALSE]

Blank == [starting |-> FALSE, stopping |-> FALSE, n |-> 0, err |-> "nil", at |-> -1, cnt |-> 0, errs |-> 0, g |-> 0]
Stopped(i) == i.n = 0 /\ ~i.starting

\* Kill(w) shows an event unless the worker has ended or was killed before.
KillW(S, n) ==
  IF S.I[n].over \/ S.I[n].killed THEN S
  ELSE [S EXCEPT !.I[n].killed = TRUE, !.evs = Append(@, [k |-> "kill", n |-> n, id |-> S.I[n].id])]

\* Fuzzed delays: tenths of the nominal delay.
ReqStart(S, x, delay, fz) ==
  IF ~Stopped(S.Cur[x]) THEN [S EXCEPT !.bad = TRUE]
  ELSE IF S.dying THEN S
  ELSE LET g == S.gid + 1
           nom == IF delay = 0 THEN 0 ELSE (Nom(Cfg, delay, S.Cur[x].errs) \div 10) * fz
           in == S.M[x].in
       IN [S EXCEPT !.gid = g,
                    !.Cur[x] = [@ EXCEPT !.starting = TRUE, !.err = "nil", !.g = g],
                    !.G = Set(@, g, [x |-> x, c |-> S.M[x].c, pc |-> "delay", until |-> now + nom, n |-> 0, canc |-> FALSE, err |-> NoErr, out |-> "-",
                                     snap |-> [nm \in {in[j] : j \in 1..Len(in)} |-> IF S.Cur[nm] = Nil THEN 0 ELSE S.Cur[nm].n]])]

ReqStop(S, x) ==
  LET i == S.Cur[x] IN
  IF i.stopping \/ Stopped(i) THEN S
  ELSE LET S1 == [S EXCEPT !.Cur[x].stopping = TRUE, !.G[i.g].canc = TRUE]
       IN IF i.n # 0 THEN KillW(S1, i.n) ELSE S1

Bounce(S, x, fz) ==
  FoldLeft(LAMBDA T, d: IF Stopped(T.Cur[d]) THEN ReqStart(T, d, BounceDelay, fz) ELSE ReqStop(T, d), S, S.D[x])

Without(seq, x) == SelectSeq(seq, LAMBDA y: y # x)

\* The engine takes over the effects; the loop ends when everything has stopped while dying.
Over(S, t) == t # "alive" /\ \A x \in Names : S.Cur[x] = Nil \/ Stopped(S.Cur[x])
Apply(S, t) ==
  /\ M' = S.M /\ D' = S.D /\ Cur' = S.Cur /\ I' = S.I /\ gid' = S.gid
  /\ tomb' = IF Over(S, t) THEN "dead" ELSE t
  /\ Emit(S.evs)

---------------------------------------------------------------------------
(* The environment. *)

NewCall(op, x, o) ==
  LET c == Calls + 1
      k == NewK(op, x, "send") IN
  /\ \/ Env(o @@ [c |-> c])
     \/ Setup /\ rest /\ Keep2 /\ hist' = Append(hist, o @@ [c |-> c])
  /\ K' = Set(K, c, k) /\ Emit(<<CallEv(c, k)>>) /\ Busy2
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, I, gid, met>>

CallInstall(x) == (IF Setup THEN Calls <= Len(First) /\ x = First[Calls] ELSE "install" \in Ops) /\ NewCall("install", x, [o |-> "install", id |-> x.id, in |-> x.in])
CallKill == ~Setup /\ "kill" \in Ops /\ (\A c \in DOMAIN K : K[c].op # "kill") /\ NewCall("kill", Sp("", <<>>), [o |-> "kill", id |-> ""])

Release(g, out, k) ==
  /\ "rel" \in Ops /\ G[g].pc = "hold"
  /\ Env([o |-> "rel", c |-> 0, id |-> G[g].x, out |-> out, e |-> k])
  /\ G' = [G EXCEPT ![g].pc = "out", ![g].out = out, ![g].err = MkErr(k, G[g].n)]
  /\ Quiet /\ Busy2
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, I, K, gid, met>>

EndEv(n, e) == [k |-> "exit", n |-> n, id |-> I[n].id, err |-> e.err, ferr |-> e.ferr, raw |-> e.raw, cls |-> e.cls, rank |-> e.rank]

ExitEnv(n, k) ==
  /\ "exit" \in Ops /\ I[n].up /\ ~I[n].over /\ (I[n].killed => I[n].slow)
  /\ Env([o |-> "exit", c |-> n, id |-> I[n].id, e |-> k])
  /\ I' = [I EXCEPT ![n].over = TRUE, ![n].err = MkErr(k, n)]
  /\ Emit(<<EndEv(n, MkErr(k, n))>>) /\ Busy2
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, K, gid, met>>

\* A Get after the start call.
Late(n) ==
  /\ "late" \in Ops /\ I[n].gone
  /\ Env([o |-> "late", c |-> n, id |-> I[n].id])
  /\ Emit(<<[k |-> "late", n |-> n, nm |-> "a", ok |-> FALSE, out |-> FALSE]>>) /\ Busy2
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, I, K, gid, met>>

---------------------------------------------------------------------------
(* Workers and runWorker goroutines. *)

ExitKilled(n, k) ==
  /\ I[n].up /\ ~I[n].over /\ I[n].killed /\ ~I[n].slow
  /\ I' = [I EXCEPT ![n].over = TRUE, ![n].err = MkErr(k, n)]
  /\ K' = [K EXCEPT ![I[n].c].plan[I[n].k].ke = k]
  /\ Emit(<<EndEv(n, MkErr(k, n))>>) /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, gid, met>>

Gone(g) == Dying \/ G[g].canc

DelayAborted(g) ==
  /\ G[g].pc = "delay" /\ Gone(g)
  /\ G' = [G EXCEPT ![g].pc = "sendD", ![g].err = Aborted]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, I, K, gid, met>>

See(snap) ==
  LET one(nm) == LET w == IF nm \in DOMAIN snap THEN snap[nm] ELSE 0 IN
                 [nm |-> nm, o |-> IF w # 0 THEN "ok" ELSE "missing", n |-> w, of |-> IF w # 0 THEN nm ELSE "",
                  x |-> IF w # 0 THEN "ok" ELSE "missing", b |-> IF w # 0 THEN "outerr" ELSE "missing"]
  IN <<one("a"), one("b"), one("c")>>

\* The delay is over: the start function is called and looks at its inputs.
StartIn(g, out, k) ==
  /\ G[g].pc = "delay" /\ now >= G[g].until
  /\ Setup => out = "need" /\ k = "nil"
  /\ (out = "err") = (k # "nil")
  /\ LET n == Len(SetToSeq(DOMAIN I)) + 1
         c == G[g].c
         miss == out = "need" /\ \E nm \in DOMAIN G[g].snap : G[g].snap[nm] = 0
     IN /\ I' = Set(I, n, [c |-> c, k |-> Len(K[c].plan) + 1, id |-> G[g].x, killed |-> FALSE, over |-> FALSE, up |-> FALSE, gone |-> FALSE, slow |-> FALSE, err |-> NoErr])
        /\ G' = [G EXCEPT ![g].pc = IF out = "hold" THEN "hold" ELSE "out", ![g].n = n,
                          ![g].out = IF out = "hold" THEN "hold" ELSE IF out = "err" \/ miss THEN "err" ELSE "ok",
                          ![g].err = MkErr(IF miss THEN "M" ELSE k, n)]
        /\ K' = [K EXCEPT ![c].plan = Append(@, [out |-> out, e |-> k, kill |-> "", ke |-> "nil"])]
        /\ Emit(<<[k |-> "startIn", n |-> n, id |-> G[g].x, c |-> c], [k |-> "see", n |-> n, c |-> c, see |-> See(G[g].snap)]>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, gid, met>>

StartOut(g, slow) ==
  /\ G[g].pc = "out"
  /\ LET n == G[g].n
         ok == G[g].out = "ok"
         e == IF ok THEN NoErr ELSE G[g].err
     IN /\ (~ok => slow = FALSE)
        /\ G' = [G EXCEPT ![g].pc = IF ok THEN "sendS" ELSE "sendD", ![g].err = e]
        /\ I' = [I EXCEPT ![n].up = ok, ![n].over = ~ok, ![n].slow = slow, ![n].gone = TRUE]
        /\ K' = [K EXCEPT ![G[g].c].plan[I[n].k].kill = IF slow THEN "slow" ELSE ""]
        /\ Emit(<<[k |-> "startOut", n |-> n, id |-> G[g].x, c |-> G[g].c, out |-> G[g].out, err |-> e.err, ferr |-> e.ferr,
                   raw |-> e.raw, cls |-> e.cls, rank |-> e.rank, cx |-> Gone(g), same |-> TRUE]>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, gid, met>>

\* The engine is dying: the worker is killed instead of being registered.
SendDying(g) ==
  /\ G[g].pc = "sendS" /\ Dying
  /\ LET S == KillW(S0, G[g].n) IN I' = S.I /\ Emit(S.evs)
  /\ G' = [G EXCEPT ![g].pc = "run"]
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, K, gid, met>>

WaitReturns(g) ==
  /\ G[g].pc = "run" /\ I[G[g].n].over
  /\ G' = [G EXCEPT ![g].pc = "sendD", ![g].err = I[G[g].n].err]
  /\ Quiet /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, I, K, gid, met>>

---------------------------------------------------------------------------
(* The loop. *)
Loop == tomb # "dead"

LoopDying ==
  /\ Loop /\ Dying /\ ~saw /\ saw' = TRUE
  /\ LET S == FoldLeft(LAMBDA T, x: IF T.Cur[x] = Nil THEN T ELSE ReqStop(T, x), S0, SetToSeq(Names))
     IN Apply(S, tomb) /\ G' = S.G
  /\ Busy2 /\ Keep /\ UNCHANGED <<now, worst, K, met>>

LoopInstall(c) ==
  /\ Loop /\ K[c].op = "install" /\ K[c].pc = "send"
  /\ LET x == K[c].id
         E == {<<nm, i>> \in (Names \X Names) : In(nm) /\ \E j \in 1..Len(M[nm].in) : M[nm].in[j] = i} \cup {<<x, K[c].in[j]>> : j \in 1..Len(K[c].in)}
         fits == ~In(x) /\ ~Cyclic(E)
         S1 == [S0 EXCEPT !.M[x] = [c |-> c, in |-> K[c].in], !.Cur[x] = Blank,
                          !.D = [nm \in Names |-> S0.D[nm] \o [j \in 1..Cardinality({i \in 1..Len(K[c].in) : K[c].in[i] = nm}) |-> x]]]
         S == IF fits THEN ReqStart(S1, x, 0, 10) ELSE S0
     IN /\ K' = [K EXCEPT ![c].pc = "reply", ![c].res = IF fits THEN "ok" ELSE "err"]
        /\ Apply(S, tomb) /\ G' = S.G
  /\ Busy2 /\ Keep /\ UNCHANGED <<now, saw, worst, met>>

LoopStarted(g, fz) ==
  /\ Loop /\ G[g].pc = "sendS"
  /\ LET x == G[g].x
         i == Cur[x]
         n == G[g].n
         S == IF i.stopping \/ Dying THEN KillW(S0, n)
              ELSE Bounce([S0 EXCEPT !.Cur[x] = [@ EXCEPT !.n = n, !.starting = FALSE, !.cnt = @ + 1, !.at = now]], x, fz)
     IN /\ Apply([S EXCEPT !.bad = i.n # 0 \/ @], tomb)
        /\ G' = [S.G EXCEPT ![g].pc = "run"]
        /\ met' = IF i.stopping \/ Dying THEN met ELSE [met EXCEPT ![x] = @ + 1]
  /\ Busy2 /\ Keep /\ UNCHANGED <<now, saw, worst, K>>

LoopStopped(g, fz) ==
  /\ Loop /\ G[g].pc = "sendD"
  /\ LET x == G[g].x
         i == Cur[x]
         e == G[g].err
         ab == e.k = "aborted"
         errs == CASE e.raw = "nil" /\ ~ab -> 0
                   [] ab \/ e.raw = "M" -> 1
                   [] OTHER -> IF i.at < 0 \/ now - i.at < Reset THEN i.errs + 1 ELSE 1
         fatal == ~ab /\ e.cls = "fatal"
         t == IF fatal /\ tomb = "alive" THEN "dying" ELSE tomb
         Sa == [S0 EXCEPT !.Cur[x] = [Blank EXCEPT !.err = e.ferr, !.cnt = i.cnt, !.errs = errs], !.dying = t # "alive"]
         Sb == CASE i.stopping -> ReqStart(Sa, x, BounceDelay, fz)
                 [] e.cls \in {"nil", "M", "aborted"} -> Sa
                 [] e.cls = "B" -> ReqStart(Sa, x, BounceDelay, fz)
                 [] e.cls = "U" -> [Sa EXCEPT !.M[x] = Nil, !.Cur[x] = Nil, !.D = [nm \in Names |-> Without(Sa.D[nm], x)]]
                 [] OTHER -> ReqStart(Sa, x, ErrDelay, fz)
         Sc == IF i.n # 0 THEN Bounce(Sb, x, fz) ELSE Sb
         S == IF t # "alive" THEN Sa ELSE Sc
     IN /\ worst' = IF fatal /\ (worst = NoErr \/ e.rank > worst.rank) THEN e ELSE worst
        /\ Apply([S EXCEPT !.bad = @ \/ Stopped(i)], t)
        /\ G' = [S.G EXCEPT ![g].pc = "none"]
  /\ Busy2 /\ Keep /\ UNCHANGED <<now, saw, K, met>>

---------------------------------------------------------------------------
(* The calls. *)
Finish(c, evs) == K' = [K EXCEPT ![c].pc = "done"] /\ Emit(evs)
Same == UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, I, gid, met>>

InstallDying(c) ==
  /\ K[c].op = "install" /\ K[c].pc = "send" /\ Dying
  /\ K' = [K EXCEPT ![c].pc = "reply", ![c].res = "err"]
  /\ Quiet /\ Busy2 /\ Keep /\ Same

InstallRet(c) ==
  /\ K[c].op = "install" /\ K[c].pc = "reply"
  /\ Finish(c, <<[k |-> "ret", c |-> c, op |-> "install", id |-> K[c].id, res |-> K[c].res]>>)
  /\ Busy2 /\ Keep /\ Same

KillCall(c) ==
  /\ K[c].op = "kill" /\ K[c].pc = "send"
  /\ tomb' = IF tomb = "alive" THEN "dying" ELSE tomb
  /\ Finish(c, <<[k |-> "ret", c |-> c, op |-> "kill", id |-> "", res |-> "ok"]>>)
  /\ Busy2 /\ Keep
  /\ UNCHANGED <<now, saw, worst, M, D, Cur, G, I, gid, met>>

WaitCall(c) ==
  /\ K[c].op = "wait" /\ K[c].pc = "wait" /\ tomb = "dead"
  /\ Finish(c, <<[k |-> "ret", c |-> c, op |-> "wait", id |-> "", res |-> "ok", err |-> worst.ferr]>>)
  /\ Busy2 /\ Keep /\ Same

---------------------------------------------------------------------------
Internal ==
  \/ LoopDying
  \/ \E g \in DOMAIN G :
       \/ DelayAborted(g) \/ SendDying(g) \/ WaitReturns(g)
       \/ \E out \in Outs, k \in Classes : StartIn(g, out, k)
       \/ \E s \in Slow : StartOut(g, s)
       \/ \E fz \in Fuzz : LoopStarted(g, fz) \/ LoopStopped(g, fz)
  \/ \E n \in DOMAIN I, k \in KClasses : ExitKilled(n, k)
  \/ \E c \in DOMAIN K : LoopInstall(c) \/ InstallDying(c) \/ InstallRet(c) \/ KillCall(c) \/ WaitCall(c)

Can ==
  \/ Loop /\ Dying /\ ~saw
  \/ \E g \in DOMAIN G :
       \/ G[g].pc = "delay" /\ (Gone(g) \/ now >= G[g].until)
       \/ G[g].pc = "out"
       \/ G[g].pc = "run" /\ I[G[g].n].over
       \/ G[g].pc \in {"sendS", "sendD"} /\ Loop
  \/ \E n \in DOMAIN I : I[n].up /\ ~I[n].over /\ I[n].killed /\ ~I[n].slow
  \/ \E c \in DOMAIN K : K[c].pc \in {"reply", "send"} \/ (K[c].pc = "wait" /\ tomb = "dead")

State(i) == CASE i.starting -> "starting" [] i.stopping -> "stopping" [] i.n # 0 -> "started" [] OTHER -> "stopped"
Line(x) == LET i == Cur[x] IN
  [id |-> x, st |-> State(i), in |-> M[x].in, cnt |-> i.cnt, err |-> i.err, n |-> IF i.n # 0 /\ i.n % 3 # 0 THEN i.n ELSE 0, ls |-> i.at]

Quiesce ==
  /\ ~rest /\ ~Can
  /\ LET xs == SetToSeq({x \in Names : In(x)})
         eng == IF tomb = "alive" THEN "started" ELSE IF tomb = "dying" THEN "stopping" ELSE "stopped"
     IN Emit(<<[k |-> "q", met |-> LET ms == SetToSeq({x \in Names : met[x] > 0}) IN [j \in 1..Len(ms) |-> [id |-> ms[j], cnt |-> met[ms[j]]]], st |-> eng, eerr |-> worst.ferr,
                rep |-> [j \in 1..Len(xs) |-> Line(xs[j])],
                pend |-> SetToSeq({c \in DOMAIN K : K[c].pc # "done"}),
                ctxc |-> SetToSeq({G[g].n : g \in {x \in DOMAIN G : G[x].pc = "hold" /\ Gone(x)}}),
                stuck |-> FALSE, left |-> IF tomb = "dead" THEN Cardinality({g \in DOMAIN G : G[g].pc # "none"}) ELSE 0,
                all |-> 1 + Cardinality({g \in DOMAIN G : G[g].pc # "none"}) + Cardinality({c \in DOMAIN K : K[c].pc # "done"})]>>)
  /\ rest' = TRUE /\ ops' = ops /\ burst' = 0 /\ hist' = Append(hist, [o |-> "q"])
  /\ UNCHANGED <<now, tomb, saw, worst, M, D, Cur, G, I, K, gid, met>>

Delayed == {g \in DOMAIN G : G[g].pc = "delay"}
\* Time passes until the next start is due; or for long, if none is.
Tick ==
  /\ rest /\ "tick" \in Ops /\ tomb # "dead"
  /\ LET t == IF Delayed = {} THEN now + Reset + 1000000
              ELSE CHOOSE u \in {G[g].until : g \in Delayed} : \A g \in Delayed : G[g].until >= u
     IN /\ now' = t
        /\ Env([o |-> "sleep", c |-> 0, id |-> "", n |-> t - now])
  /\ Quiet /\ Busy2
  /\ UNCHANGED <<tomb, saw, worst, M, D, Cur, G, I, K, gid, met>>

EnvNext ==
  \/ \E x \in Specs : CallInstall(x)
  \/ CallKill
  \/ \E g \in DOMAIN G : \E out \in {"ok", "err"}, k \in Classes : (out = "ok") = (k = "nil") /\ Release(g, out, k)
  \/ \E n \in DOMAIN I : Late(n) \/ \E k \in Classes : ExitEnv(n, k)
  \/ Tick

Next == Internal \/ Quiesce \/ EnvNext
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* States that differ only in the history recorded for replay, in the last *)
(* events or in absolute positions and instants need not be told apart.    *)
Masked == [c \in DOMAIN K |-> [K[c] EXCEPT !.plan = <<>>]]
OldI(n) == I[n].over /\ \A g \in DOMAIN G : G[g].pc = "none" \/ G[g].n # n
Rel(t) == IF t < now THEN t - now ELSE t - now
GView == [g \in {x \in DOMAIN G : G[x].pc # "none"} |-> [G[g] EXCEPT !.until = IF G[g].pc = "delay" THEN Rel(@) ELSE 0]]
CurView == [x \in Names |-> IF Cur[x] = Nil THEN Nil ELSE [Cur[x] EXCEPT !.at = IF @ < 0 THEN @ ELSE Rel(@)]]
DesignView == <<tomb, saw, worst, M, D, CurView, GView, I, Masked, gid, met, ops, burst, rest>>
Cuts ==
  {0} \cup {con.calls[c].pos : c \in {x \in DOMAIN con.calls : con.calls[x].pend}}
  \cup UNION {{con.inc[c].inPos, con.inc[c].pqPos, con.inc[c].accPos, con.inc[c].gonePos} : c \in DOMAIN con.inc}
  \cup {con.chgD[x].pos : x \in DOMAIN con.chgD}
  \cup {con.inst[n].outPos : n \in {m \in DOMAIN con.inst : ~con.inst[m].regD}}
ConView ==
  LET ps == Cuts
      R(p) == Cardinality({x \in ps : x < p})
      T(t) == IF t = 0 THEN 0 ELSE Rel(t)
  IN [con EXCEPT
       !.pos = 0, !.seg = 0,
       !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.pos = IF con.calls[c].pend THEN R(@) ELSE 0]],
       !.inc = [c \in DOMAIN @ |-> [@[c] EXCEPT !.inPos = R(@), !.pqPos = R(@), !.accPos = R(@), !.gonePos = R(@),
                   !.endSeg = IF @ = con.seg THEN 1 ELSE 0,
                   !.wins = {[w EXCEPT !.lo = Rel(@), !.hi = Rel(@), !.at = Rel(@)] : w \in @}]],
       !.inst = [n \in DOMAIN @ |-> [@[n] EXCEPT !.outPos = IF con.inst[n].regD THEN 1 ELSE R(@), !.outAt = T(@),
                                                 !.inAt = IF con.inc[con.inst[n].c].n = n /\ Running(con.inc[con.inst[n].c]) THEN Rel(@) ELSE 0,
                                                 !.outSeg = IF @ = 0 THEN 0 ELSE IF @ = con.seg THEN 1 ELSE 2]],
       !.chgD = [x \in DOMAIN @ |-> [pos |-> R(@[x].pos), at |-> Rel(@[x].at)]],
       !.fat = {[f EXCEPT !.seg = Cardinality({y \in {h.seg : h \in con.fat} : y < f.seg})] : f \in @}]
FullView == <<DesignView, ConView>>

---------------------------------------------------------------------------
(* What the design guarantees. *)
Ok == con.viol = {}
OneInstance == \A x \in Names : Cardinality({n \in DOMAIN I : I[n].id = x /\ ~I[n].over}) <= 1
DeadMeansDone == tomb = "dead" => (\A n \in DOMAIN I : I[n].over) /\ \A g \in DOMAIN G : G[g].pc = "none"
\* A manifold that is not stopped has exactly one goroutine, the latest one.
OneGoroutine ==
  /\ \A g \in DOMAIN G : G[g].pc # "none" => Cur[G[g].x] # Nil /\ Cur[G[g].x].g = g /\ ~Stopped(Cur[G[g].x])
  /\ \A x \in Names : Cur[x] # Nil /\ ~Stopped(Cur[x]) => G[Cur[x].g].pc # "none"
\* The dependents are those whose inputs name the manifold.
Dependents == \A x, y \in Names : (In(y) /\ \E j \in 1..Len(M[y].in) : M[y].in[j] = x) <=> (\E j \in 1..Len(D[x]) : D[x][j] = y)
Acyclic == ~Cyclic({<<x, y>> \in Names \X Names : In(x) /\ \E j \in 1..Len(M[x].in) : M[x].in[j] = y})
\* At rest, an undisturbed worker has the current workers as its inputs.
Fresh == rest /\ ~Dying => \A x \in Names : LET i == Cur[x] IN
  (i # Nil /\ i.n # 0 /\ ~i.stopping) => \A nm \in DOMAIN G[i.g].snap : G[i.g].snap[nm] = IF Cur[nm] = Nil THEN 0 ELSE Cur[nm].n

\* The system is at rest when nothing but the environment can move.
CanIsRight == Can <=> ENABLED Internal

\* For test generation: show the operations and plans of a complete behaviour.
Complete == rest /\ (ops = MaxOps \/ tomb = "dead")
Show == Complete => PrintT("SCRIPT " \o ToJson([h |-> hist, p |-> [c \in DOMAIN K |-> K[c].plan]]))
=============================================================================
