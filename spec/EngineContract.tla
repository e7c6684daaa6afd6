--------------------------- MODULE EngineContract ---------------------------
(***************************************************************************)
(* The contract of dependency.Engine, as an observer of the events that    *)
(* are visible through its public API.  Step(st, e) consumes one event;    *)
(* every breach of a property Cxx adds <<"Cxx", rule, position>> to        *)
(* st.viol.                                                                *)
(*                                                                         *)
(* Events (field k), times in us:                                          *)
(*   cfg       err, bounce, factor, reset, max, worst, filter              *)
(*   call/ret  API call c: op install (id, in, out, self), kill, wait      *)
(*   startIn   the start function of the manifold of Install call c is     *)
(*             entered; n is the number of this instance                   *)
(*   see       what instance n was given for every name                    *)
(*   startOut  the start function leaves (out, raw, cls, ferr, cx, same)   *)
(*   kill/exit worker n is told to stop / has finished                     *)
(*   late      a Get after the start call                                  *)
(*   val       Validate was called on a graph                              *)
(*   many      the Install helper was called                               *)
(*   conf, rconf, self   NewEngine, NewRunner, SelfManifold were tried     *)
(*   q         the system has come to rest                                 *)
(*                                                                         *)
(* A manifold whose worker is down is "idle": it has a set of windows in   *)
(* which its next start may happen, and may be parked (nothing happens     *)
(* until an input changes) or gone (uninstalled).  More than one option is *)
(* kept only as long as the order in which concurrent events took effect   *)
(* is not known.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Big == 600000000
Slack == 2000

\* How many goroutines it may have at rest while it lives: at most PerPart
\* for each manifold and each pending call, and Spare of its own.
Spare == 4
PerPart == 3

CInit == [pos |-> 0, seg |-> 0, cfg |-> NoFun, calls |-> NoFun, inc |-> NoFun, inst |-> NoFun,
          poss |-> NoFun, chgM |-> {}, chgD |-> NoFun,
          dyM |-> FALSE, dyF |-> FALSE, dyQ |-> FALSE, waitRet |-> FALSE, waitErr |-> "nil",
          fat |-> {}, viol |-> {}]

If(b, s) == IF b THEN s ELSE {}
V(st, ps, rule) == {<<p, rule, st.pos>> : p \in ps}
Set(f, k, v) == (k :> v) @@ f
Range(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

---------------------------------------------------------------------------
(* Delays *)
RECURSIVE Mul(_, _, _)
Mul(base, f, k) == IF k = 0 \/ base >= Big THEN Min(base, Big) ELSE Mul(IF base > Big \div f THEN Big ELSE base * f, f, k - 1)

Nom(cfg, base, e) ==
  IF base = 0 \/ cfg.factor = 0 THEN base
  ELSE LET d == Mul(base, cfg.factor, Max(0, e - 1)) IN
       IF cfg.max > 0 /\ d > cfg.max THEN cfg.max ELSE d

Win(at, nom, base, why, e) ==
  [lo |-> at + nom - nom \div 10 - 1000, hi |-> at + nom + nom \div 10 + 1000 + Slack,
   at |-> at, base |-> base, why |-> why, back |-> e > 1]

Wins(st, at, why, es) ==
  LET base == IF why = "E" THEN st.cfg.err ELSE IF why = "inst" THEN 0 ELSE st.cfg.bounce IN
  {Win(at, Nom(st.cfg, base, e), base, why, e) : e \in es}

---------------------------------------------------------------------------
(* Graphs *)
\* Edges of the manifolds of incarnations C: a set of <<name, input>>.
Edges(st, C) == UNION {{<<st.inc[c].id, i>> : i \in st.inc[c].ins} : c \in C}

RECURSIVE Prune(_)
Prune(E) == LET F == {x \in E : \E y \in E : y[1] = x[2]} IN IF F = E THEN E ELSE Prune(F)
Cyclic(E) == Prune(E) # {}

---------------------------------------------------------------------------
Present(st) == {c \in DOMAIN st.inc : ~st.inc[c].gone}
OfId(st, id) == {c \in DOMAIN st.inc : st.inc[c].id = id}
Running(r) == r.ph \in {"open", "live"}
Busy(st) == {c \in DOMAIN st.inc : Running(st.inc[c]) /\ ~st.inc[c].self}
Poss(st, nm) == IF nm \in DOMAIN st.poss THEN st.poss[nm] ELSE {0}
\* Certainly installed now.
CertainlyIn(st, c) == LET r == st.inc[c] IN r.acc /\ ~r.gone /\ (Running(r) \/ ~r.goneM) /\ ~r.lost
DyProps(st) == {"C19"} \cup If(st.dyF, {"C18"})

OnCall(st, e) ==
  LET rec == [op |-> e.op, id |-> e.id, pend |-> TRUE, pos |-> st.pos, aft |-> st.waitRet]
      st1 == [st EXCEPT !.calls = Set(@, e.c, rec)]
  IN CASE e.op = "install" ->
          [st1 EXCEPT !.inc = Set(@, e.c,
             [id |-> e.id, in |-> e.in, ins |-> Range(e.in), dup |-> Cardinality(Range(e.in)) < Len(e.in),
              out |-> e.out, self |-> e.self, ph |-> "idle", n |-> 0, killed |-> FALSE, cxq |-> FALSE,
              inPos |-> st.pos, acc |-> FALSE, rej |-> FALSE, errs |-> {0} \cup If(Range(e.in) \cap st.chgM # {}, {1}), ferr |-> "nil", endSeg |-> 0,
              wins |-> Wins(st, e.at, "inst", {0}) \cup If(Range(e.in) \cap st.chgM # {}, Wins(st, e.at, "chg", {0, 1})), park |-> FALSE, goneM |-> FALSE, pq |-> FALSE, pqPos |-> 0, accPos |-> 0,
              gone |-> FALSE, gonePos |-> 0, lost |-> FALSE, lie |-> FALSE, dyEnd |-> FALSE, cntLo |-> 0, cntHi |-> 0])]
       [] e.op = "kill" -> [st1 EXCEPT !.dyM = TRUE]
       [] OTHER -> st1

---------------------------------------------------------------------------
(* An input of idle manifolds has (perhaps) changed. *)
ChangedM(st, nm, at) ==
  [st EXCEPT
    !.chgM = @ \cup {nm},
    !.inc = [c \in DOMAIN @ |->
       LET r == @[c] IN
       IF r.gone \/ Running(r) \/ nm \notin r.ins THEN r
       ELSE LET es == r.errs \cup If(r.wins # {} \/ r.dup, {1}) IN
            [r EXCEPT !.errs = es, !.wins = @ \cup Wins(st, at, "chg", es)]]]

---------------------------------------------------------------------------
StartInProps(st, e, r) ==
  LET fit == {w \in r.wins : w.lo <= e.at /\ e.at <= w.hi}
      early == \A w \in r.wins : e.at < w.lo
      bad == \A w \in r.wins : w.why \in {"B", "E"} /\ (e.at < w.at + w.base - w.base \div 10 - 1000 \/ (~w.back /\ e.at > w.hi))
  IN IF r.gone \/ (r.wins = {} /\ r.goneM /\ ~r.park) THEN V(st, {"C15"}, "uninstalled manifold started")
     ELSE IF r.wins = {} THEN V(st, {"C14", "C15"}, "idle manifold started although no input changed")
     ELSE IF fit # {} THEN V(st, If(r.lie, {"C21"}), "Report showed a pending start as stopped")
     ELSE IF early THEN V(st, {"C16"} \cup If(bad, {"C15"}), "started too early")
     ELSE V(st, {"C16"} \cup If(bad, {"C15"}), "started too late")

OnStartIn(st, e) ==
  LET r == st.inc[e.c]
      v == V(st, If(\E c \in OfId(st, e.id) : Running(st.inc[c]), {"C12"}), "second instance started")
           \cup V(st, If(st.dyQ, DyProps(st)), "start function called during shutdown")
           \cup V(st, If(st.waitRet, {"C19"}), "start function called after Wait returned")
           \cup V(st, If(r.rej, {"C20"}), "rejected manifold started")
           \cup (IF st.dyM \/ r.lost \/ r.rej \/ Running(r) THEN {} ELSE StartInProps(st, e, r))
      r1 == [r EXCEPT !.ph = "open", !.n = e.n, !.killed = FALSE, !.cxq = FALSE, !.inPos = st.pos, !.lie = FALSE,
                      !.wins = {}, !.park = FALSE, !.goneM = FALSE, !.lost = FALSE]
  IN [st EXCEPT !.inc = Set(@, e.c, r1),
                !.inst = Set(@, e.n, [c |-> e.c, id |-> e.id, seen |-> NoFun, inAt |-> e.at, outPos |-> 0, outAt |-> 0, outSeg |-> 0,
                                      regD |-> FALSE, noReg |-> FALSE]),
                !.viol = @ \cup v]

\* What the start call of instance n was shown.
OnSee(st, e) ==
  LET r == st.inc[e.c]
      chk(x) ==
        IF x.nm \notin r.ins
        THEN V(st, If(x.o # "missing" \/ x.x # "missing" \/ x.b # "missing", {"C17"}), "undeclared input accessible")
        ELSE LET ps == Poss(st, x.nm)
                 prov == {st.inst[n].c : n \in (ps \ {0}) \cap DOMAIN st.inst}
                 outs == {st.inc[c].out : c \in prov}
             IN V(st, If(x.x = "ok" /\ ps = {0}, {"C17", "C13"}), "input accessible that is not running")
                \cup V(st, If(x.x = "missing" /\ 0 \notin ps, {"C17", "C13"}), "running input reported missing")
                \cup V(st, If(x.x \notin {"ok", "missing"}, {"C17"}), "unexpected result of Get")
                \cup V(st, If(x.o = "ok" /\ x.n \notin ps \ {0}, {"C17", "C13"}), "Get hands out the wrong worker")
                \cup V(st, If(x.o = "ok" /\ x.of # x.nm, {"C17"}), "Get uses another manifold's output function")
                \cup V(st, If(x.x = "missing" /\ (x.o # "missing" \/ x.b # "missing"), {"C17"}), "missing input has an output")
                \cup V(st, If(x.x = "ok" /\ outs = {TRUE} /\ (x.o # "ok" \/ x.b # "outerr"), {"C17"}), "output function not used")
                \cup V(st, If(x.x = "ok" /\ outs = {FALSE} /\ (x.o # "missing" \/ x.b # "missing"), {"C17"}), "input without output function is exposed")
      seen == [nm \in {x.nm : x \in Range(e.see)} |->
                 LET x == CHOOSE y \in Range(e.see) : y.nm = nm IN
                 [x |-> x.x = "ok", n |-> IF x.o = "ok" THEN x.n ELSE 0]]
  IN [st EXCEPT !.viol = @ \cup UNION {chk(x) : x \in Range(e.see)},
                !.inst = [@ EXCEPT ![e.n].seen = seen]]

---------------------------------------------------------------------------
\* Start call or worker n of incarnation c has ended.
OnEnd(st, e, c, cx) ==
  LET r == st.inc[c]
      i == st.inst[e.n]
      fatal == e.cls = "fatal"
      run == e.at - i.outAt
      es == CASE e.raw = "nil" -> {0}
              [] e.raw = "M" -> {1}
              [] OTHER ->
                   LET more == {Min(x + 1, 20) : x \in r.errs} IN
                   IF i.outPos = 0 \/ i.noReg THEN more
                   ELSE IF run < st.cfg.reset THEN more
                   ELSE IF i.regD /\ run >= st.cfg.reset + 1000 THEN {1}
                   ELSE more \cup {1}
      told == r.killed \/ cx \/ r.cxq
      chg == r.ins \cap st.chgM # {}
      es1 == es \cup If(chg, {1})
      nat == CASE told -> {}
               [] e.cls = "B" -> Wins(st, e.at, "B", es)
               [] e.cls = "E" -> Wins(st, e.at, "E", es)
               [] OTHER -> {}
      ws == nat \cup If(told \/ chg, Wins(st, e.at, "kill", es1))
      r1 == [r EXCEPT !.ph = "idle", !.errs = es1, !.ferr = e.ferr, !.endSeg = st.seg, !.dyEnd = st.dyQ,
                      !.wins = ws, !.park = ~told /\ e.cls \in {"nil", "M"}, !.goneM = ~told /\ e.cls = "U", !.pq = FALSE]
      cur == r.n = e.n
  IN [st EXCEPT !.inc = IF cur THEN [@ EXCEPT ![c] = r1] ELSE @,
                !.fat = IF fatal THEN @ \cup {[err |-> e.ferr, rank |-> e.rank, seg |-> st.seg]} ELSE @,
                !.dyM = @ \/ fatal, !.dyF = @ \/ fatal]

OnStartOut(st, e) ==
  LET r == st.inc[e.c]
      st1 == [st EXCEPT !.inst = [@ EXCEPT ![e.n].outSeg = st.seg], !.viol = @ \cup V(st, If(~e.same, {"C17"}), "Get changed its answer during the start call")]
  IN IF e.out # "ok" THEN OnEnd(st1, e, e.c, e.cx)
     ELSE LET no == r.cxq \/ st.dyQ
              st2 == [st1 EXCEPT
                 !.inc = [@ EXCEPT ![e.c].ph = IF @ = "open" THEN "live" ELSE @, ![e.c].cntHi = IF no THEN @ ELSE @ + 1],
                 !.inst = [@ EXCEPT ![e.n].outPos = st.pos, ![e.n].outAt = e.at, ![e.n].noReg = no],
                 !.poss = Set(@, e.id, Poss(st, e.id) \cup {e.n})]
          IN ChangedM(st2, e.id, e.at)

OnKill(st, e) ==
  LET c == st.inst[e.n].c
      r == st.inc[c]
      ok == st.dyM \/ r.cxq \/ r.ins \cap st.chgM # {}
  IN [st EXCEPT !.inc = IF r.n = e.n THEN [@ EXCEPT ![c].killed = TRUE] ELSE @,
                !.viol = @ \cup V(st, If(~ok, {"C14"}), "worker killed although no input changed")]

OnExit(st, e) ==
  LET i == st.inst[e.n]
      st1 == OnEnd(st, e, i.c, FALSE)
      st2 == [st1 EXCEPT !.poss = Set(@, e.id, Poss(st, e.id) \cup {0}),
                         !.chgD = IF i.regD THEN Set(@, e.id, [pos |-> st.pos, at |-> e.at]) ELSE @]
  IN ChangedM(st2, e.id, e.at)

OnLate(st, e) ==
  LET i == st.inst[e.n] IN
  [st EXCEPT !.viol = @ \cup V(st, If((e.ok \/ e.out) /\ i.outSeg > 0 /\ i.outSeg < st.seg, {"C17"}),
                               "Get works after the start call")]

---------------------------------------------------------------------------
RetInstall(st, e) ==
  LET call == st.calls[e.c]
      r == st.inc[e.c]
      others == DOMAIN st.inc \ {e.c}
      def == {c \in others : CertainlyIn(st, c) /\ st.inc[c].accPos < call.pos}
      may == {c \in others : ~st.inc[c].rej /\ (~st.inc[c].gone \/ st.inc[c].gonePos > call.pos)}
      same == {c \in may : st.inc[c].id = r.id}
      \* This one was accepted and uninstalled before another one was accepted.
      first == r.goneM /\ ~Running(r) /\ \E c \in same : st.inc[c].acc /\ ~st.inc[c].gone /\ (Running(st.inc[c]) \/ ~st.inc[c].goneM)
      v == IF e.res = "ok"
           THEN V(st, If(\E c \in def : st.inc[c].id = r.id, {"C20"}), "installed name accepted again")
                \cup V(st, If(Cyclic(Edges(st, {c \in def : st.inc[c].id # r.id} \cup {e.c})), {"C20"}), "cycle accepted")
                \cup V(st, If(call.aft, {"C20", "C19"}), "finished engine accepted a manifold")
           ELSE V(st, If(~st.dyM /\ same = {} /\ ~Cyclic(Edges(st, may \cup {e.c})),
                         {"C20"} \cup If(\E c \in OfId(st, r.id) \cap others : st.inc[c].gone /\ ~st.inc[c].rej, {"C15"})),
                  "valid manifold rejected")
                \cup V(st, If(Running(r) \/ r.n # 0, {"C20"}), "rejected manifold started")
      st1 == [st EXCEPT !.viol = @ \cup v]
  IN IF e.res = "ok"
     THEN [st1 EXCEPT !.inc = [c \in DOMAIN @ |->
             \* Of two accepted manifolds with one name, the earlier has been uninstalled.
             IF c = e.c
             THEN LET r1 == [@[c] EXCEPT !.acc = TRUE, !.accPos = st.pos, !.inPos = IF @ = call.pos THEN st.pos ELSE @]
                  IN IF first THEN [r1 EXCEPT !.gone = TRUE, !.gonePos = st.pos] ELSE r1
             ELSE IF ~first /\ c \in same /\ st.inc[c].acc /\ ~Running(st.inc[c]) /\ ~st.inc[c].gone
             THEN [@[c] EXCEPT !.gone = TRUE, !.gonePos = st.pos] ELSE @[c]]]
     ELSE [st1 EXCEPT !.inc = [@ EXCEPT ![e.c].rej = TRUE, ![e.c].gone = TRUE, ![e.c].gonePos = st.pos]]

RetWait(st, e) ==
  LET ranks == {f.rank : f \in st.fat}
      segs == {f.seg : f \in st.fat}
      ok == IF st.fat = {} THEN {"nil"}
            ELSE {f.err : f \in {g \in st.fat :
                    CASE st.cfg.worst = "first" -> \A s \in segs : g.seg <= s
                      [] st.cfg.worst = "last" -> \A s \in segs : g.seg >= s
                      [] OTHER -> \A x \in ranks : g.rank >= x}}
      full == IF st.cfg.filter THEN {IF x = "nil" THEN x ELSE x \o "!" : x \in ok} ELSE ok
      v == V(st, If(Busy(st) # {}, {"C19"}), "Wait returned while a worker or start call was active")
           \cup V(st, If(~st.dyM, {"C18", "C19"}), "Wait returned from an engine that nobody stopped")
           \cup V(st, If(e.err \notin full, {"C18"}), "wrong error from Wait")
  IN [st EXCEPT !.viol = @ \cup v, !.waitRet = TRUE, !.waitErr = e.err]

OnRet(st0, e) ==
  LET st == [st0 EXCEPT !.calls = [@ EXCEPT ![e.c].pend = FALSE]] IN
  CASE e.op = "install" -> RetInstall(st, e)
    [] e.op = "wait" -> RetWait(st, e)
    [] OTHER -> st

\* Validate, called on the graph with the given edges.
OnVal(st, e) ==
  LET E == {<<x[1], x[2]>> : x \in Range(e.edges)} IN
  [st EXCEPT !.viol = @ \cup V(st, If(e.res = "ok" /\ Cyclic(E), {"C20"}), "Validate accepts a cycle")
                        \cup V(st, If(e.res # "ok" /\ ~Cyclic(E), {"C20"}), "Validate rejects an acyclic graph")]

\* The Install helper was given the names in given; the installer was called for
\* got, in this order, and fails for the names in bad.
OnMany(st, e) ==
  LET given == Range(e.given)
      bad == Range(e.bad)
      failed == {i \in 1..Len(e.got) : e.got[i] \in bad}
  IN [st EXCEPT !.viol = @
       \cup V(st, If(~(Range(e.got) \subseteq given) \/ Cardinality(Range(e.got)) < Len(e.got), {"C20"}), "Install helper installs something else")
       \cup V(st, If(failed = {} /\ (~e.ok \/ Range(e.got) # given), {"C20"}), "Install helper does not install everything")
       \cup V(st, If(failed # {} /\ (e.ok \/ ~e.own), {"C20"}), "Install helper hides the error")
       \cup V(st, If(failed # {} /\ failed # {Len(e.got)}, {"C20"}), "Install helper goes on after an error")]

\* NewEngine was called; factor is ten times the backoff factor.
OnConf(st, e) ==
  LET valid == /\ e.fatal /\ e.worst /\ e.clock /\ e.metrics /\ e.logger
               /\ e.err >= 0 /\ e.bounce >= 0 /\ e.reset >= 0 /\ e.max >= 0
               /\ (e.factor = 0 \/ e.factor >= 10)
  IN [st EXCEPT !.viol = @
       \cup V(st, If(e.res # valid \/ e.eng # valid, {"C31"}), "NewEngine judges the configuration wrongly")
       \cup V(st, If(e.val # valid, {"C31"}), "Validate judges the configuration wrongly")]

OnRconf(st, e) ==
  [st EXCEPT !.viol = @ \cup V(st, If(e.res # e.name \/ e.run # e.name \/ e.val # e.name, {"C31"}), "NewRunner judges the parameters wrongly")]

\* The self manifold's output function was asked for t; in: the worker was the engine.
OnSelf(st, e) ==
  LET ok == e.in /\ e.t \in {"installer", "reporter", "start", "wait"} IN
  [st EXCEPT !.viol = @ \cup V(st, If(e.res # ok \/ (ok /\ ~e.same), {"C31"}), "self manifold exposes the wrong thing")]

---------------------------------------------------------------------------
(* At rest. *)
\* First, instances that are certainly registered and what that changed.
Settle(st) ==
  LET new == {n \in DOMAIN st.inst : /\ ~st.inst[n].regD /\ st.inst[n].outPos # 0 /\ ~st.inst[n].noReg
                                     /\ LET r == st.inc[st.inst[n].c] IN r.n = n /\ r.ph = "live" /\ ~r.killed /\ ~r.gone}
      ids == {st.inst[n].id : n \in new}
      of(id) == CHOOSE n \in new : st.inst[n].id = id
  IN [st EXCEPT !.inst = [n \in DOMAIN @ |-> IF n \in new THEN [@[n] EXCEPT !.regD = TRUE] ELSE @[n]],
                !.inc = [c \in DOMAIN @ |-> IF @[c].n \in new /\ ~st.dyM THEN [@[c] EXCEPT !.cntLo = @ + 1] ELSE @[c]],
                !.chgD = [id \in DOMAIN @ \cup ids |->
                            IF id \notin ids THEN @[id]
                            ELSE LET p == st.inst[of(id)].outPos IN
                                 IF id \in DOMAIN @ /\ @[id].pos > p THEN @[id] ELSE [pos |-> p, at |-> st.inst[of(id)].outAt]]]

\* Resolve what is known about the idle incarnation c, given its line x in the report (a set).
Resolve(st, e, c, x) ==
  LET r == st.inc[c]
      D == {st.chgD[i] : i \in {j \in r.ins \cap DOMAIN st.chgD : st.chgD[j].pos > r.inPos}}
      last == IF D = {} THEN 0 ELSE CHOOSE t \in {d.at : d \in D} : \A d \in D : d.at <= t
      r1 == IF D = {} THEN r
            ELSE [r EXCEPT !.wins = {w \in @ : w.why \in {"chg", "kill"} /\ w.at >= last}, !.park = FALSE,
                           !.goneM = @ /\ r.endSeg = st.seg,
                           !.errs = IF r.pq /\ r.endSeg < st.seg /\ \E d \in D : d.pos > r.pqPos THEN {1} ELSE @]
      r2 == [r1 EXCEPT !.wins = {w \in @ : w.hi >= e.at}]
      r3 == CASE x = {} /\ r2.goneM -> [r2 EXCEPT !.gone = TRUE, !.gonePos = st.pos]
              [] x = {} -> r2
              [] (\E y \in x : y.st = "stopped") /\ r2.park -> [r2 EXCEPT !.wins = {}, !.goneM = FALSE]
              [] (\E y \in x : y.st = "starting") /\ r2.wins # {} -> [r2 EXCEPT !.park = FALSE, !.goneM = FALSE]
              [] OTHER -> [r2 EXCEPT !.goneM = @ /\ x = {}]
  IN [pre |-> r1, post |-> r3]

\* Violations of the idle incarnation c.
IdleViol(st, e, c, x, pre, post) ==
  IF post.lost THEN {}
  ELSE IF pre.wins # {} /\ ~pre.park /\ ~pre.goneM /\ \A w \in pre.wins : w.hi < e.at THEN
     LET why == {w.why : w \in pre.wins}
         back == \E w \in pre.wins : w.back
         far == \A w \in pre.wins : e.at > w.hi + 3 * (w.hi - w.at)
     IN V(st, (IF why = {"inst"} THEN {"C20", "C16"}
               ELSE {"C16"} \cup If(~back \/ far, If("chg" \in why \/ "kill" \in why, {"C13"}) \cup If("B" \in why \/ "E" \in why, {"C15"}))),
          "not started when it was due")
  ELSE V(st, If(x = {} /\ ~pre.goneM, {"C15", "C21"}), "installed manifold missing from Report")
       \cup V(st, If(x # {} /\ pre.goneM /\ pre.wins = {} /\ ~pre.park, {"C15"}), "uninstalled manifold still known")
       \cup UNION {
            V(st, If(y.st = "started" \/ y.st = "stopping", {"C21"}), "Report shows a worker that has finished")
            \cup V(st, If(y.st = "starting" /\ pre.park /\ pre.wins = {}, {"C14", "C21"}), "Report shows an idle manifold as starting")
            \cup V(st, If(y.st = "stopped" /\ y.err # post.ferr, {"C21"}), "Report shows the wrong error")
            : y \in x}

LiveViol(st, e, c, x, ctxc) ==
  LET r == st.inc[c]
      i == st.inst[r.n]
      cur(nm) == {d \in OfId(st, nm) : ~st.inc[d].gone /\ st.inc[d].ph = "live"}
      fits(nm) ==
        IF nm \notin DOMAIN i.seen THEN TRUE
        ELSE IF cur(nm) = {} THEN ~i.seen[nm].x
        ELSE LET d == CHOOSE d \in cur(nm) : TRUE
                 same == i.seen[nm].x /\ (st.inc[d].out => i.seen[nm].n = st.inc[d].n)
             IN same \/ (st.inst[st.inc[d].n].regD = FALSE /\ ~i.seen[nm].x)
      stale == {nm \in r.ins : ~fits(nm)}
      undist == r.ph = "live" /\ ~r.killed
  IN V(st, If(undist /\ stale # {}, {"C13"}), "worker runs with stale inputs")
     \cup V(st, If(r.ph = "open" /\ stale # {} /\ r.n \notin ctxc, {"C13"}), "start call with stale inputs not cancelled")
     \cup V(st, If(r.ph = "open" /\ r.n \in ctxc /\ ~r.cxq /\ r.ins \cap st.chgM = {}, {"C14"}), "start cancelled although no input changed")
     \cup V(st, If(x = {}, {"C21"}), "running manifold missing from Report")
     \cup UNION {
        V(st, If(undist /\ y.st # "started", {"C21"}), "running worker not reported as started")
        \cup V(st, If(r.ph = "live" /\ r.killed /\ y.st \notin {"stopping", "starting"}, {"C21"}), "stopping worker reported otherwise")
        \cup V(st, If(r.ph = "live" /\ r.killed /\ i.regD /\ y.st # "stopping", {"C21"}), "stopping worker not reported as stopping")
        \cup V(st, If(r.ph = "open" /\ y.st # "starting", {"C21"}), "executing start call not reported as starting")
        \* The time shown is cut to whole seconds.
        \cup V(st, If(undist /\ (y.ls > i.outAt + Slack \/ y.ls + 1000000 <= i.inAt), {"C21"}), "Report shows the wrong time of the last start")
        \cup V(st, If(undist /\ ~r.self /\ r.n % 3 # 0 /\ y.n # r.n, {"C21"}), "Report lacks the worker's own report")
        : y \in x}

\* The report x (a set) of incarnation c during and after the shutdown.
DyingViol(st, c, x) ==
  LET r == st.inc[c]
      idle == ~Running(r)
  IN V(st, If(x = {}, {"C21"}), "installed manifold missing from Report at shutdown")
     \cup UNION {
        V(st, If(Range(y.in) # r.ins, {"C21"}), "Report shows the wrong inputs at shutdown")
        \cup V(st, If(y.cnt < r.cntLo \/ y.cnt > r.cntHi, {"C21"}), "Report shows the wrong start count at shutdown")
        \cup V(st, If(y.n # 0 /\ ~(r.n = y.n /\ r.ph = "live"), {"C21"}), "Report shows the report of a worker that is not running")
        \cup (IF r.self THEN {} ELSE
             V(st, If(idle /\ y.st # "stopped", {"C21"}), "finished manifold not reported as stopped at shutdown")
             \cup V(st, If(r.ph = "open" /\ y.st # "starting", {"C21"}), "executing start call not reported as starting at shutdown")
             \cup V(st, If(r.ph = "live" /\ r.killed /\ y.st # "stopping" /\ (y.st # "starting" \/ st.inst[r.n].regD), {"C21"}), "stopping worker not reported as stopping at shutdown")
             \cup V(st, If(idle /\ r.n # 0 /\ (r.wins = {} \/ r.dyEnd) /\ y.err # r.ferr, {"C21"}), "Report shows the wrong error at shutdown"))
        : y \in x}

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})

OnQ(st0, e) ==
  LET st == Settle(st0)
      rep == Range(e.rep)
      ctxc == Range(e.ctxc)
      P == Present(st)
      line(c) == {y \in rep : y.id = st.inc[c].id}
      sole(c) == \A d \in P : st.inc[d].id = st.inc[c].id => d = c
      idle == {c \in P : ~Running(st.inc[c])}
      res == [c \in idle |-> Resolve(st, e, c, line(c))]
      live == {c \in P : Running(st.inc[c])}
      errs == V(st, If(\E y \in rep : y.st # "stopped" /\ y.err # "nil", {"C21"}), "Report shows an error although the manifold is not stopped")
      \* not during shutdown
      nv == UNION {IdleViol(st, e, c, line(c), res[c].pre, res[c].post) : c \in {d \in idle : sole(d) /\ st.inc[d].acc}}
            \cup UNION {LiveViol(st, e, c, line(c), ctxc) : c \in {d \in live : sole(d)}}
            \cup UNION {LET r == st.inc[c] IN UNION {
                 V(st, If(Range(y.in) # r.ins, {"C21"}), "Report shows the wrong inputs")
                 \cup V(st, If(y.cnt < r.cntLo \/ y.cnt > r.cntHi, {"C21"}), "Report shows the wrong start count")
                 \cup V(st, If(y.n # 0 /\ ~(r.n = y.n /\ r.ph = "live"), {"C21"}), "Report shows the report of a worker that is not running")
                 : y \in line(c)} : c \in {d \in P : sole(d)}}
            \cup errs
            \cup V(st, If(\E y \in rep : \A c \in P : st.inc[c].id # y.id, {"C21"}), "Report shows a manifold that is not installed")
            \cup V(st, If(e.st # "started" \/ e.eerr # "nil", {"C21"}), "engine not reported as started")
      \* during shutdown
      sv == UNION {
              LET r == st.inc[c] IN
              V(st, If(r.ph = "live" /\ ~r.killed, DyProps(st)), "worker not killed at shutdown")
              \cup V(st, If(r.ph = "open" /\ r.n \notin ctxc, DyProps(st)), "context of a start call not cancelled at shutdown")
              : c \in Busy(st)}
            \cup UNION {DyingViol(st, c, line(c)) : c \in {d \in P : sole(d) /\ st.inc[d].acc /\ ~st.inc[d].goneM /\ ~st.inc[d].lost}}
            \cup errs
            \cup V(st, If(e.st # (IF st.waitRet THEN "stopped" ELSE "stopping"), {"C21"}), "engine reported in the wrong state")
            \cup V(st, If(st.waitRet /\ st.waitErr # "?" /\ e.eerr # st.waitErr, {"C21"}), "engine reported with the wrong error")
      pv == UNION {
              LET k == st.calls[c] IN
              CASE k.op = "install" -> V(st, {"C20"} \cup If(st.dyM, {"C19"}), "Install blocked")
                [] k.op = "kill" -> V(st, {"C19"}, "Kill blocked")
                [] k.op = "wait" -> V(st, If(st.dyM /\ Busy(st) = {}, DyProps(st)), "Wait blocked although everything has finished")
              : c \in Range(e.pend) \cap DOMAIN st.calls}
            \cup V(st, If(st.waitRet /\ Len(e.pend) = 0 /\ e.left > 0, {"C32"}), "goroutines of the finished engine remain")
            \cup V(st, If(e.all > Spare + PerPart * (Cardinality(P) + Len(e.pend)), {"C32"}), "goroutines of finished workers pile up")
      mets == Range(e.met)
      met(id) == IF \E m \in mets : m.id = id THEN (CHOOSE m \in mets : m.id = id).cnt ELSE 0
      mv == UNION {
              LET cs == OfId(st, id)
                  lo == Sum({<<c, st.inc[c].cntLo>> : c \in cs})
                  hi == Sum({<<c, st.inc[c].cntHi>> : c \in cs})
              IN V(st, If(met(id) < lo, {"C31"}), "start not recorded in the metrics")
                 \cup V(st, If(met(id) > hi, {"C31"}), "metrics record a start that did not happen")
              : id \in {st.inc[c].id : c \in DOMAIN st.inc} \cup {m.id : m \in mets}}
      xv == V(st, If(e.stuck, {"C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"}), "Report blocked")
      inc1 == [c \in DOMAIN st.inc |->
                 IF c \in live THEN [st.inc[c] EXCEPT !.cxq = st.inc[c].n \in ctxc]
                 ELSE IF c \notin idle \/ st.dyM THEN st.inc[c]
                 ELSE LET p == res[c].post
                          over == p.wins = {} /\ ~p.park /\ ~p.goneM IN
                      [p EXCEPT !.lost = @ \/ (over /\ ~p.gone), !.pq = p.wins # {} /\ ~p.park /\ ~p.goneM, !.pqPos = st.pos,
                                !.lie = @ \/ (p.wins # {} /\ ~p.park /\ \E y \in line(c) : y.st = "stopped")]]
      names == {st.inc[c].id : c \in DOMAIN st.inc}
      now(nm) == LET L == {c \in OfId(st, nm) : ~inc1[c].gone /\ st.inc[c].ph = "live"} IN
                 IF L = {} THEN {0}
                 ELSE UNION {{st.inc[c].n} \cup If((~st.inst[st.inc[c].n].regD) \/ (st.dyM /\ st.inc[c].self), {0}) : c \in L}
  IN [st EXCEPT !.viol = @ \cup (IF e.stuck THEN xv ELSE (IF st.dyM THEN sv ELSE nv) \cup pv \cup mv),
                !.inc = inc1, !.poss = [nm \in names |-> now(nm)],
                !.chgM = {}, !.dyQ = st.dyM, !.seg = @ + 1]

---------------------------------------------------------------------------
Step(st0, e) ==
  LET st == [st0 EXCEPT !.pos = @ + 1] IN
  CASE e.k = "cfg" -> [st EXCEPT !.cfg = e, !.seg = 1]
    [] e.k = "call" -> OnCall(st, e)
    [] e.k = "ret" -> OnRet(st, e)
    [] e.k = "startIn" -> OnStartIn(st, e)
    [] e.k = "see" -> OnSee(st, e)
    [] e.k = "startOut" -> OnStartOut(st, e)
    [] e.k = "exit" -> OnExit(st, e)
    [] e.k = "kill" -> OnKill(st, e)
    [] e.k = "late" -> OnLate(st, e)
    [] e.k = "val" -> OnVal(st, e)
    [] e.k = "many" -> OnMany(st, e)
    [] e.k = "conf" -> OnConf(st, e)
    [] e.k = "rconf" -> OnRconf(st, e)
    [] e.k = "self" -> OnSelf(st, e)
    [] e.k = "q" -> OnQ(st, e)
=============================================================================
