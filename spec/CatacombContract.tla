-------------------------- MODULE CatacombContract --------------------------
(***************************************************************************)
(* The contract of catacomb.Catacomb, as an observer of the events visible *)
(* through its public API.  Step(st, e) consumes one event; every breach   *)
(* of a property Cxx adds <<"Cxx", rule, position>> to st.viol.            *)
(*                                                                         *)
(* Events (field k):                                                       *)
(*   call/ret     API call c: op invoke (ns: the Init workers, valid),     *)
(*                add (n), kill (eff), wait                                *)
(*   workIn/Out   the work function of Invoke call c runs / has ended      *)
(*   kill, exit   worker n is told to stop / has finished                  *)
(*   ukill        the client is going to kill worker n                     *)
(*   ctx, pcancel a context was obtained / its parent was cancelled        *)
(*   q            the system has come to rest                              *)
(*                                                                         *)
(* eff is the set of errors that a given error may appear as: "nil", "bad" *)
(* (a misused error that must be replaced), "none" (the catacomb's own     *)
(* ErrDying, without effect), "P" (a panic) or the error itself.           *)
(*                                                                         *)
(* A cause is a reason to die: [eff, from, to, def]: it took effect at     *)
(* some position between from and to (to = 0: not known yet); if def is    *)
(* FALSE it may have come too late.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]

\* How many goroutines it may have at rest while it lives: at most PerPart
\* for each worker and each pending call, and Spare of its own.
Spare == 4
PerPart == 3

CInit == [pos |-> 0, calls |-> NoFun, w |-> NoFun, inv |-> 0, workIn |-> FALSE, workDone |-> FALSE,
          causes |-> {}, may |-> FALSE, dyQ |-> FALSE, dead |-> FALSE, final |-> "-", waitRet |-> FALSE,
          ctx |-> NoFun, viol |-> {}]

If(b, s) == IF b THEN s ELSE {}
V(st, ps, rule) == {<<p, rule, st.pos>> : p \in ps}
Max(a, b) == IF a > b THEN a ELSE b
Set(f, k, v) == (k :> v) @@ f
Range(s) == {s[i] : i \in 1..Len(s)}

\* Dying for certain as soon as everything has settled / possibly dying now.
Dy(st) == st.causes # {}
DyM(st) == st.causes # {} \/ st.may

Cause(st, eff, from, def) == [eff |-> eff, from |-> from, to |-> 0, def |-> def]
Real(x) == x.eff \cap {"nil", "none"} = {}
Resp(st) == {n \in DOMAIN st.w : st.w[n].own = "resp"}
Busy(st) == st.inv # 0 /\ (~st.workDone \/ \E n \in Resp(st) : ~st.w[n].done)

\* Workers that failed while they were being handed over may have killed it already.
Handing(st) == {n \in DOMAIN st.w : st.w[n].own = "pend" /\ st.w[n].done /\ st.w[n].eff \cap {"nil", "none"} = {}}
MayCauses(st) == {Cause(st, st.w[n].eff, Max(st.w[n].at, st.calls[st.w[n].c].pos), FALSE) : n \in Handing(st)}

\* What Wait and Err may report.
Reasons(st) ==
  LET N == {x \in st.causes : Real(x)} \cup MayCauses(st)
      first == {x \in N : ~\E y \in N : y.def /\ y.to # 0 /\ y.to < x.from}
  IN UNION {x.eff : x \in first} \cup If(~\E x \in N : x.def, {"nil"})

NewW(own, c) == [own |-> own, c |-> c, killed |-> FALSE, user |-> FALSE, done |-> FALSE, eff |-> {"nil"}, obs |-> "nil", at |-> 0]
W(st, n) == IF n \in DOMAIN st.w THEN st.w[n] ELSE NewW("none", 0)

---------------------------------------------------------------------------
OnCall(st, e) ==
  LET rec == [op |-> e.op, pend |-> TRUE, pos |-> st.pos, res |-> "-",
              ns |-> IF e.op = "invoke" THEN Range(e.ns) ELSE IF e.op = "add" THEN {e.n} ELSE {},
              valid |-> e.op = "invoke" /\ e.valid, eff |-> IF e.op = "kill" THEN Range(e.eff) ELSE {},
              dyM |-> DyM(st), dead |-> st.dead \/ st.waitRet]
      st1 == [st EXCEPT !.calls = Set(@, e.c, rec)]
  IN CASE e.op \in {"invoke", "add"} ->
          [st1 EXCEPT !.w = [n \in DOMAIN @ \cup rec.ns |->
                               IF n \in rec.ns THEN [W(st, n) EXCEPT !.own = "pend", !.c = e.c] ELSE @[n]],
                      !.may = @ \/ \E n \in rec.ns : W(st, n).done /\ W(st, n).eff # {"nil"}]
       [] e.op = "kill" /\ rec.eff # {"none"} /\ ~rec.dead ->
          [st1 EXCEPT !.causes = @ \cup {Cause(st, rec.eff, st.pos, FALSE)}]
       [] OTHER -> st1

\* The workers ns are now the catacomb's; those that already ended with an error kill it.
Take(st, ns, from) ==
  [st EXCEPT !.w = [n \in DOMAIN @ |-> IF n \in ns THEN [@[n] EXCEPT !.own = "resp"] ELSE @[n]],
             !.causes = @ \cup {Cause(st, st.w[n].eff, Max(st.w[n].at, from), TRUE)
                                : n \in {m \in ns : st.w[m].done /\ st.w[m].eff \cap {"nil", "none"} = {}}}]

RetInvoke(st, e) ==
  LET k == st.calls[e.c]
      rivals == {c \in DOMAIN st.calls : c # e.c /\ st.calls[c].op = "invoke" /\ st.calls[c].valid /\ (st.calls[c].pend \/ st.calls[c].res = "ok")}
      mine == k.ns
  IN IF e.res = "ok"
     THEN [Take(st, mine, k.pos) EXCEPT !.inv = e.c, !.viol = @
             \cup V(st, If(~k.valid, {"C25"}), "invalid plan accepted")
             \cup V(st, If(st.inv # 0, {"C25"}), "catacomb used twice")
             \cup V(st, If(\E n \in mine : st.w[n].killed /\ ~st.w[n].user /\ ~DyM(st), {"C23"}), "worker killed without reason")]
     ELSE [st EXCEPT !.w = [n \in DOMAIN @ |-> IF n \in mine THEN [@[n] EXCEPT !.own = "failed"] ELSE @[n]],
                     !.viol = @
             \cup V(st, If(k.valid /\ rivals = {}, {"C25"}), "valid plan rejected")
             \cup V(st, If(\E n \in mine : ~st.w[n].done, {"C25"}), "failed Invoke left a worker running")]

RetAdd(st, e) ==
  LET k == st.calls[e.c]
      n == CHOOSE m \in k.ns : TRUE
      r == st.w[n]
  IN IF e.res = "ok"
     THEN [Take(st, {n}, k.pos) EXCEPT !.viol = @
             \cup V(st, If((st.waitRet \/ st.dead) /\ ~r.done, {"C22", "C25"}), "worker accepted by a dead catacomb")
             \cup V(st, If(k.dead, {"C25"}), "Add succeeded on a dead catacomb")]
     ELSE [st EXCEPT !.w = [@ EXCEPT ![n].own = "failed"], !.viol = @
             \cup V(st, If(~r.done, {"C25"}), "failed Add left the worker running")
             \cup V(st, If(~DyM(st), {"C25"}), "Add failed although the catacomb is not dying")
             \cup V(st, If(e.obs # (IF r.obs = "nil" THEN "owndying" ELSE "worker"), {"C25"}), "Add returned the wrong error")]

RetKill(st, e) ==
  LET k == st.calls[e.c] IN
  [st EXCEPT !.causes = {IF x.from = k.pos /\ x.to = 0 THEN [x EXCEPT !.to = st.pos, !.def = Busy(st)] ELSE x : x \in @},
             !.viol = @ \cup V(st, If(e.res # "ok", {"C24"}), "Kill panicked")]

RetWait(st, e) ==
  [st EXCEPT !.waitRet = TRUE, !.viol = @
     \cup V(st, If(Busy(st), {"C22"}), "Wait returned while something was running")
     \cup V(st, If(~DyM(st), {"C22"}), "Wait returned from a live catacomb")
     \cup V(st, If(IF st.dead THEN e.obs # st.final ELSE e.obs \notin Reasons(st), {"C24"} \cup If("P" \in Reasons(st), {"C26"})), "wrong error from Wait")]

OnRet(st0, e) ==
  LET st == [st0 EXCEPT !.calls = [@ EXCEPT ![e.c].pend = FALSE, ![e.c].res = e.res]] IN
  CASE e.op = "invoke" -> RetInvoke(st, e)
    [] e.op = "add" -> RetAdd(st, e)
    [] e.op = "kill" -> RetKill(st, e)
    [] e.op = "wait" -> RetWait(st, e)

---------------------------------------------------------------------------
OnWorkIn(st, e) ==
  LET k == st.calls[e.c] IN
  [st EXCEPT !.workIn = TRUE, !.viol = @
     \cup V(st, If(~k.valid \/ k.res = "err", {"C25"}), "work function of a failed Invoke was run")
     \cup V(st, If(st.workIn, {"C25"}), "work function run twice")
     \cup V(st, If(~e.lab, {"C33"}), "work function run without its own profile labels")]

OnWorkOut(st, e) ==
  [st EXCEPT !.workDone = TRUE,
             !.causes = @ \cup {IF Range(e.eff) = {"none"} THEN Cause(st, {"nil"}, st.pos, TRUE) ELSE Cause(st, Range(e.eff), st.pos, TRUE)}]

OnKillW(st, e) ==
  LET r == W(st, e.n)
      byInvoke == r.own = "pend" /\ st.calls[r.c].op = "invoke"
      ok == r.user \/ DyM(st) \/ byInvoke \/ r.own = "failed"
  IN [st EXCEPT !.w = Set(@, e.n, [r EXCEPT !.killed = TRUE]),
                !.viol = @ \cup V(st, If(~ok, {"C23"}), "worker killed without reason")]

OnExit(st, e) ==
  LET r == W(st, e.n)
      eff == Range(e.eff)
      bad == eff \cap {"nil", "none"} = {}
  IN [st EXCEPT !.w = Set(@, e.n, [r EXCEPT !.done = TRUE, !.eff = eff, !.obs = e.obs, !.at = st.pos]),
                !.causes = IF bad /\ r.own = "resp" THEN @ \cup {Cause(st, eff, st.pos, TRUE)} ELSE @,
                !.may = @ \/ (bad /\ r.own = "pend")]

---------------------------------------------------------------------------
OnQ(st, e) ==
  LET ctx == Range(e.ctx)
      should == st.inv # 0 /\ Dy(st) /\ ~Busy(st)
      causes1 == {IF x.to = 0 THEN [x EXCEPT !.to = st.pos] ELSE x : x \in st.causes}
      st1 == [st EXCEPT !.causes = causes1]
      why == {"C23"} \cup If(\E x \in st.causes : "P" \in x.eff, {"C26"})
      av == IF st.inv = 0 THEN {} ELSE
              V(st, If(e.dying /\ ~Dy(st), {"C23"}), "catacomb dying without reason")
              \cup V(st, If(~e.dying /\ Dy(st), why), "catacomb not dying")
              \cup V(st, If(e.dead /\ ~should, {"C22"}), "catacomb dead too early")
              \cup V(st, If(~e.dead /\ should, {"C22"}), "catacomb not dead although everything has finished")
              \cup V(st, If(~st.workIn, {"C22"}), "work function not run")
              \cup V(st, If(~Dy(st) /\ e.obs # "alive", {"C24"}), "Err of a live catacomb")
              \cup V(st, If(Dy(st) /\ (IF st.dead THEN e.obs # st.final ELSE e.obs \notin Reasons(st1)), {"C24"} \cup If("P" \in Reasons(st1), {"C26"})), "wrong Err")
              \cup V(st, If((e.edy = "owndying") # Dy(st), {"C24"}), "wrong ErrDying")
              \cup V(st, If(Dy(st) /\ \E n \in Resp(st) : ~st.w[n].done /\ ~st.w[n].killed, why), "worker not killed when the catacomb is dying")
              \cup V(st, If(\E x \in DOMAIN st.ctx : (x \in ctx) # (Dy(st) \/ st.ctx[x].canc), {"C26"}), "context cancelled at the wrong time")
      pv == UNION {
              LET k == st.calls[c] IN
              CASE k.op = "invoke" -> V(st, If(~\E n \in k.ns : st.w[n].killed /\ ~st.w[n].done, {"C25"}), "Invoke blocked")
                [] k.op = "add" -> V(st, If(~\E n \in k.ns : st.w[n].killed /\ ~st.w[n].done, {"C25"}), "Add blocked")
                [] k.op = "kill" -> V(st, {"C24"}, "Kill blocked")
                [] k.op = "wait" -> V(st, If(should, {"C22"}), "Wait blocked although everything has finished")
              : c \in Range(e.pend) \cap DOMAIN st.calls}
            \cup V(st, If(e.dead /\ Len(e.pend) = 0 /\ e.left > 0, {"C32"}), "goroutines of the dead catacomb remain")
            \cup V(st, If(e.all > Spare + PerPart * (Cardinality({n \in DOMAIN st.w : ~st.w[n].done}) + Len(e.pend)), {"C32"}), "goroutines of finished workers pile up")
      sv == V(st, If(e.stuck, {"C22", "C23", "C24", "C25", "C26"}), "catacomb blocked")
  IN [st1 EXCEPT !.viol = @ \cup (IF e.stuck THEN sv ELSE av \cup pv), !.may = FALSE, !.dyQ = Dy(st),
                 !.final = IF ~st.dead /\ e.dead THEN e.obs ELSE @, !.dead = @ \/ e.dead]

---------------------------------------------------------------------------
Step(st0, e) ==
  LET st == [st0 EXCEPT !.pos = @ + 1] IN
  CASE e.k = "call" -> OnCall(st, e)
    [] e.k = "ret" -> OnRet(st, e)
    [] e.k = "workIn" -> OnWorkIn(st, e)
    [] e.k = "workOut" -> OnWorkOut(st, e)
    [] e.k = "kill" -> OnKillW(st, e)
    [] e.k = "ukill" -> [st EXCEPT !.w = Set(@, e.n, [W(st, e.n) EXCEPT !.user = TRUE])]
    [] e.k = "exit" -> OnExit(st, e)
    [] e.k = "ctx" -> [st EXCEPT !.ctx = Set(@, e.x, [canc |-> FALSE]),
                                 !.viol = @ \cup V(st, If(~e.val, {"C26"}), "context does not derive from its parent")]
    [] e.k = "pcancel" -> [st EXCEPT !.ctx = Set(@, e.x, [canc |-> TRUE])]
    [] e.k = "q" -> OnQ(st, e)
    [] OTHER -> st
=============================================================================
