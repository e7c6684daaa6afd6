--------------------------- MODULE RunnerContract ---------------------------
(***************************************************************************)
(* The contract of worker.Runner, as an observer of the events that are    *)
(* visible through its public API.  Step(st, e) consumes one event; every  *)
(* breach of a property Cxx adds <<"Cxx", rule, position>> to st.viol.     *)
(*                                                                         *)
(* Events (field k):                                                       *)
(*   cfg                 delay (us), more (MoreImportant compares ranks)   *)
(*   call / ret          API call c: op, id; result res, err, n            *)
(*   startIn / startOut  the start function given to call c is entered     *)
(*                       (instance n) / leaves with out, err, cls          *)
(*   kill / exit         worker n is told to stop / has finished           *)
(*   abort / cancel      the environment aborts call c / cancels its ctx   *)
(*   q                   the system has come to rest: names, rep, pend,    *)
(*                       ctxc (executing start calls with cancelled ctx)   *)
(*                                                                         *)
(* An "incarnation" is a successful StartWorker call; it lasts until its   *)
(* id is removed.  Facts marked Def are certain; Maybe facts depend on the *)
(* order in which overlapping calls took effect.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slack == 1000   \* us within which everything that is due happens

\* How many goroutines a living runner may have at rest: at most PerPart for
\* each id and each pending call, and Spare of its own.  (A lookup that gives
\* up because the runner is dying leaves one until the runner has finished.)
Spare == 4
PerPart == 3

NoFun == [x \in {} |-> 0]

CInit == [pos |-> 0, delay |-> 0, more |-> FALSE,
          calls |-> NoFun, inc |-> NoFun, inst |-> NoFun,
          dyM |-> FALSE, dyF |-> FALSE, dyQ |-> FALSE, dyK |-> FALSE, waitRet |-> FALSE,
          fat |-> {}, gx |-> FALSE, seg |-> 0, qpos |-> 0, viol |-> {}]

If(b, s) == IF b THEN s ELSE {}
V(st, ps, rule) == {<<p, rule, st.pos>> : p \in ps}

Set(f, k, v) == (k :> v) @@ f

IncsOf(st, id) == {c \in DOMAIN st.inc : st.inc[c].id = id}
LiveIncs(st, id) == {c \in IncsOf(st, id) : ~st.inc[c].gone}
Busy(st) == {c \in DOMAIN st.inc : st.inc[c].ph \in {"open", "live"}}
PendingOn(st, id, ops) == {c \in DOMAIN st.calls : st.calls[c].pend /\ st.calls[c].op \in ops /\ st.calls[c].id = id}

\* The id of incarnation c is certainly known now, and has been since its creation.
CertainlyKnown(st, c) ==
  LET r == st.inc[c] IN
  /\ ~r.gone
  /\ \/ r.ph \in {"open", "live"}
     \/ r.ph = "wait" /\ ~st.dyM /\ ~r.stopM /\ ~r.remM
     \/ r.ph = "ended" /\ r.cls = "restart" /\ ~r.stopM /\ ~r.remM /\ ~st.dyM

NewInc(st, c, id, ph, n) ==
  [id |-> id, ph |-> ph, n |-> n, pos |-> st.pos, inPos |-> st.pos, killed |-> FALSE,
   cls |-> "-", endAt |-> 0, endPos |-> 0,
   stopM |-> st.calls[c].stopM, remM |-> st.calls[c].remM, stopD |-> FALSE, budget |-> 1,
   removed |-> FALSE, gone |-> FALSE, re |-> FALSE, gx |-> FALSE]

\* What says that the Goexit of a start function is an error like any other.
GxP(r) == If(r.gx, {"C34"})

DyProps(st) == {"C06"} \cup If(st.dyF, {"C05"}) \cup If(st.gx, {"C34"})

---------------------------------------------------------------------------
OnCall(st, e) ==
  LET id == e.id
      others == {c \in PendingOn(st, id, {"start"}) : c # e.c}
      rec == [op |-> e.op, id |-> id, pend |-> TRUE, res |-> "-", pos |-> st.pos, ab |-> FALSE, found |-> 0, rpos |-> 0, canc |-> FALSE,
              exOK |-> LiveIncs(st, id) # {} \/ others # {},
              stopM |-> PendingOn(st, id, {"stop"}) # {},
              remM |-> PendingOn(st, id, {"remove"}) # {},
              acc |-> LiveIncs(st, id), dyQ |-> st.dyQ, aft |-> st.waitRet, dy |-> st.dyQ \/ st.dyK \/ st.waitRet,
              old |-> {n \in DOMAIN st.inst : st.inst[n].deadQ}, qpos |-> st.qpos]
      calls1 == [c \in DOMAIN st.calls |->
                  IF st.calls[c].pend /\ st.calls[c].op = "start" /\ st.calls[c].id = id
                  THEN [st.calls[c] EXCEPT !.exOK = @ \/ e.op = "start",
                                           !.stopM = @ \/ e.op = "stop",
                                           !.remM = @ \/ e.op = "remove"]
                  ELSE st.calls[c]]
      inc1 == [c \in DOMAIN st.inc |->
                IF st.inc[c].id = id /\ ~st.inc[c].gone /\ e.op \in {"stop", "remove"}
                THEN [st.inc[c] EXCEPT !.stopM = @ \/ e.op = "stop", !.remM = @ \/ e.op = "remove"]
                ELSE st.inc[c]]
  IN [st EXCEPT !.calls = Set(calls1, e.c, rec), !.inc = inc1,
                !.dyM = @ \/ e.op = "kill"]

---------------------------------------------------------------------------
OnStartIn(st, e) ==
  LET known == e.c \in DOMAIN st.inc
      r == IF known THEN st.inc[e.c] ELSE NewInc(st, e.c, e.id, "wait", e.n)
      call == st.calls[e.c]
      v ==
        V(st, If(\E c \in IncsOf(st, e.id) : st.inc[c].ph \in {"open", "live"}, {"C01"}), "second instance started")
        \cup V(st, If(~call.pend /\ call.res # "ok", {"C08"}), "start function of a refused StartWorker called")
        \cup V(st, If(call.dyQ, {"C08"}), "StartWorker during shutdown called the start function")
        \cup V(st, If(st.dyQ, DyProps(st)), "start function called during shutdown")
        \cup V(st, If(st.waitRet, {"C06"}), "start function called after Wait returned")
        \cup V(st, If(~e.lab, {"C33"}), "start function called without its own profile labels")
        \cup V(st, If(~e.val, {"C33"}), "start function called without the values of the caller's context")
        \cup (IF r.ph # "ended" THEN {} ELSE
           V(st, If(r.cls = "fatal", {"C05"} \cup GxP(r)), "restarted after a fatal error")
           \cup V(st, If(r.cls \in {"nil", "norestart"}, {"C04"} \cup GxP(r)), "finished worker started again")
           \cup V(st, If(r.cls = "restart" /\ e.at + 1 < r.endAt + st.delay, {"C03"} \cup GxP(r)), "restarted before the delay passed")
           \cup V(st, If(r.stopD /\ r.budget = 0, {"C02"}), "restarted after StopWorker")
           \cup V(st, If(r.killed /\ r.stopM /\ ~r.remM, {"C02"}), "stopped worker restarted")
           \cup V(st, If(r.killed /\ r.remM, {"C10"}), "removed worker restarted")
           \cup V(st, If(r.removed, {"C10"}), "restarted after StopAndRemoveWorker returned")
           \cup V(st, If(r.gone, {"C04", "C11"}), "start function of a removed id called"))
      r1 == [r EXCEPT !.ph = "open", !.gx = FALSE, !.n = e.n, !.killed = FALSE, !.inPos = st.pos, !.re = (r.ph = "ended"),
                      !.budget = IF r.ph = "ended" /\ r.stopD THEN 0 ELSE @]
  IN [st EXCEPT !.inc = Set(st.inc, e.c, r1),
                !.inst = Set(st.inst, e.n, [c |-> e.c, id |-> e.id, over |-> FALSE, err |-> "-", endPos |-> 0, deadQ |-> FALSE, inAt |-> e.at, outAt |-> 0]),
                !.viol = @ \cup v]

\* The start call or worker n has ended.
OnEnd(st, e) ==
  LET c == st.inst[e.n].c
      fatal == e.cls = "fatal"
      cur == st.inc[c].n = e.n
      gx == e.k = "startOut" /\ e.out = "goexit"
  IN [st EXCEPT !.inc = IF cur THEN [@ EXCEPT ![c].gx = gx, ![c].ph = "ended", ![c].cls = e.cls, ![c].endAt = e.at, ![c].endPos = st.pos] ELSE @,
                !.inst = [@ EXCEPT ![e.n].over = TRUE, ![e.n].err = e.err, ![e.n].endPos = st.pos],
                !.fat = IF fatal THEN @ \cup {[err |-> e.err, rank |-> e.rank, seg |-> st.seg]} ELSE @,
                !.gx = @ \/ gx,
                !.dyM = @ \/ fatal, !.dyF = @ \/ fatal]

OnStartOut(st, e) ==
  IF e.out = "ok" THEN [st EXCEPT !.inc = [@ EXCEPT ![e.c].ph = IF @ = "open" THEN "live" ELSE @], !.inst = [@ EXCEPT ![e.n].outAt = e.at]]
  ELSE OnEnd(st, e)

OnKill(st, e) ==
  LET c == st.inst[e.n].c
      r == st.inc[c]
  IN [st EXCEPT !.inc = IF r.n = e.n THEN [@ EXCEPT ![c].killed = TRUE] ELSE @,
                !.viol = @ \cup V(st, If(~(r.stopM \/ r.remM \/ st.dyM), {"C04"}), "worker killed without reason")]

---------------------------------------------------------------------------
RetStart(st, e) ==
  LET call == st.calls[e.c]
      others == {c \in IncsOf(st, e.id) : c # e.c /\ ~st.inc[c].gone}
      v == CASE e.res = "ok" ->
                  V(st, If(~st.dyM /\ \E c \in others : st.inc[c].inPos < call.pos /\ st.inc[c].ph \in {"open", "live"}, {"C08"}),
                        "StartWorker accepted an id with a worker")
                  \cup V(st, If(~st.dyM /\ \E c \in others : CertainlyKnown(st, c) /\ st.inc[c].ph = "ended" /\ st.inc[c].endPos < call.pos, {"C08"}),
                        "StartWorker accepted an id waiting for its restart")
                  \cup V(st, If(call.aft, {"C08"}), "StartWorker accepted by a finished runner")
             [] e.res = "exists" -> V(st, If(~call.exOK, {"C08"}), "AlreadyExists for an unknown id")
                  \cup V(st, If(call.aft, {"C08"}), "AlreadyExists from a finished runner")
             [] e.res = "dead" -> V(st, If(~st.dyM /\ ~call.canc, {"C08"}), "ErrDead from a live runner")
             [] OTHER -> V(st, {"C08"}, "unexpected StartWorker result")
  IN [st EXCEPT !.viol = @ \cup v,
                !.inc = IF e.res = "ok" /\ e.c \notin DOMAIN @ THEN Set(@, e.c, NewInc(st, e.c, e.id, "wait", 0)) ELSE @]

RetStop(st, e) ==
  LET call == st.calls[e.c]
      v == V(st, If(e.res = "dead" /\ ~st.dyM, {"C02"}), "ErrDead from a live runner")
           \cup V(st, If(e.res # "dead" /\ call.aft, {"C02"}), "StopWorker accepted by a finished runner")
           \cup V(st, If(e.res \notin {"ok", "dead"}, {"C02"}), "unexpected StopWorker result")
      upd(c) == LET r == st.inc[c] IN
                IF e.res = "ok" /\ c \in call.acc /\ ~r.gone
                THEN [r EXCEPT !.stopD = TRUE, !.budget = IF r.ph \in {"open", "live"} THEN 0 ELSE @]
                ELSE r
  IN [st EXCEPT !.viol = @ \cup v, !.inc = [c \in DOMAIN @ |-> upd(c)]]

NotFoundViol(st, e, p) ==
  LET call == st.calls[e.c] IN
  V(st, If(\E c \in IncsOf(st, e.id) : st.inc[c].pos < call.pos /\ CertainlyKnown(st, c), {p}), "NotFound for a known id")
  \cup V(st, If(call.dy, {p}), "NotFound instead of ErrDead")

RetWorker(st, e) ==
  LET call == st.calls[e.c]
      v == CASE e.res = "ok" ->
                  IF e.n \notin DOMAIN st.inst THEN V(st, {"C09"}, "Worker returned no worker")
                  ELSE V(st, If(st.inst[e.n].id # e.id, {"C09"}), "Worker returned another id's worker")
                       \cup V(st, If(e.n \in call.old, {"C09"}), "Worker returned a stale worker")
             [] e.res = "notfound" -> NotFoundViol(st, e, "C09")
             [] e.res = "dead" -> V(st, If(~st.dyM, {"C09"}), "ErrDead from a live runner")
             [] e.res = "aborted" -> V(st, If(~call.ab, {"C09"}), "ErrAborted without abort")
             [] OTHER -> V(st, {"C09"}, "unexpected Worker result")
  IN [st EXCEPT !.viol = @ \cup v]

RetRemove(st, e) ==
  LET call == st.calls[e.c]
      cand == {n \in DOMAIN st.inst : /\ st.inst[n].id = e.id /\ st.inst[n].over
                                      /\ st.inst[n].err = e.err /\ st.inst[n].endPos > call.qpos}
      incs == {st.inst[n].c : n \in cand}
      v == CASE e.res = "ok" ->
                  V(st, If(cand = {}, {"C10"}), "returned an error that is not the worker's")
                  \cup V(st, If(cand # {} /\ \A c \in incs : st.inc[c].ph # "ended", {"C10"}), "returned before the worker finished")
                  \cup V(st, If(cand # {} /\ \A c \in incs : CertainlyKnown(st, c), {"C10"}), "returned before the id was removed")
             [] e.res = "notfound" -> NotFoundViol(st, e, "C10")
             [] e.res = "dead" -> V(st, If(~st.dyM, {"C10"}), "ErrDead from a live runner")
             [] e.res = "aborted" -> V(st, If(~call.ab, {"C10"}), "ErrAborted without abort")
             [] OTHER -> V(st, {"C10"}, "unexpected StopAndRemoveWorker result")
      w == IF call.found = 0 THEN {} ELSE
             V(st, If(e.res \notin {"ok", "aborted"}, {"C10"}), "the worker was stopped but its error is not returned")
  IN [st EXCEPT !.viol = @ \cup v \cup w,
                !.inc = [c \in DOMAIN @ |-> IF e.res = "ok" /\ incs = {c} THEN [@[c] EXCEPT !.removed = TRUE] ELSE @[c]]]

RetWait(st, e) ==
  LET ranks == {f.rank : f \in st.fat}
      segs == {f.seg : f \in st.fat}
      ok == IF st.fat = {} THEN {"nil"}
            ELSE IF st.more THEN {f.err : f \in {g \in st.fat : \A r \in ranks : g.rank >= r}}
            ELSE {f.err : f \in {g \in st.fat : \A s \in segs : g.seg <= s}}
      v == V(st, If(Busy(st) # {}, {"C06"}), "Wait returned while a worker or start call was active")
           \cup V(st, If(~st.dyM, {"C06"}), "Wait returned from a live runner")
           \cup V(st, If(e.err \notin ok, {"C07"} \cup If(st.gx /\ ("?" \in ok \/ e.err = "?"), {"C34"})), "wrong error from Wait")
  IN [st EXCEPT !.viol = @ \cup v, !.waitRet = TRUE]

OnRet(st0, e) ==
  LET st == [st0 EXCEPT !.calls = [@ EXCEPT ![e.c].pend = FALSE, ![e.c].res = e.res, ![e.c].rpos = st0.pos]]
  IN CASE e.op = "start" -> RetStart(st, e)
       [] e.op = "stop" -> RetStop(st, e)
       [] e.op = "worker" -> RetWorker(st, e)
       [] e.op = "remove" -> RetRemove(st, e)
       [] e.op = "wait" -> RetWait(st, e)
       [] e.op = "kill" -> [st EXCEPT !.dyK = TRUE]
       [] OTHER -> st

---------------------------------------------------------------------------
\* What is known about incarnation c at rest: "known", "gone" or "either".
AtRest(st, e, c) ==
  LET r == st.inc[c] IN
  CASE r.gone -> "gone"
    [] r.ph \in {"open", "live"} -> "known"
    [] r.ph = "wait" -> IF st.dyM \/ r.stopM \/ r.remM THEN "gone" ELSE "known"
    [] r.cls \in {"nil", "norestart", "fatal"} -> "gone"
    [] st.dyM \/ r.removed \/ (r.stopD /\ r.budget = 0) \/ (r.killed /\ (r.stopM \/ r.remM)) -> "gone"
    [] ~r.stopM /\ ~r.remM -> "known"
    [] e.at >= r.endAt + st.delay + Slack -> "gone"
    [] OTHER -> "either"

\* Which properties say that incarnation c ought to be gone / known.
GoneProps(st, c) ==
  LET r == st.inc[c] IN
  {"C11"} \cup If(r.ph = "ended" /\ r.cls \in {"nil", "norestart"}, {"C04"}) \cup If(r.ph = "ended", GxP(r))
          \cup If(r.stopM, {"C02"}) \cup If(r.removed \/ r.remM, {"C10"})
          \cup If(st.dyM, DyProps(st))
KnownProps(st, c) ==
  LET r == st.inc[c] IN
  {"C11"} \cup If(r.ph = "ended", {"C03"} \cup GxP(r)) \cup If(r.ph \in {"wait", "open", "live"}, {"C08"})

OnQ(st, e) ==
  LET names == {e.names[i] : i \in 1..Len(e.names)}
      rep == {e.rep[i] : i \in 1..Len(e.rep)}
      pend == {e.pend[i] : i \in 1..Len(e.pend)}
      ctxc == {e.ctxc[i] : i \in 1..Len(e.ctxc)}
      I == {c \in DOMAIN st.inc : ~st.inc[c].gone}
      rest == [c \in I |-> AtRest(st, e, c)]
      must == {c \in I : rest[c] = "known"}
      may == {c \in I : rest[c] # "gone"}
      goneNow == {c \in I : rest[c] = "gone" \/ (rest[c] = "either" /\ st.inc[c].id \notin names)}
      left == I \ goneNow
      avail(id) == {c \in left : st.inc[c].id = id /\ st.inc[c].ph = "live" /\ ~st.inc[c].killed}
      of(id) == {c \in left : st.inc[c].id = id}
      \* The call that stopped the worker of incarnation d, if it is certain.
      finder(d) ==
        LET r == st.inc[d]
            rs == {c \in DOMAIN st.calls : st.calls[c].op = "remove" /\ st.calls[c].id = r.id /\ (st.calls[c].pend \/ st.calls[c].rpos > r.pos)}
        IN IF r.ph = "live" /\ r.killed /\ ~r.stopM /\ ~st.dyM /\ of(r.id) = {d} THEN rs ELSE {}
      stoppers == [c \in pend \cap DOMAIN st.calls |->
        LET k == st.calls[c]
            ds == {d \in of(k.id) : finder(d) = {c}}
        IN IF k.op = "remove" /\ ~k.ab /\ k.found = 0 /\ ds # {} THEN st.inc[CHOOSE d \in ds : TRUE].n ELSE k.found]
      lv == UNION {
        LET r == st.inc[c] IN
        V(st, If(r.ph = "live" /\ ~r.killed /\ st.dyM, DyProps(st)), "worker not killed at shutdown")
        \cup V(st, If(r.ph = "live" /\ ~r.killed /\ r.stopD, {"C02"}), "worker not killed after StopWorker")
        \cup V(st, If(r.ph = "wait" /\ rest[c] = "known", {"C08"}), "start function not called promptly")
        \cup V(st, If(r.ph = "ended" /\ rest[c] = "known" /\ e.at >= r.endAt + st.delay + Slack, {"C03"} \cup GxP(r)), "not restarted after the delay")
        \cup V(st, If(r.ph = "open" /\ st.dyM /\ r.n \notin ctxc, DyProps(st)), "context of a start call not cancelled at shutdown")
        \cup V(st, If(r.ph = "open" /\ ~st.dyM /\ r.n \in ctxc /\ (r.re \/ ~st.calls[c].canc), {"C06"} \cup If(r.re, {"C03"})), "context of a start call cancelled without reason")
        \cup V(st, If(rest[c] = "known" /\ r.id \notin names, KnownProps(st, c)), "known id missing from WorkerNames")
        : c \in I}
      nv == UNION {
        LET cs == {c \in IncsOf(st, id) : c \in I} IN
        IF \E c \in cs : rest[c] # "gone" THEN {}
        ELSE V(st, {"C11"} \cup UNION {GoneProps(st, c) : c \in cs}, "unknown id in WorkerNames")
        : id \in names}
      rv == UNION {
        LET cur == avail(x.id)
            ns == {st.inc[c].n : c \in of(x.id)} IN
        V(st, If((x.st = "started") # (cur # {}), {"C11"}), "Report shows the wrong state")
        \cup V(st, If(x.n # 0 /\ x.n \notin ns, {"C11"}), "Report shows another worker's report")
        \cup V(st, If(x.n = 0 /\ \E n \in {st.inc[c].n : c \in cur} : n % 3 # 0, {"C11"}), "Report lacks the worker's report")
        \* The time shown is cut to whole seconds.
        \cup V(st, If(\E c \in cur : LET i == st.inst[st.inc[c].n] IN x.ls > i.outAt + Slack \/ x.ls + 1000000 <= i.inAt, {"C11"}),
               "Report shows the wrong time of the last start")
        : x \in rep}
        \cup V(st, If({x.id : x \in rep} # names, {"C11"}), "Report and WorkerNames differ")
      pv == UNION {
        LET k == st.calls[c]
            id == k.id IN
        CASE k.op = "start" -> V(st, {"C08"}, "StartWorker blocked")
          [] k.op = "stop" -> V(st, {"C02"}, "StopWorker blocked")
          [] k.op = "kill" -> V(st, {"C06"}, "Kill blocked")
          [] k.op = "wait" -> V(st, If(st.dyM /\ Busy(st) = {}, DyProps(st)), "Wait blocked although everything has finished")
          [] k.op = "worker" -> V(st, If(st.dyM \/ k.ab \/ of(id) = {} \/ avail(id) # {}, {"C09"}), "Worker blocked")
          [] k.op = "remove" ->
               V(st, If(k.ab \/ of(id) = {}, {"C10"}), "StopAndRemoveWorker blocked")
               \cup V(st, If(st.dyM /\ \A d \in of(id) : st.inc[d].ph \notin {"open", "live"}, {"C10"}), "StopAndRemoveWorker blocked at shutdown")
               \cup V(st, If(avail(id) # {}, {"C10"}), "StopAndRemoveWorker did not kill the worker")
          [] OTHER -> {}
        : c \in pend \cap DOMAIN st.calls}
        \cup V(st, If(st.waitRet /\ pend = {} /\ e.left > 0, {"C32"}), "goroutines of the finished runner remain")
        \cup V(st, If(~st.dyM /\ e.all > Spare + PerPart * (Cardinality(left) + Cardinality(pend)), {"C32"}), "goroutines of finished workers and calls pile up")
      sv == V(st, If(e.stuck, {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11"}), "Report or WorkerNames blocked")
  IN [st EXCEPT !.viol = @ \cup (IF e.stuck THEN sv ELSE lv \cup nv \cup rv \cup pv),
                !.inc = [c \in DOMAIN @ |-> IF c \in goneNow THEN [@[c] EXCEPT !.gone = TRUE] ELSE @[c]],
                !.inst = [n \in DOMAIN @ |-> IF @[n].over \/ (st.inc[@[n].c].n = n /\ st.inc[@[n].c].killed)
                                              THEN [@[n] EXCEPT !.deadQ = TRUE] ELSE @[n]],
                !.calls = [c \in DOMAIN @ |-> IF c \in pend THEN [@[c] EXCEPT !.found = stoppers[c]] ELSE @[c]],
                !.dyQ = st.dyM, !.seg = @ + 1, !.qpos = st.pos]

---------------------------------------------------------------------------
Step(st0, e) ==
  LET st == [st0 EXCEPT !.pos = @ + 1] IN
  CASE e.k = "cfg" -> [st EXCEPT !.delay = e.delay, !.more = e.more]
    [] e.k = "call" -> OnCall(st, e)
    [] e.k = "ret" -> OnRet(st, e)
    [] e.k = "startIn" -> OnStartIn(st, e)
    [] e.k = "startOut" -> OnStartOut(st, e)
    [] e.k = "exit" -> OnEnd(st, e)
    [] e.k = "kill" -> OnKill(st, e)
    [] e.k = "abort" -> [st EXCEPT !.calls = [@ EXCEPT ![e.c].ab = TRUE]]
    [] e.k = "cancel" -> [st EXCEPT !.calls = [@ EXCEPT ![e.c].canc = TRUE]]
    [] e.k = "q" -> OnQ(st, e)
    \* A start function panicked with a known value in a process of its own.
    [] e.k = "crash" -> [st EXCEPT !.viol = @ \cup V(st, If(~e.died, {"C34"}), "the panic of a start function is swallowed")
                                              \cup V(st, If(e.died /\ ~e.said, {"C34"}), "the panic of a start function loses its value")]
=============================================================================
