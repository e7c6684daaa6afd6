--------------------------- MODULE HelperContract ---------------------------
(***************************************************************************)
(* The contract of worker.Stop and worker.Dead (C27), of the workers and   *)
(* check helpers of package workertest (C28) and of the stub getter of     *)
(* dependency/testing (C30).                                               *)
(*                                                                         *)
(* A worker is of kind "lab" (it ends when an exit event says so), "error" *)
(* (ends once killed), "dead" (has ended from the start) or "forever" (only*)
(* ReallyKill, event rkill, ends it).  kcall: Kill was called on worker n. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
HInit == [pos |-> 0, w |-> NoFun, calls |-> NoFun, chans |-> NoFun, viol |-> {}]
If(b, s) == IF b THEN s ELSE {}
V(st, ps, rule) == {<<p, rule, st.pos>> : p \in ps}
Set(f, k, v) == (k :> v) @@ f
Range(s) == {s[i] : i \in 1..Len(s)}

Second == 1000000
MinTimeout == 5 * Second      \* a worker may take that long to finish
MaxTimeout == 60 * Second     \* a helper does not wait longer than that
Slack == 5000                 \* microseconds

\* The worker has ended, or may end at any moment from now on.
Over(r) == r.done
End(r, at) == [r EXCEPT !.done = TRUE, !.at = IF r.done THEN r.at ELSE at]

OnNew(st, e) ==
  [st EXCEPT !.w = Set(@, e.n, [kind |-> e.kind, err |-> e.err, done |-> e.kind = "dead", at |-> 0, kpos |-> 0, used |-> e.kind # "lab"])]

OnKcall(st, e) ==
  LET r == [st.w[e.n] EXCEPT !.kpos = st.pos] IN
  [st EXCEPT !.w = Set(@, e.n, IF r.kind = "error" THEN End(r, e.at) ELSE r)]

OnRkill(st, e) == [st EXCEPT !.w = Set(@, e.n, End(st.w[e.n], e.at))]
OnExit(st, e) == [st EXCEPT !.w = Set(@, e.n, [End(st.w[e.n], e.at) EXCEPT !.err = e.err])]

\* Someone may be waiting for worker n from now on. (A worker of workertest may have goroutines of its own.)
Used(st, n) == IF n = 0 THEN st ELSE [st EXCEPT !.w[n].used = TRUE]

OnCall(st, e) ==
  [Used(st, e.n) EXCEPT !.calls = Set(@, e.c, [op |-> e.op, n |-> e.n, pos |-> st.pos, at |-> e.at])]

OnRet(st, e) ==
  LET k == st.calls[e.c]
      nobody == k.n = 0
      r == IF nobody THEN [kind |-> "none", err |-> "nil", done |-> FALSE, at |-> 0, kpos |-> 0] ELSE st.w[k.n]
      took == e.at - k.at
      \* It cannot be seen whether it ended just before or just after the helper gave up.
      close == r.done /\ r.at + Slack >= e.at
      late == (~r.done \/ close) /\ took >= MinTimeout /\ took <= MaxTimeout
      kills == k.op \in {"stop", "checkkill", "clean", "dirty", "nilor"} /\ ~nobody
      P == IF k.op = "stop" THEN {"C27"} ELSE {"C28"}
      bad ==
        CASE nobody -> V(st, If(e.failed, P), "failed although there is no worker")
          [] k.op \in {"stop", "wait"} ->
               V(st, If(~r.done, P), "returned before the worker had finished")
               \cup V(st, If(r.done /\ e.err # r.err, P), "wrong error")
          [] k.op = "alive" ->
               V(st, If(e.failed /\ ~r.done, P), "failed although the worker is alive")
               \cup V(st, If(~e.failed /\ r.done /\ ~close, P), "passed although the worker has finished")
               \cup V(st, If(~e.failed /\ took = 0, P), "passed without watching the worker")
          [] k.op \in {"killed", "checkkill"} ->
               V(st, If(~e.failed /\ ~r.done, P), "passed although the worker has not finished")
               \cup V(st, If(~e.failed /\ r.done /\ e.err # r.err, P), "wrong error")
               \cup V(st, If(e.failed /\ ~late, P), "failed although the worker has finished")
               \cup V(st, If(e.failed /\ e.err = "nil", P), "timed out without error")
          [] k.op = "clean" ->
               V(st, If(~e.failed /\ (~r.done \/ r.err # "nil"), P), "passed although the worker did not end cleanly")
               \cup V(st, If(e.failed /\ ~late /\ ~(r.done /\ r.err # "nil"), P), "failed although the worker ended cleanly")
          [] k.op = "dirty" ->
               V(st, If(~e.failed /\ ~r.done, P), "passed although the worker has not finished")
               \cup V(st, If(e.failed /\ ~late, P), "failed although the worker has finished")
          [] k.op = "nilor" ->
               V(st, If(~e.failed, P), "passed although there is a worker")
               \cup V(st, If(~r.done /\ ~late, P), "returned before the worker had finished")
  IN [st EXCEPT !.viol = @ \cup bad \cup V(st, If(kills /\ r.kpos < k.pos, P), "the worker was not killed"),
                !.calls = [c \in DOMAIN @ \ {e.c} |-> @[c]]]

OnQ(st, e) ==
  LET cl == Range(e.closed)
      pv == UNION {
              LET k == st.calls[c]
                  P == IF k.op = "stop" THEN {"C27"} ELSE {"C28"}
                  over == k.n # 0 /\ st.w[k.n].done
                  timed == k.op \notin {"stop", "wait"}
              IN V(st, If(k.n = 0 \/ over, P), "blocked although the worker has finished")
                 \cup V(st, If(timed /\ e.at > k.at + MaxTimeout, P), "helper blocked")
              : c \in Range(e.pend) \cap DOMAIN st.calls}
      cv == UNION {
              LET r == st.w[st.chans[x].n] IN
              IF st.chans[x].own THEN {} ELSE
                V(st, If(x \in cl /\ ~r.done, {"C27"}), "Dead closed while the worker is running")
                \cup V(st, If(x \notin cl /\ r.done, {"C27"}), "Dead not closed although the worker has finished")
              : x \in DOMAIN st.chans}
      lv == V(st, If((\A n \in DOMAIN st.w : st.w[n].done \/ ~st.w[n].used) /\ Len(e.pend) = 0 /\ e.left > 0, {"C32"}), "goroutines of finished workers remain")
  IN [st EXCEPT !.viol = @ \cup pv \cup cv \cup lv]

OnDch(st, e) ==
  [Used(st, e.n) EXCEPT !.chans = Set(@, e.x, [n |-> e.n, own |-> e.own]),
             !.viol = @ \cup V(st, If(e.own /\ ~e.same, {"C27"}), "the worker's own Dead channel is not used")]

Min(a, b) == IF a < b THEN a ELSE b
OnWatch(st, e) ==
  LET ok == e.pre <= e.cap
      free == e.cap - (e.pre - e.took)
  IN [st EXCEPT !.viol = @
       \cup V(st, If(e.panic # ~ok, {"C28"}), "fake watcher: wrong panic")
       \cup V(st, If(ok /\ ~e.panic /\ (e.got + e.took # e.pre + e.pings), {"C28"}), "fake watcher: wrong number of changes")
       \cup V(st, If(ok /\ ~e.panic /\ (e.blocked # (IF e.pings > free THEN e.pings - free ELSE 0)), {"C28"}), "fake watcher: Ping blocks at the wrong time")
       \cup V(st, If(ok /\ ~e.panic /\ ~e.closed, {"C28"}), "fake watcher: not closed")
       \cup V(st, If(ok /\ ~e.panic /\ (e.stop # "nil" \/ e.err # "err" \/ e.wait # "nil"), {"C28"}), "fake watcher: wrong error")]

OnGet(st, e) ==
  LET n == Len(e.conv)
      usable == {i \in 1..n : e.conv[i]}
      first == CHOOSE i \in usable : \A j \in usable : i <= j
      want == CASE ~e.found -> "err"
                [] e.cerr -> "same"
                [] e.ptr = "nil" -> "ok"
                [] e.ptr = "non" -> "err"
                [] usable = {} -> "err"
                [] OTHER -> "ok"
      sets == want = "ok" /\ e.ptr = "ptr"
      \* A nil output is reached before one that can be converted.
      niltried == e.ptr = "ptr" /\ e.found /\ ~e.cerr /\ \E i \in 1..n : e.nils[i] /\ \A j \in 1..i : ~e.conv[j]
  IN [st EXCEPT !.viol = @ \cup
       IF niltried /\ e.res = "panic" THEN V(st, {"C30"}, "stub getter: panics on a nil output") ELSE
       V(st, If(e.res # want, {"C30"}), "stub getter: wrong result")
       \cup V(st, If(sets /\ e.res = "ok" /\ first \notin Range(e.set), {"C30"}), "stub getter: wrong output")
       \cup V(st, If(~sets /\ e.touched, {"C30"}), "stub getter: output set although Get failed")]

Step(st0, e) ==
  LET st == [st0 EXCEPT !.pos = @ + 1] IN
  CASE e.k = "new" -> OnNew(st, e)
    [] e.k = "kcall" -> OnKcall(st, e)
    [] e.k = "rkill" -> OnRkill(st, e)
    [] e.k = "exit" -> OnExit(st, e)
    [] e.k = "call" -> OnCall(st, e)
    [] e.k = "ret" -> OnRet(st, e)
    [] e.k = "dch" -> OnDch(st, e)
    [] e.k = "watch" -> OnWatch(st, e)
    [] e.k = "get" -> OnGet(st, e)
    [] e.k = "q" -> OnQ(st, e)
    [] OTHER -> st
=============================================================================
