----------------------------- MODULE CacheConc -----------------------------
(* Concurrent callers sharing one cache file.  A call is split where other *)
(* callers can run in between: reading the file, evaluating, and saving    *)
(* (which starts, and only later becomes visible as a whole).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Preloaded, Emitting
Modes == {"load_or_call_cached", "call_cached", "load_or_call_uncached"}
Loads(m) == m # "call_cached"
Saves(m) == m # "load_or_call_uncached"

VARIABLES mode, pc, val, store, evals, sched
vars == <<mode, pc, val, store, evals, sched>>

Init == /\ mode \in [Procs -> Modes]
        /\ pc = [p \in Procs |-> "idle"]
        /\ val = [p \in Procs |-> 0]
        /\ store = IF Preloaded THEN 1 ELSE 0
        /\ evals = IF Preloaded THEN 1 ELSE 0
        /\ sched = <<>>

Note(p, s, v, d) == sched' = Append(sched, [p |-> p, step |-> s, val |-> v, done |-> d])

\* the call begins: it either loads a saved result and is done, or enters the function
Begin(p) ==
  /\ pc[p] = "idle" /\ UNCHANGED <<mode, store>>
  /\ IF Loads(mode[p]) /\ store # 0
     THEN /\ pc' = [pc EXCEPT ![p] = "done"] /\ val' = [val EXCEPT ![p] = store]
          /\ UNCHANGED evals /\ Note(p, "begin", store, TRUE)
     ELSE /\ pc' = [pc EXCEPT ![p] = "eval"] /\ evals' = evals + 1
          /\ val' = [val EXCEPT ![p] = evals + 1]
          /\ Note(p, "begin", evals + 1, FALSE)
\* the function returns: an uncached call is done, a cached one starts to save
Evaluated(p) ==
  /\ pc[p] = "eval" /\ UNCHANGED <<mode, store, evals, val>>
  /\ LET n == IF Saves(mode[p]) THEN "saving" ELSE "done" IN
       /\ pc' = [pc EXCEPT ![p] = n] /\ Note(p, "evaluated", val[p], n = "done")
\* the result becomes visible, all at once
Publish(p) ==
  /\ pc[p] = "saving" /\ UNCHANGED <<mode, evals, val>>
  /\ store' = val[p]
  /\ pc' = [pc EXCEPT ![p] = "done"] /\ Note(p, "publish", val[p], TRUE)

Next == \E p \in Procs : Begin(p) \/ Evaluated(p) \/ Publish(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every finished call returned the result of a finished evaluation
Sound == \A p \in Procs : pc[p] = "done" =>
   val[p] \in 1..evals /\ \A q \in Procs : (pc[q] = "eval" /\ q # p) => val[p] # val[q]
StoreWhole == store \in 0..evals /\ \A q \in Procs : pc[q] \in {"eval", "saving"} => store # val[q]
AllDone == \A p \in Procs : pc[p] = "done"
Terminates == <>AllDone
Emit == (Emitting /\ AllDone) => PrintT("@@" \o ToJson([mode |-> mode, pre |-> Preloaded, sched |-> sched, store |-> store]))
=============================================================================
