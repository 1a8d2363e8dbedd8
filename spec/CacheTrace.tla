---------------------------- MODULE CacheTrace ----------------------------
(* Validates histories recorded from the real cache against Cache: every   *)
(* recorded call must be a step of the specification.                      *)
EXTENDS Cache, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
tvars == <<store, owner, hist, t, l>>

TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
Ev == Traces[t][l]
Observed == \A p \in Paths : p # "none" => Ev.exists[p] = (store'[p] # 0)

TNext ==
  /\ l <= Len(Traces[t])
  /\ l' = l + 1 /\ t' = t
  /\ \/ /\ Ev.op = "call"
        /\ \/ CallHit(Ev.mode, Ev.arg)
           \/ CallEval(Ev.mode, Ev.arg, Ev.out)
        /\ LET e == hist'[Len(hist')] IN
             /\ e.res = Ev.res
             /\ (e.res = "value" => e.val = Ev.val)
             /\ e.evaluated = Ev.evaluated
     \/ Ev.op = "delete" /\ \/ Delete(Ev.path)
                            \/ store[Ev.path] = 0 /\ UNCHANGED <<store, owner, hist>>
     \/ Ev.op = "crash" /\ CrashSave(Ev.mode, Ev.arg)
     \* nothing to save: the call completes inside the doomed process
     \/ Ev.op = "crash" /\ Hit(Ev.mode, Ev.arg) /\ UNCHANGED <<store, owner, hist>>

Reached == PrintT("@@" \o ToJson([t |-> t, l |-> l - 1]))
=============================================================================
