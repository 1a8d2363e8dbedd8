------------------------------ MODULE Cache ------------------------------
(* The result cache (CachedFunction / cached / npy_cached).                *)
(*                                                                         *)
(* The n-th evaluation of the wrapped function is the only thing that can  *)
(* produce result n, so a result identifies the evaluation it came from.   *)
(* `store` maps a cache path to the result a reader would load, 0 if none. *)
(* One action is one public call, deletion of a cache file by the user, or *)
(* a process dying part-way through saving.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps,   \* length of the histories explored
          Layout,   \* which path belongs to which argument
          Faults,   \* outcomes of an evaluation explored besides "ok"
          Emitting  \* print complete histories for replay on the real code

Args == {"a", "b"}
Modes == {"load_or_call_cached", "load_or_call_uncached",
          "call_cached", "call_uncached"}
Outs == {"ok"} \cup Faults   \* "raise", "unsaveable", "empty"

PathOf(x) ==
  CASE Layout = "perarg" -> x
    [] Layout = "shared" -> "s"
    [] Layout = "nopath" -> "none"
    [] Layout = "mixed"  -> IF x = "a" THEN "a" ELSE "none"
Paths == {PathOf(x) : x \in Args}

VARIABLES store,  \* path -> id of the saved result, 0 = no file
          owner,  \* evaluation id -> argument it was evaluated for
          hist    \* history variable: what was called and what came back
vars == <<store, owner, hist>>

Init == /\ store = [p \in Paths |-> 0]
        /\ owner = <<>>
        /\ hist = <<>>

Loads(m) == m \in {"load_or_call_cached", "load_or_call_uncached"}
Saves(m) == m \in {"load_or_call_cached", "call_cached"}

Hit(m, x) == Loads(m) /\ PathOf(x) # "none" /\ store[PathOf(x)] # 0

Entry(m, x, out, res, val, ev, st) ==
  [op |-> "call", mode |-> m, arg |-> x, out |-> out, res |-> res,
   val |-> val, evaluated |-> ev, after |-> st]

\* A load: no evaluation, the saved result is returned, nothing is written.
CallHit(m, x) ==
  /\ Hit(m, x)
  /\ hist' = Append(hist, Entry(m, x, "ok", "value", store[PathOf(x)], FALSE, store))
  /\ UNCHANGED <<store, owner>>

\* A miss, or a mode that does not load: exactly one evaluation.
CallEval(m, x, out) ==
  /\ ~Hit(m, x)
  /\ LET n == Len(owner) + 1
         tosave == Saves(m) /\ PathOf(x) # "none"
         raises == out = "raise" \/ (out = "unsaveable" /\ tosave)
         st == IF tosave /\ ~raises THEN [store EXCEPT ![PathOf(x)] = n] ELSE store
     IN /\ owner' = Append(owner, x)
        /\ store' = st
        /\ hist' = Append(hist, Entry(m, x, out, IF raises THEN "raise" ELSE "value",
                                      IF raises THEN 0 ELSE n, TRUE, st))

\* The user deletes a cache file.
Delete(p) ==
  /\ p # "none" /\ store[p] # 0
  /\ store' = [store EXCEPT ![p] = 0]
  /\ hist' = Append(hist, [op |-> "delete", path |-> p, after |-> store'])
  /\ UNCHANGED owner

Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E m \in Modes, x \in Args : CallHit(m, x)
     \/ \E m \in Modes, x \in Args, o \in Outs : CallEval(m, x, o)
     \/ \E p \in Paths : Delete(p)

(* A process that dies while saving: it evaluated the function, and what   *)
(* readers of that path load afterwards is what they would have loaded     *)
(* before, or nothing; never a damaged or partial result.  Only used when  *)
(* validating recorded histories.                                          *)
CrashSave(m, x) ==
  /\ Saves(m) /\ ~Hit(m, x) /\ PathOf(x) # "none"
  /\ owner' = Append(owner, x)
  /\ \/ UNCHANGED store
     \/ store' = [store EXCEPT ![PathOf(x)] = 0]
  /\ UNCHANGED hist

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* A saved result was produced by an evaluation for an argument of that path.
StoreSound == \A p \in Paths :
   store[p] # 0 => store[p] <= Len(owner) /\ PathOf(owner[store[p]]) = p
\* Without a path nothing is ever saved.
NoPathNoSave == "none" \in Paths => store["none"] = 0
Last == hist[Len(hist)]
\* A returned result belongs to the path of the argument asked for, and was
\* evaluated for this very argument unless the path is shared.
ResultSound ==
  (hist # <<>> /\ Last.op = "call" /\ Last.res = "value") =>
     /\ PathOf(owner[Last.val]) = PathOf(Last.arg)
     /\ (Layout # "shared" => owner[Last.val] = Last.arg)
\* A fresh-evaluation mode returns the newest evaluation.
FreshIsNew ==
  (hist # <<>> /\ Last.op = "call" /\ Last.res = "value" /\ ~Loads(Last.mode)) =>
     Last.val = Len(owner)
\* After a successful saving call the next loading call returns that result.
SavedIsLoaded ==
  (hist # <<>> /\ Last.op = "call" /\ Last.res = "value" /\ Saves(Last.mode)
     /\ PathOf(Last.arg) # "none") =>
       store[PathOf(Last.arg)] = Last.val
\* Evaluations that fail change nothing a later call can see.
FailureIsInvisible ==
  [][(hist' # hist /\ hist'[Len(hist')].op = "call" /\ hist'[Len(hist')].res = "raise")
       => store' = store]_vars

Emit == (Emitting /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson([layout |-> Layout, hist |-> hist]))
=============================================================================
