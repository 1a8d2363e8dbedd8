----------------------------- MODULE CacheNpy -----------------------------
(* npy_cached: the cache restricted to its single mode.                    *)
EXTENDS Cache
NpyNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E x \in Args : CallHit("load_or_call_cached", x)
     \/ \E x \in Args, o \in Outs : CallEval("load_or_call_cached", x, o)
     \/ \E p \in Paths : Delete(p)
NpySpec == Init /\ [][NpyNext]_vars
=============================================================================
