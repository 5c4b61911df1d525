------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  Runs recorded from the real   *)
(* code are read from the JSON file named by the environment variable      *)
(* TRACE_FILE.  Every run is one behaviour: `tid` picks it in the initial  *)
(* state, `l` is the position in its event sequence.  A verdict is total:  *)
(* an event that the specification does not allow is printed with the      *)
(* names of the violated clauses, and the behaviour continues from the     *)
(* specification's own state.                                              *)
(***************************************************************************)
EXTENDS Linalg, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
NRuns == Len(Runs)

\* verdict: a set of <<clause, detail>>
RECURSIVE PrintAll(_, _, _)
PrintAll(id, l, fails) ==
  IF fails = {} THEN TRUE
  ELSE LET f == CHOOSE x \in fails : TRUE
       IN PrintT(<<"VIOL", id, l, f>>) /\ PrintAll(id, l, fails \ {f})

\* clause c fails unless cond
Need(cond, c) == IF cond THEN {} ELSE {c}
IsId(perm, n) == Len(perm) = n /\ \A i \in 1..n : perm[i] = i
=============================================================================
