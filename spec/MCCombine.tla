----------------------------- MODULE MCCombine ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the combination machine over every grid       *)
(* length, window, requested run of times and set of failing solves.  The  *)
(* numbers are chosen so that an entry names the times it came from: the   *)
(* prediction stamped t is (1/t^2) (so its factor is t) and the return at  *)
(* t is 1/7^(t-1), so an entry made at s has d = s-1 and                *)
(* G = ((s-1)/7^(s-1))^2.                                               *)
(***************************************************************************)
EXTENDS Combine, Json

CONSTANTS MaxM

VARIABLES cfg, s, t, out, fails
vars == <<cfg, s, t, out, fails>>

Cfgs == {c \in [M : 2..MaxM, window : 0..(MaxM + 1), lo : 2..MaxM, hi : 2..MaxM] :
           /\ c.lo <= c.hi /\ c.hi <= c.M
           /\ c.window <= c.M + 1}
N(c) == c.M - 1
W(c) == IF c.window = 0 THEN N(c) ELSE IF c.window < N(c) THEN c.window ELSE N(c)

Pred(q) == <<<<<<NDiv(1, q * q)>>>>>>
Ret(q) == <<NDiv(1, 7 ^ (q - 1))>>

Init == /\ cfg \in Cfgs
        /\ s = CSeed /\ t = 0 /\ out = <<>> /\ fails = {}

Wanted(c, q) == c.lo <= q /\ q <= c.hi

Next ==
  /\ t < cfg.M
  /\ t' = t + 1
  /\ LET s2 == CStep(s, W(cfg), Pred(t + 1), <<<<0>>>>, Ret(t + 1))
     IN /\ s' = s2
        /\ IF Full(s2, W(cfg)) /\ Wanted(cfg, t + 1)
           THEN \E ok \in BOOLEAN :
                   /\ out' = Append(out, IF ok THEN t + 1 ELSE 0)
                   /\ fails' = IF ok THEN fails ELSE fails \union {t + 1}
           ELSE UNCHANGED <<out, fails>>
  /\ (t + 1 = cfg.M => PrintT(<<"BEH", ToJson([M |-> cfg.M, window |-> cfg.window, lo |-> cfg.lo, hi |-> cfg.hi,
                                              fails |-> SetToSeq(fails')])>>))
  /\ UNCHANGED cfg

Spec == Init /\ [][Next]_vars

(* what an entry made at time q must look like *)
IsEntry(e, q) == /\ NClose(e.d[1][1], q - 1, "1E-20")
                 /\ NClose(e.G[1][1], NSq(NDiv(q - 1, 7 ^ (q - 1))), NDiv(NSq(NDiv(q - 1, 7 ^ (q - 1))), 1000000))

(* the buffer holds exactly the last W lagged pairs up to now *)
C08_Window ==
  /\ Len(s.buf) = (IF t = 0 THEN 0 ELSE IF t - 1 < W(cfg) THEN t - 1 ELSE W(cfg))
  /\ \A k \in DOMAIN s.buf : IsEntry(s.buf[k], t - Len(s.buf) + k)

(* the factors used for the prediction are today's, not the lagged ones *)
C10_Unlagged == t > 0 => NClose(s.prev[1].L[1][1], t, "1E-20")

(* the stream so far is the full run restricted to the requested times, failing positions blanked *)
FullRun(c) == [k \in 1..(N(c) - W(c) + 1) |-> W(c) + k]
Restricted(c, q) == SelectSeq(FullRun(c), LAMBDA x : Wanted(c, x) /\ x <= q)
C11_Restriction == out = [k \in DOMAIN Restricted(cfg, t) |-> IF Restricted(cfg, t)[k] \in fails THEN 0 ELSE Restricted(cfg, t)[k]]
C12_Positions == \A k \in DOMAIN out : out[k] = 0 \/ out[k] = Restricted(cfg, t)[k]

(* the slices the implementation cuts (zero_index - window + 1, floored at 0, and windows by position) name the same times *)
C11_Slices ==
  LET avail == [k \in 1..N(cfg) |-> k + 1]                    \* grid position of the k-th available time
      z == cfg.lo - 2                                         \* zero based index of the first requested time
      from == IF z - W(cfg) + 1 > 0 THEN z - W(cfg) + 1 ELSE 0
      times == SubSeq(avail, from + 1, cfg.hi - 1)
      solved == [i \in 1..(IF Len(times) >= W(cfg) THEN Len(times) - W(cfg) + 1 ELSE 0) |-> SubSeq(times, i, i + W(cfg) - 1)]
  IN t = cfg.M =>
       /\ Len(solved) = Len(out)
       /\ \A k \in DOMAIN out : /\ solved[k][W(cfg)] = Restricted(cfg, t)[k]
                                /\ \A i \in 1..(W(cfg) - 1) : solved[k][i + 1] = solved[k][i] + 1
=============================================================================
