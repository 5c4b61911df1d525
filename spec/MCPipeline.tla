----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* Two histories of returns that agree up to `cut` and go on differently   *)
(* (or, how = "truncate", do not go on at all), grown one return at a time *)
(* through the same tool.                                                    *)
(***************************************************************************)
EXTENDS Pipeline, FiniteSets, TLC, Json

CONSTANTS MaxT, Memory, Emit
Vals == {0, 1}

VARIABLES tool, how, cut, xa, xb
vars == <<tool, how, cut, xa, xb>>

Init == /\ tool \in Tools /\ how \in {"truncate", "one", "tail"} /\ cut \in 1..(MaxT - 1) /\ xa = <<>> /\ xb = <<>>

Step == \E a, b \in Vals :
  /\ xa' = Append(xa, a)
  /\ IF Len(xa) < cut THEN a = b /\ xb' = Append(xb, b)
     ELSE CASE how = "truncate" -> b = 0 /\ UNCHANGED xb
            [] how = "one"      -> (Len(xa) = cut <=> a # b) /\ xb' = Append(xb, b)
            [] how = "tail"     -> xb' = Append(xb, b)
Next == /\ Len(xa) < MaxT
        /\ Step
        /\ UNCHANGED <<tool, how, cut>>
        /\ (Emit /\ Len(xa') = MaxT /\ (\A i \in 1..MaxT : xa'[i] = 0) /\ (\A i \in DOMAIN xb' : i = cut + 1 \/ xb'[i] = 0)
              => PrintT(<<"BEH", ToJson([tool |-> tool, how |-> how, cut |-> cut, T |-> MaxT])>>))
Spec == Init /\ [][Next]_vars

Same(a, b, t) ==
  /\ Known(tool, t) <= cut => (At(a, t) = None) = (At(b, t) = None)
  /\ Horizon(tool, t) <= cut /\ At(a, t) # None /\ At(b, t) # None => a[t] = b[t]

C37_NoPeek == LET a == Output(tool, xa, Memory)
                  b == Output(tool, xb, Memory)
              IN \A t \in 1..MaxT : Same(a, b, t)

(* the horizons are not generous: the last return a result may depend on, it does depend on *)
Flip(x, i) == [x EXCEPT ![i] = 1 - @]
Zero == [i \in 1..MaxT |-> 0]
ASSUME Tight == \A w \in Tools : \A t \in 1..MaxT :
  LET h == Horizon(w, t) IN
  h \in 1..MaxT /\ Output(w, Zero, Memory)[t] # None => Output(w, Flip(Zero, h), Memory)[t] # Output(w, Zero, Memory)[t]
ASSUME Never == \A w \in Tools : \A t, i \in 1..MaxT : i > Horizon(w, t) => Output(w, Flip(Zero, i), Memory)[t] = Output(w, Zero, Memory)[t]
(* no tool is silent: each has a result at some time *)
ASSUME Alive == \A w \in Tools : \E t \in 1..MaxT : Output(w, Zero, Memory)[t] # None
(* a result that is there is there as soon as the returns up to Known have come in, and no sooner *)
ASSUME KnownTight == \A w \in Tools : \A t \in 1..MaxT : Output(w, Zero, Memory)[t] # None =>
  LET k == Known(w, t) IN
  /\ k \in 1..MaxT
  /\ At(Output(w, SubSeq(Zero, 1, k), Memory), t) # None
  /\ At(Output(w, SubSeq(Zero, 1, k - 1), Memory), t) = None
(* what is missing stays missing, apart from what is estimated from the whole past *)
Nothing == [i \in 1..MaxT |-> None]
ASSUME Missing == \A st \in {"each", "window", "fit", "score", "hold"} : \A t \in 1..MaxT : Stage(st, Nothing, Zero, t, Memory) = None
=============================================================================
