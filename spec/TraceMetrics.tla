---------------------------- MODULE TraceMetrics ----------------------------
(* Recorded calls of the summary statistics checked against Metrics, one event per row, day, year or line. *)
EXTENDS TraceBase, Metrics

VARIABLES tid, l, st
vars == <<tid, l, st>>
VW == <<tid, l>>
Run == Runs[tid]
T == "1E-9"

Init == /\ tid \in 1..NRuns /\ l = 1
        /\ st = CASE Runs[tid].kind = "turnover" -> ToInit
                  [] Runs[tid].kind = "years" -> YrInit
                  [] Runs[tid].kind = "ecdf" -> <<>>
                  [] Runs[tid].kind = "rho" -> [i \in 1..Runs[tid].n |-> RhoInit]
                  [] OTHER -> 0
        /\ PrintAll(Runs[tid].id, 0, Need(Runs[tid].err = "", "raised") \union
             (IF Runs[tid].err # "" THEN {} ELSE
              CASE Runs[tid].kind = "rho" -> Need(IsId(Runs[tid].il, Len(Runs[tid].ev)) /\ IsId(Runs[tid].cl, Runs[tid].n), "labels")
                [] Runs[tid].kind = "load" -> Need(Runs[tid].stamps = [k \in 1..Len(Runs[tid].ev) |-> k], "stamps")
                [] Runs[tid].kind = "rows" -> Need(Runs[tid].count = Len(Runs[tid].ev), "count")
                [] Runs[tid].kind = "table" -> Need(Runs[tid].lines = Len(Runs[tid].ev), "lines")
                [] OTHER -> {}))

(* what holds after the last event *)
Final(s) ==
  CASE Run.kind = "turnover" -> Need((IF NIsFin(ToVal(s)) THEN NClose(Run.v, ToVal(s), NMul(T, NAdd(1, ToVal(s)))) ELSE (NIsNaN(Run.v) = NIsNaN(ToVal(s)) /\ ~NIsFin(Run.v))), "turnover")
    [] Run.kind = "years" ->
         LET v == YrVal(s, 100)
             pts == SelectSeq(v, LAMBDA x : NIsFin(x.sr))
         IN IF Len(Run.out) # Len(v) \/ \E i \in 1..Len(v) : Run.out[i].year # v[i].year THEN {"years"}
            ELSE UNION {Need(NClose(Run.out[i].sr, v[i].sr, NMul(T, NAdd(1, NAbs(v[i].sr)))), "sharpe") : i \in 1..Len(v)} \union
                 (IF Run.line = <<>> THEN Need(~Run.plot \/ Len(pts) < 2, "trend_missing")
                  ELSE IF Len(pts) < 2 THEN {} ELSE UNION {Need(NClose(Run.line[i].sr, Trend(pts, Run.line[i].year), NMul("1E-6", NAdd(1, NAbs(Run.line[i].sr)))), "trend") : i \in 1..Len(Run.line)})
    [] Run.kind = "ecdf" ->
         LET n == Len(s) IN
         Need(Len(Run.x) = n /\ Len(Run.y) = n, "ecdf_size") \union
         (IF Len(Run.x) # n \/ Len(Run.y) # n THEN {}
          ELSE Need(\A i \in 1..n : NEq(Run.x[i], s[i]), "ecdf_x") \union Need(\A i \in 1..n : NClose(Run.y[i], NDiv(i, n), "1E-14"), "ecdf_y"))
    [] OTHER -> {}

JudgeRow(ev) == LET n == Run.n S == FromRow(ev.row, n)
                IN Need(Len(ev.S) = n /\ (\A i \in 1..n : Len(ev.S[i]) = n) /\ (\A i, j \in 1..n : NEq(ev.S[i][j], S[i][j])), "row")
JudgeLoad(ev) == LET n == Run.n S == Load(ev.S, Run.la)
                 IN Need(IsId(ev.rl, n) /\ IsId(ev.cl, n), "labels") \union
                    Need(MClose(ev.out, S, Vec(n, LAMBDA i : NSqrt(S[i][i])), "1E-12"), "loaded")
JudgeRho(ev) == UNION {LET v == RhoVal(st[i], Run.devs) IN Need(NClose(ev.v[i], v, NMul("1E-7", NAdd(v, Run.sizes[i]))), "rho") : i \in 1..Run.n}
(* a line of the table: the predictor's own name and its own figures (in percent) to the printed precision *)
JudgeLine(ev) ==
  Need(ev.name = ev.wantname, "line_name") \union
  Need(Printed(ev.ret, NMul(100, ev.m.ret), "0.05") /\ Printed(ev.risk, NMul(100, ev.m.risk), "0.05") /\
       Printed(ev.sharpe, ev.m.sharpe, "0.05") /\ Printed(ev.dd, NMul(100, ev.m.dd), "0.5"), "line_figures")

Next ==
  /\ l <= Len(Run.ev)
  /\ LET ev == Run.ev[l] IN
     IF Run.err # "" THEN st' = st
     ELSE CASE Run.kind = "turnover" -> st' = ToStep(st, ev.w)
            [] Run.kind = "years" -> st' = YrStep(st, ev.year, ev.r, 100)
            [] Run.kind = "ecdf" -> st' = Insert(st, ev.x)
            [] Run.kind = "rows" -> st' = st /\ PrintAll(Run.id, l, JudgeRow(ev))
            [] Run.kind = "load" -> st' = st /\ PrintAll(Run.id, l, JudgeLoad(ev))
            [] Run.kind = "rho" -> /\ PrintAll(Run.id, l, JudgeRho(ev))
                                   /\ st' = TLCEval([i \in 1..Run.n |-> TLCEval(RhoStep(st[i], NHalf(125), ev.r[i]))])
            [] Run.kind = "table" -> st' = st /\ PrintAll(Run.id, l, JudgeLine(ev))
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ (l = Len(Run.ev) => PrintT(<<"DONE", Run.id>>) /\ (Run.err = "" => PrintAll(Run.id, l, Final(st'))))
=============================================================================
