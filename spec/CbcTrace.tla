------------------------------ MODULE CbcTrace ------------------------------
(***************************************************************************)
(* Recorded results of clustering by committee judged against Cbc.tla.      *)
(*  clean  L                       kept, sing                               *)
(*  merge  sim, theta              pairs                                    *)
(*  step1  d, els, k, t, ...       scored clusters, one run per schedule    *)
(*  step2  list, f, m, els, theta  committees and their vectors             *)
(*  step3  els, m, comms, v, th    residues, committees                     *)
(*  cbc    all of it               recursions, and the steps one by one     *)
(***************************************************************************)
EXTENDS TraceBase
C == INSTANCE Cbc

Params(c) == [k |-> c.k, t |-> c.t, metric |-> c.metric, highest |-> c.highest, scale |-> c.scale]
IndexOfEl(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
Sets(cs) == [k \in 1..Len(cs) |-> Range0(cs[k])]

CbcRun(c, v) ==
  LET n == Len(v.rs)
      els(r) == IF r = 1 THEN c.els ELSE v.rs[r - 1].res
      p(r) == [Params(c) EXCEPT !.k = IF c.kp = 0 THEN c.k ELSE (c.kp * Len(els(r))) \div 100]
      sub(r) == [i \in 1..Len(els(r)) |-> [j \in 1..Len(els(r)) |-> c.d[els(r)[i]][els(r)[j]]]]
      back(r, L) == [i \in 1..Len(L) |-> <<L[i][1], [q \in 1..Len(L[i][2]) |-> IndexOfEl(els(r), L[i][2][q])]>>]
      tie(r) == C!ScoreTie(v.chain[r].l)
      \* a mean similarity that rounds to zero may be positive or not
      clear(r) == \A y \in Range0(v.chain[r].l) : Len(y[2]) > 1 => Abs(y[1]) > 1
      steps(r) ==
        LET s == v.chain[r] IN
        (IF c.d # <<>> THEN C!Step1Clauses(sub(r), [i \in 1..Len(els(r)) |-> i], p(r), back(r, s.l)) ELSE {})
        \cup (IF c.m # <<>> /\ clear(r) THEN C!Step2Clauses(s.l, c.f, Range0(els(r)), c.m, c.theta1, s.comms2, s.vecs) ELSE {})
        \cup (IF c.m # <<>> /\ s.comms2 # <<>> THEN C!Step3Near(els(r), c.f, c.m, s.comms2, c.theta2, s.res, s.comms3) ELSE {})
        \cup (IF c.order /\ tie(r) THEN {}
              ELSE Must(Sets(v.rs[r].comms) = Sets(s.comms3) /\ v.rs[r].res = s.res, "composition"))
  IN  C!AccountClauses(c.els, v.rs, c.limit)
      \cup UNION {steps(r) : r \in 1..Len(v.chain)}

Judge(c, v) ==
  CASE c.kind = "clean" -> C!CleanClauses(c.l, v.kept, v.sing)
    [] c.kind = "merge" -> C!MergeClauses(c.sim, c.theta, v.pairs)
    [] c.kind = "step1" -> C!Step1Clauses(c.d, c.els, Params(c), v.l)
    [] c.kind = "step2" -> C!Step2Clauses(c.l, c.f, Range0(c.els), c.m, c.theta, v.comms, v.vecs)
    [] c.kind = "step3" -> C!Step3Exact(c.els, c.m, c.comms, c.v, c.th, v.res, v.after)
    [] c.kind = "cbc" -> CbcRun(c, v)

Verdict(c) == UNION {OnOk(c.runs[i], Judge(c, c.runs[i].v)) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ l' = l + 1
=============================================================================
