----------------------------- MODULE AssocTrace -----------------------------
(***************************************************************************)
(* Recorded results of the calculations on matrices judged against          *)
(* Assoc.tla; rearrangements before and after are those of Matrix.tla.      *)
(*  assoc  C14  init, pre, nf, cf, n, meas, fast, post                      *)
(*  weight C15  pos, tw, bool, fmt        vector C15  w, s, op, norm        *)
(*  dist   C16  init, axis, metric, keep  rank C16  init, up                *)
(*  near   C16  init, queries                                               *)
(***************************************************************************)
EXTENDS TraceBase

Rk0 == RankIn(Header.alphabet)
M == INSTANCE Matrix WITH Rk <- Rk0
A == INSTANCE Assoc

Obj(s) == [rows |-> s.rows, cols |-> s.cols, dense |-> s.dense, mask |-> s.mask,
           f |-> [p \in {<<t[1], t[2]>> : t \in Range0(s.cells)} |->
                    (CHOOSE t \in Range0(s.cells) : t[1] = p[1] /\ t[2] = p[2])[3]]]
Apply(m, ops) == FoldLeft(LAMBDA acc, o : M!Made(<<acc>>, o), m, ops)
Freq(pairs, name) == LET S == {p \in Range0(pairs) : p[1] = name} IN
                     IF S = {} THEN 0 ELSE (CHOOSE p \in S : TRUE)[2]
SumFreq(pairs) == SumSeq([i \in 1..Len(pairs) |-> pairs[i][2]])
RowSums(m) == [i \in 1..Len(m.rows) |-> <<m.rows[i], M!RowSum(m, i)>>]
ColSums(m) == [j \in 1..Len(m.cols) |-> <<m.cols[j], M!ColSum(m, j)>>]

(* ---- C14 ---- *)
AssocRun(c, o) ==
  LET ref == Obj(c.init)
      m == Apply(ref, c.pre)
      \* marginals: given, or those of the whole (reference) matrix, or absent
      nf == CASE c.nf.how = "given" -> c.nf.f [] c.nf.how = "sums" -> IF c.swap THEN ColSums(ref) ELSE RowSums(ref)
              [] c.nf.how = "none" -> RowSums(m)
      cf == CASE c.cf.how = "given" -> c.cf.f [] c.cf.how = "sums" -> IF c.swap THEN RowSums(ref) ELSE ColSums(ref)
              [] c.cf.how = "none" -> ColSums(m)
      n == IF c.n > 0 THEN c.n
           ELSE IF c.fast THEN SumFreq(nf)
           ELSE Max({SumFreq(nf), SumFreq(cf)})
      cell(p) == A!Measure(c.meas, m.f[p], Freq(nf, m.rows[p[1]]), Freq(cf, m.cols[p[2]]), n)
      valid == \A p \in DOMAIN m.f : A!Table(m.f[p], Freq(nf, m.rows[p[1]]), Freq(cf, m.cols[p[2]]), n) /\ n <= A!LnMax
      defd == \A p \in DOMAIN m.f : cell(p).def
      \* positions after the rearrangement
      marked == [m EXCEPT !.f = [p \in DOMAIN m.f |-> (p[1] - 1) * Len(m.cols) + p[2]]]
      e == Apply(marked, c.post)
      old(q) == LET k == e.f[q] IN <<(k - 1) \div Len(m.cols) + 1, ((k - 1) % Len(m.cols)) + 1>>
  IN  IF ~valid THEN {"case-not-valid"}
      ELSE IF o.st = "exc" /\ ~defd THEN {}
      ELSE OnOk(o,
        LET g == Obj(o.v.m) IN
        IF ~(g.rows = e.rows /\ g.cols = e.cols) THEN {"labels"}
        ELSE Must(\A q \in DOMAIN g.f : q \in DOMAIN e.f, "new-cells")
             \cup Must(\A q \in DOMAIN e.f : LET x == IF q \in DOMAIN g.f THEN g.f[q] ELSE 0 IN
                          q \in DOMAIN e.f /\ A!Near(x, cell(old(q))), "value-of-" \o c.meas)
             \cup Must(o.v.same, "argument-changed"))

(* ---- C15 ---- *)
\* the type of a token: the first one or two parts of its name
TypeOf(tok, fmt) == LET p == Split(tok, "/") IN
  IF fmt = "tail" THEN Join(SubSeq(p, 1, Len(p) - 2), "/")
  ELSE IF fmt = "lemma/pos" /\ Len(p) > 1 THEN p[1] \o "/" \o p[2] ELSE p[1]
WeightRun(c, o) ==
  LET t == Obj(c.pos)  w == Obj(c.tw)
      same == t.cols = w.cols
      sameSet == Range0(t.cols) = Range0(w.cols)
      \* weight of context item j for token i
      want(i, j) == LET p == M!At(t, i, j)
                        v == M!ValueOf(w, TypeOf(t.rows[i], c.fmt), t.cols[j])
                    IN  IF p = 0 THEN 0 ELSE IF c.bool THEN v ELSE p * v
  IN  IF c.via = "tc" /\ o.st = "exc" THEN
        \* by name; nothing to weigh may be refused
        (IF \A i \in 1..Len(t.rows), j \in 1..Len(t.cols) : want(i, j) = 0 THEN {} ELSE {"raised"})
      ELSE IF c.via # "tc" /\ ~sameSet THEN (IF o.st = "exc" /\ o.e = "ValueError" THEN {} ELSE {"accepted-other-columns"})
      ELSE IF c.via # "tc" /\ ~same /\ o.st = "exc" /\ o.e = "ValueError" THEN {}
      ELSE OnOk(o, LET g == Obj(o.v.m) IN
        IF ~(g.rows = t.rows /\ g.cols = t.cols) THEN {"labels"}
        ELSE Must(\A i \in 1..Len(t.rows), j \in 1..Len(t.cols) : M!At(g, i, j) = want(i, j), "weight")
             \cup Must(o.v.same, "argument-changed"))

VectorRun(c, o) ==
  LET w == Obj(c.w)  s == Obj(c.s)
      sameSet == Range0(w.cols) = Range0(s.rows)
      ws(i) == [j \in 1..Len(w.cols) |-> M!At(w, i, j)]
      col(k) == [j \in 1..Len(w.cols) |-> M!ValueOf(s, w.cols[j], s.cols[k])]
      vec(i) == [k \in 1..Len(s.cols) |-> LET f == A!Combine(c.f, ws(i), col(k)) IN f[1] * A!SignOf(f[2])]
      den(i) == Abs(A!Combine(c.f, ws(i), col(1))[2])
      \* a weighted mean without weight is not constrained unless the sum is zero too
      free(i) == c.f = "weightedmean" /\ SumSeq(ws(i)) = 0 /\ \E j \in 1..Len(w.cols) : ws(i)[j] # 0
  IN  IF ~sameSet THEN (IF o.st = "exc" /\ o.e = "ValueError" THEN {} ELSE {"accepted-other-rows"})
      ELSE OnOk(o, LET g == Obj(o.v.m) IN
        IF ~(g.rows = w.rows /\ g.cols = s.cols) THEN {"labels"}
        ELSE Must(\A i \in 1..Len(w.rows) : free(i) \/
                    LET v == vec(i)  d == den(i) IN
                    \A k \in 1..Len(s.cols) : A!NormOk(c.norm, v, k, d, M!At(g, i, k)), "vector")
             \cup Must(o.v.same, "argument-changed"))

(* ---- C16 ---- *)
DistRun(c, o) ==
  LET m0 == Obj(c.init)
      m == IF c.axis = 0 THEN m0 ELSE M!Transpose(m0)
      row(i) == [j \in 1..Len(m.cols) |-> M!At(m, i, j)]
      num == M!Numbers(c.keep, m.rows)
      ids == IF c.keep = <<>> THEN M!All(m.rows) ELSE num
      names == [i \in 1..Len(ids) |-> m.rows[ids[i]]]
      metric == c.metric
  IN  OnOk(o, LET g == Obj(o.v.m)
                  \* matrices with at least two items: a symmetric one keeps them in the order asked for
                  R == g.rows IN
        IF ~(R = names /\ g.cols = names) THEN {"labels"}
        ELSE Must(\A i, j \in 1..Len(ids) : A!DistOk(metric, row(ids[i]), row(ids[j]), ids[i] = ids[j], M!At(g, i, j)), "value-of-" \o metric)
             \cup Must(\A i, j \in 1..Len(ids) : Abs(M!At(g, i, j) - M!At(g, j, i)) <= 1, "symmetry")
             \cup Must(o.v.same, "argument-changed"))
RankRun(c, o) ==
  LET m == Obj(c.init)
      row(g, i) == [j \in 1..Len(m.cols) |-> M!At(g, i, j)]
  IN  OnOk(o, LET g == Obj(o.v.m) IN
        IF ~(g.rows = m.rows /\ g.cols = m.cols) THEN {"labels"}
        ELSE Must(\A i \in 1..Len(m.rows) : A!RanksOk(row(m, i), row(g, i), c.up), "rank")
             \cup Must(o.v.same, "argument-changed"))
\* queries are <<item number, k, descending>>
NearRun(c, o) ==
  LET m == Obj(c.init)
      row(i) == [j \in 1..Len(m.cols) |-> M!At(m, i, j)]
      ans(q, r) == IF r.ref # "" THEN r.ref = "NotImplementedError" /\ ~M!IsSquare(m)
                   ELSE /\ \A x \in Range0(r.names) : x \in Range0(m.rows)
                        /\ A!NearestOk(row(q[1]), q[1], q[2], [i \in 1..Len(r.names) |-> M!IndexIn(m.rows, r.names[i])], q[3])
  IN  OnOk(o, IF Len(o.v) # Len(c.queries) THEN {"steps"}
              ELSE Must(\A i \in 1..Len(c.queries) : ans(c.queries[i], o.v[i]), "nearest"))

Run(c, o) ==
  CASE c.kind = "assoc" -> AssocRun(c, o)
    [] c.kind = "weight" -> WeightRun(c, o)
    [] c.kind = "vector" -> VectorRun(c, o)
    [] c.kind = "dist" -> DistRun(c, o)
    [] c.kind = "rank" -> RankRun(c, o)
    [] c.kind = "near" -> NearRun(c, o)
Verdict(c) == UNION {Run(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
