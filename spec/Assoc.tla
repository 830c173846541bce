------------------------------- MODULE Assoc -------------------------------
(***************************************************************************)
(* Association measures of a cell with count O, marginals R (row item) and *)
(* C (column item) and total N; token weights and vectors; distances and    *)
(* ranks.  Real numbers are integers in units of 1/10000, obtained from     *)
(* exact integers by long division, integer square roots and the table of   *)
(* logarithms.                                                              *)
(***************************************************************************)
EXTENDS Util, Ln

Unit == 10000

\* n / d in units of 10^-k, truncated towards zero, without large products
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0
                   ELSE LET p10 == IF k = 1 THEN 1 ELSE IF k = 2 THEN 10 ELSE IF k = 3 THEN 100 ELSE IF k = 4 THEN 1000
                                   ELSE IF k = 5 THEN 10000 ELSE IF k = 6 THEN 100000 ELSE IF k = 7 THEN 1000000 ELSE 10000000
                        IN  ((r * 10) \div d) * p10 + Digits((r * 10) % d, d, k - 1)
Pow10(k) == CASE k = 0 -> 1 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 6 -> 1000000 [] k = 8 -> 100000000
DivK(n, d, k) ==
  LET s == IF (n < 0) # (d < 0) THEN -1 ELSE 1
      a == Abs(n)  b == Abs(d)
  IN  s * ((a \div b) * Pow10(k) + Digits(a % b, b, k))
Div(n, d) == DivK(n, d, 4)

RECURSIVE RootIn(_, _, _)
RootIn(lo, hi, x) == \* greatest r in lo..hi with r*r <= x, where lo*lo <= x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN RootIn(m, hi, x) ELSE RootIn(lo, m - 1, x)
Root(x) == RootIn(0, 46340, x)

Val(v, t) == [def |-> TRUE, v |-> v, tol |-> t]
Undef == [def |-> FALSE, v |-> 0, tol |-> 0]
XLn(n) == IF n = 0 THEN 0 ELSE XLnT[n]
Pos0(v) == IF v < 0 THEN 0 ELSE v

\* the 2x2 table is a table of counts
Table(O, R, C, N) == O >= 0 /\ R >= O /\ C >= O /\ N - R - C + O >= 0 /\ R > 0 /\ C > 0
Det(O, R, C, N) == O * N - R * C               \* o11*o22 - o12*o21

Pmi(O, R, C, N) == IF O = 0 THEN Undef ELSE Val(LnT[O] + LnT[N] - LnT[R] - LnT[C], 3)
Measure(meas, O, R, C, N) ==
  CASE meas = "pmi"  -> Pmi(O, R, C, N)
    [] meas = "ppmi" -> IF O = 0 THEN Val(0, 0) ELSE Val(Pos0(Pmi(O, R, C, N).v), 3)
    [] meas \in {"lik", "llik"} ->
         Val(2 * (XLn(O) + XLn(R - O) + XLn(C - O) + XLn(N - R - C + O) + XLn(N)
                  - XLn(R) - XLn(N - R) - XLn(C) - XLn(N - C)), 14)
    [] meas = "chisq" -> IF R = N \/ C = N THEN Undef
                         ELSE Val(Div(N * Det(O, R, C, N) * Det(O, R, C, N), R * (N - R) * C * (N - C)), 3)
    [] meas = "zscore" -> LET d == Det(O, R, C, N)
                              s == IF d < 0 THEN -1 ELSE 1
                          IN  Val(s * 10 * Root(DivK(d * d, N * R * C, 6)), 20)
    [] meas = "dice" -> Val(Div(2 * O, R + C), 2)
    [] meas = "deltap" -> IF R = N THEN Undef ELSE Val(Div(Det(O, R, C, N), R * (N - R)), 2)
    [] meas = "deltapColl" -> IF C = N THEN Undef ELSE Val(Div(Det(O, R, C, N), C * (N - C)), 2)
    [] meas = "logratio" -> IF O = 0 \/ C = O \/ R = N THEN Undef
                            ELSE Val(LnT[O] + LnT[N - R] - LnT[R] - LnT[C - O], 3)
Measures == {"pmi", "ppmi", "lik", "llik", "chisq", "zscore", "dice", "deltap", "deltapColl", "logratio"}
Near(x, m) == ~m.def \/ Abs(x - m.v) <= m.tol

(* ---- laws, for all tables of counts up to a total ---- *)
Tables(n) == {t \in (0..n) \X (1..n) \X (1..n) \X (1..n) : Table(t[1], t[2], t[3], t[4])}
Opposite(x, y) == Abs(x.v + y.v) <= x.tol + y.tol
Alike(x, y) == (x.def /\ y.def) => Abs(x.v - y.v) <= x.tol + y.tol
MeasureLaw(t) ==
    LET O == t[1]  R == t[2]  C == t[3]  N == t[4]
        m(k) == Measure(k, O, R, C, N)   w(k) == Measure(k, O, C, R, N)
        indep == O * N = R * C
    IN  \* independence
        /\ indep => \A k \in Measures \ {"dice"} : Near(0, m(k))
        \* swapping rows and columns
        /\ \A k \in {"pmi", "ppmi", "lik", "chisq", "zscore", "dice"} : Alike(m(k), w(k))
        /\ Alike(m("deltap"), w("deltapColl"))
        \* ranges and signs
        /\ m("lik").v >= -m("lik").tol
        /\ m("chisq").def => m("chisq").v >= 0
        /\ m("dice").v \in 0..Unit
        /\ m("deltap").def => m("deltap").v \in (-Unit)..Unit
        /\ (O * N > R * C) => \A k \in {"pmi", "zscore", "deltap", "deltapColl", "logratio"} : m(k).def => m(k).v >= -m(k).tol
        /\ (O * N < R * C) => \A k \in {"pmi", "zscore", "deltap", "deltapColl", "logratio"} : m(k).def => m(k).v <= m(k).tol
        /\ m("ppmi").v >= 0 /\ (m("pmi").def => (m("ppmi").v = m("pmi").v \/ (m("ppmi").v = 0 /\ m("pmi").v <= 0)))
        \* chi-square against the squared z-score: chi2 * (N-R)(N-C) = z2 * N^2 (both exact)
        /\ m("chisq").def => Abs(m("chisq").v - DivK(m("deltap").v * m("deltapColl").v, Unit, 0) * N) <= 4 * N + 3
        \* the same table in two parts: a larger count is a stronger association
        /\ Table(O + 1, R, C, N) => \A k \in {"pmi", "ppmi", "zscore", "dice", "deltap", "deltapColl"} :
              (m(k).def /\ Measure(k, O + 1, R, C, N).def) => Measure(k, O + 1, R, C, N).v >= m(k).v

(* ---- token vectors: rows of numbers in the unit of the case ---- *)
\* one component of the combination of weights w and column s of the second
\* order matrix, as a fraction <<n, d>>
Combine(op, w, s) ==
  LET J == 1..Len(w)
      dot == FoldSet(LAMBDA j, a : a + w[j] * s[j], 0, J)
      tot == FoldSet(LAMBDA j, a : a + w[j], 0, J)
  IN  CASE op = "addition" -> <<dot, 1>>
        [] op = "weightedmean" -> IF tot = 0 THEN <<0, 1>> ELSE <<dot, tot>>
        [] op = "multiplication" -> <<FoldSet(LAMBDA j, a : IF w[j] = 0 \/ s[j] = 0 THEN a ELSE a * (w[j] * s[j]), 1, J), 1>>
\* is x (1/10000) the k-th component of the vector of numerators v over one
\* common positive denominator d, normalised?
NormOk(norm, v, k, d, x) ==
  LET J == 1..Len(v)
      s1 == FoldSet(LAMBDA j, a : a + Abs(v[j]), 0, J)
      s2 == FoldSet(LAMBDA j, a : a + v[j] * v[j], 0, J)
      mx == FoldSet(LAMBDA j, a : IF Abs(v[j]) > a THEN Abs(v[j]) ELSE a, 0, J)
  IN  IF s1 = 0 THEN x = 0
      ELSE CASE norm = "no"  -> Abs(x - Div(v[k], d)) <= 2
             [] norm = "l1"  -> Abs(x - Div(v[k], s1)) <= 2
             [] norm = "max" -> Abs(x - Div(v[k], mx)) <= 2
             [] norm = "l2"  -> /\ (v[k] < 0) => x <= 0
                                /\ (v[k] > 0) => x >= 0
                                /\ Abs(x * x - DivK(v[k] * v[k], s2, 8)) <= 4 * Abs(x) + 4
\* the common denominator is made positive
SignOf(d) == IF d < 0 THEN -1 ELSE 1

(* ---- distances between rows of integers ---- *)
SumF(F(_), J) == FoldSet(LAMBDA j, a : a + F(j), 0, J)
DistOk(metric, a, b, same, x) ==
  LET J == 1..Len(a)
      dot == SumF(LAMBDA j : a[j] * b[j], J)
      aa == SumF(LAMBDA j : a[j] * a[j], J)
      bb == SumF(LAMBDA j : b[j] * b[j], J)
      dd == SumF(LAMBDA j : (a[j] - b[j]) * (a[j] - b[j]), J)
      l1 == SumF(LAMBDA j : Abs(a[j] - b[j]), J)
      \* x2 is the square of the cosine, in units of 10^-8, with the sign of the product
      cosOk(c) == IF aa = 0 \/ bb = 0 \/ dot = 0 THEN Abs(c) <= 1
                  ELSE /\ (c <= 1 /\ dot < 0) \/ (c >= -1 /\ dot > 0)
                       /\ Abs(c * c - DivK(dot * dot, aa * bb, 8)) <= 4 * Abs(c) + 4
  IN  CASE metric \in {"cityblock", "manhattan", "l1"} -> x = l1 * Unit
        [] metric \in {"euclidean", "l2"} -> IF same THEN Abs(x) <= 1 ELSE Abs(x - 10 * Root(dd * 1000000)) <= 20
        [] metric \in {"cosine"} -> IF same THEN Abs(x) <= 1 ELSE cosOk(Unit - x)
        [] metric = "similarity" -> IF same THEN x = Unit ELSE cosOk(x)

(* ---- ranks and neighbours of a row of values ---- *)
RanksOk(v, r, up) == \* up: rank 1 is the smallest value
  /\ {r[i] : i \in 1..Len(v)} = 1..Len(v)
  /\ \A i, j \in 1..Len(v) : r[i] < r[j] => IF up THEN v[i] <= v[j] ELSE v[i] >= v[j]
NearestOk(v, self, k, got, down) == \* down: the nearest have the largest values
  LET others == (1..Len(v)) \ {self}
      S == Range0(got)
  IN  /\ Len(got) = Cardinality(S) /\ S \subseteq others
      /\ Len(got) = (IF k < Cardinality(others) THEN k ELSE Cardinality(others))
      /\ \A i \in S, j \in others \ S : IF down THEN v[i] >= v[j] ELSE v[i] <= v[j]
\* for every row of values and k there is an answer
NearestExists(v, self, k, down) ==
  \E S \in SUBSET ((1..Len(v)) \ {self}) :
     NearestOk(v, self, k, SetToSeq(S), down)
=============================================================================
