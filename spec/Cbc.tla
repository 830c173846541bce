-------------------------------- MODULE Cbc --------------------------------
(***************************************************************************)
(* Clustering by committee.  Elements are numbers; a matrix is a sequence   *)
(* of rows of integers, one row per element.  Real values are in units of   *)
(* 1/10000 with an explicit tolerance, so that a decision is "yes", "no" or *)
(* "maybe" (both allowed).                                                  *)
(***************************************************************************)
EXTENDS Assoc

(* ======== step 1: the clusters of the neighbourhood of an element ======== *)
\* the k nearest of the others; tie: the choice is not determined
Closer(D, e, a, b) == D[e][a] < D[e][b] \/ (D[e][a] = D[e][b] /\ a < b)
Nearby(D, e, k) == LET others == (1..Len(D)) \ {e} IN
  {x \in others : Cardinality({y \in others : Closer(D, e, y, x)}) < k}
NearbyTie(D, e, k) == LET s == Nearby(D, e, k) IN
  \E x \in s, y \in (1..Len(D)) \ (s \cup {e}) : D[e][x] = D[e][y]

\* mean distance between clusters, in 1/360 (at most seven elements)
Apart(D, A, B) == FoldSet(LAMBDA a, s : s + FoldSet(LAMBDA b, t : t + D[a][b], 0, B), 0, A)
                  * (360 \div (Cardinality(A) * Cardinality(B)))

\* average linkage: what each merge makes of the partition P
RECURSIVE Link(_, _)
Link(D, P) ==
  IF Cardinality(P) < 2 THEN <<>>
  ELSE LET pairs == {p \in SUBSET P : Cardinality(p) = 2}
           h(p) == LET A == CHOOSE x \in p : TRUE
                       B == CHOOSE x \in p : x # A IN Apart(D, A, B)
           m == Min({h(p) : p \in pairs})
           best == {p \in pairs : h(p) = m}
           p0 == CHOOSE p \in best : TRUE
           Q == (P \ p0) \cup {UNION p0}
       IN  <<[h |-> m, part |-> Q, size |-> Cardinality(UNION p0), tie |-> Cardinality(best) > 1]>> \o Link(D, Q)
LinkTie(ls) == \/ \E i \in 1..Len(ls) : ls[i].tie
               \/ \E i \in 1..(Len(ls) - 1) : ls[i].h = ls[i + 1].h

\* how many merges lie below the line: t = <<how, number>>
Below(ls, t) ==
  LET m == Len(ls)  sum == FoldLeft(LAMBDA a, x : a + x.h, 0, ls) IN
  CASE t[1] = "num"     -> Cardinality({i \in 1..m : 100 * ls[i].h <= t[2] * 360})
    [] t[1] = "median"  -> (m + 1) \div 2
    [] t[1] = "percent" -> (t[2] * (m - 1)) \div 100 + 1
    [] t[1] = "mean"    -> Cardinality({i \in 1..m : m * ls[i].h <= sum})
    [] t[1] = "minsize" -> LET big == {i \in 1..m : ls[i].size >= t[2]} IN IF big = {} THEN m ELSE Min(big)
BelowTie(ls, t) == t[1] = "mean" /\ Len(ls) > 1 /\
  \E i \in 1..Len(ls) : Len(ls) * ls[i].h = FoldLeft(LAMBDA a, x : a + x.h, 0, ls)

Flat(N, ls, t) == LET n == Below(ls, t) IN IF n = 0 THEN {{x} : x \in N} ELSE ls[n].part

\* score of a cluster; distances are in 1/scale
PairSum(D, c) == FoldSet(LAMBDA a, s : s + FoldSet(LAMBDA b, t : IF b > a THEN t + D[a][b] ELSE t, 0, c), 0, c)
Score(D, c, metric, scale) ==
  LET n == Cardinality(c)
      avg == Unit - Div(2 * PairSum(D, c), n * (n - 1) * scale)
  IN  IF n = 1 THEN -Unit
      ELSE CASE metric = "without_size" -> avg
             [] metric = "with_size" -> n * avg
             [] metric = "with_size_sqrt" -> DivK(avg * Root(n * 1000000), 1000, 0)
             [] metric = "func" -> avg + n * Unit       \* a function given by the caller
Slack == 12

\* what element e contributes: <<determined, set of clusters>>
Found(D, e, c) ==
  LET N == Nearby(D, e, c.k)
      ls == Link(D, {{x} : x \in N})
      flat == Flat(N, ls, c.t)
      sc(x) == Score(D, x, c.metric, c.scale)
      top == Max({sc(x) : x \in flat})
  IN  IF Cardinality(N) < 2 THEN <<TRUE, {}>>
      ELSE IF NearbyTie(D, e, c.k) \/ LinkTie(ls) \/ BelowTie(ls, c.t) THEN <<FALSE, {}>>
      ELSE IF ~c.highest THEN <<TRUE, flat>>
      ELSE IF Abs(top) <= Slack \/ Cardinality({x \in flat : sc(x) >= top - Slack}) > 1 THEN <<FALSE, {}>>
      ELSE IF top < 0 THEN <<TRUE, {{}}>>
      ELSE <<TRUE, {x \in flat : sc(x) = top}>>

\* L: sequence of <<score, members>>
SetOf(x) == Range0(x[2])
Step1Clauses(D, els, c, L) ==
  LET f == [i \in 1..Len(els) |-> Found(D, els[i], c)]
      sure == \A i \in 1..Len(els) : f[i][1]
      all == UNION {f[i][2] : i \in 1..Len(els)} \cup {SetOf(L[i]) : i \in 1..Len(L)}
      want(s) == Cardinality({i \in 1..Len(els) : s \in f[i][2]})
      have(s) == Cardinality({i \in 1..Len(L) : SetOf(L[i]) = s})
  IN  Bool2Set(\A i \in 1..Len(L) : Cardinality(SetOf(L[i])) = Len(L[i][2]) /\ SetOf(L[i]) \subseteq 1..Len(D), "members")
      \cup Bool2Set(\A i \in 1..Len(L) : SetOf(L[i]) \subseteq 1..Len(D) =>
                       IF SetOf(L[i]) = {} THEN L[i][1] <= 0
                       ELSE Abs(L[i][1] - Score(D, SetOf(L[i]), c.metric, c.scale)) <= Slack, "score")
      \cup Bool2Set(sure => \A s \in all : have(s) >= want(s), "lost")
      \cup Bool2Set(sure => \A s \in all : have(s) <= want(s), "unexpected")

(* ======== step 2: clean and merge ======== *)
Clusters(L) == {SetOf(x) : x \in {y \in Range0(L) : y[1] > 0}}
Singles(L) == UNION {SetOf(x) : x \in {y \in Range0(L) : y[1] <= 0 /\ Len(y[2]) = 1}}
Minimal(F) == {c \in F : ~\E d \in F : d # c /\ d \subseteq c}
Lonely(L) == Singles(L) \ UNION Clusters(L)
CleanClauses(L, kept, sing) ==
  LET K == [i \in 1..Len(kept) |-> SetOf(kept[i])] IN
  Bool2Set(\A i \in 1..Len(kept) : \E y \in Range0(L) : y[1] = kept[i][1] /\ SetOf(y) = K[i], "given")
  \cup Bool2Set(IsInjectiveSeq(K), "twice")
  \cup Bool2Set(~\E i, j \in 1..Len(K) : K[i] # K[j] /\ K[i] \subseteq K[j], "nested")
  \cup Bool2Set(\A c \in Clusters(L) : \E i \in 1..Len(K) : K[i] \subseteq c, "covered")
  \cup Bool2Set(\A i \in 1..(Len(K) - 1) : kept[i][1] >= kept[i + 1][1], "order")
  \cup Bool2Set(Range0(sing) = Lonely(L) /\ IsInjectiveSeq(sing), "singleton")

\* pairs: sequence of <<i, j>>, j = 0 for none; sim and theta are integers
MergeClauses(sim, theta, pairs) ==
  LET n == Len(sim)
      uses(x) == Cardinality({p \in 1..Len(pairs) : pairs[p][1] = x}) + Cardinality({p \in 1..Len(pairs) : pairs[p][2] = x})
      \* later committees still free when i has its turn
      free(i) == {j \in (i + 1)..n : ~\E p \in 1..Len(pairs) : pairs[p][1] < i /\ pairs[p][2] = j}
      best(i) == IF free(i) = {} THEN theta - 1 ELSE Max({sim[i][j] : j \in free(i)})
      ok(p) == p[1] \in 1..n /\ p[2] \in 0..n
  IN  Bool2Set(\A k \in 1..Len(pairs) : ok(pairs[k]), "range")
      \cup Bool2Set(\A x \in 1..n : uses(x) = 1, "once")
      \cup Bool2Set(\A k \in 1..Len(pairs) : ok(pairs[k]) =>
             LET i == pairs[k][1]  j == pairs[k][2] IN
             IF j = 0 THEN best(i) < theta ELSE j \in free(i) /\ sim[i][j] = best(i) /\ best(i) >= theta, "similar")
\* the same as a procedure, for design checks: low, high bound the search
RECURSIVE Greedy(_, _, _, _)
Greedy(sim, theta, i, used) ==
  LET n == Len(sim)
      free == {j \in (i + 1)..n : j \notin used}
      top == Max({sim[i][j] : j \in free})
  IN  IF i > n THEN {<<>>}
      ELSE IF i \in used THEN Greedy(sim, theta, i + 1, used)
      ELSE IF free = {} \/ (free # {} /\ top < theta)
           THEN {<<<<i, 0>>>> \o r : r \in Greedy(sim, theta, i + 1, used)}
           ELSE UNION {{<<<<i, j>>>> \o r : r \in Greedy(sim, theta, i + 1, used \cup {j})} :
                       j \in {x \in free : sim[i][x] = top}}

(* ======== vectors and similarities ======== *)
\* logarithm of a larger number: halve it until the table has it
RECURSIVE LnBig(_)
LnBig(n) == IF n <= LnMax THEN LnT[n]
            ELSE LET k == CHOOSE k \in 1..24 : n \div (2 ^ k) \in 60..119 /\ n \div (2 ^ k) < 120
                     a == n \div (2 ^ k)
                     r == ((n % (2 ^ k)) * 100) \div (2 ^ k)
                 IN  k * LnT[2] + (k * 5) \div 10 + LnT[a] + ((LnT[a + 1] - LnT[a]) * r) \div 100

\* the vector of committee c among elements E: positive pointwise mutual
\* information of its mean against the sum of all other elements
CommVec(F, E, c) ==
  LET J == 1..Len(F[1])  m == Cardinality(c)
      col(S, j) == FoldSet(LAMBDA e, a : a + F[e][j], 0, S)
      s == [j \in J |-> col(c, j)]
      r == [j \in J |-> col(E, j) - s[j]]
      ss == FoldSet(LAMBDA j, a : a + s[j], 0, J)
      rr == FoldSet(LAMBDA j, a : a + r[j], 0, J)
      v(j) == IF s[j] = 0 THEN 0
              ELSE IF s[j] * (ss + m * rr) <= ss * (s[j] + m * r[j]) THEN 0
              ELSE LET x == LnBig(s[j]) + LnBig(ss + m * rr) - LnBig(ss) - LnBig(s[j] + m * r[j]) IN IF x < 1 THEN 1 ELSE x
  IN  [j \in J |-> v(j)]
\* a component that is exactly on the border between positive and zero may
\* come out as a rounding error, which matters when nothing else is there
Large(u) == FoldLeft(LAMBDA a, x : IF Abs(x) > a THEN Abs(x) ELSE a, 0, u)
Shrink(u) == LET m == Large(u) IN IF m <= 4000 THEN u ELSE [j \in 1..Len(u) |-> DivK(u[j] * 10, (m * 10) \div 4000 + 1, 0)]
UnitVec(u) == LET w == Shrink(u)
                  n == Root(FoldLeft(LAMBDA a, x : a + x * x, 0, w))
              IN  [j \in 1..Len(u) |-> IF n = 0 THEN 0 ELSE Div(w[j], n)]
DotU(u, v) == DivK(FoldSet(LAMBDA j, a : a + u[j] * v[j], 0, 1..Len(u)), Unit, 0)
\* similarity of two vectors: [v, tol]; exact: integers (already enlarged)
TolOf(u, exact) == IF exact THEN 30 ELSE 30 + 100000 \div (1 + Large(u))
Cosine(u, eu, v, ev) ==
  [v |-> DotU(UnitVec(u), UnitVec(v)),
   tol |-> (IF ~eu /\ Large(u) < 300 THEN 20000 ELSE TolOf(u, eu)) + (IF ~ev /\ Large(v) < 300 THEN 20000 ELSE TolOf(v, ev))]
Reaches(s, theta) == IF s.v - s.tol > theta THEN "yes" ELSE IF s.v + s.tol < theta THEN "no" ELSE "maybe"
Tops(sims, X) == {j \in X : \A k \in X : sims[j].v + sims[j].tol + sims[k].tol >= sims[k].v}

Enlarge(u) == [j \in 1..Len(u) |-> u[j] * 400]

(* ======== step 2 as a whole ======== *)
\* the clusters that remain, best score first (determined when no two
\* different clusters have the same score)
BestScore(L, c) == Max({y[1] : y \in {z \in Range0(L) : SetOf(z) = c}})
ScoreTie(L) == \E c, d \in Clusters(L) : c # d /\ Abs(BestScore(L, c) - BestScore(L, d)) <= 1
Cleaned(L) == SetToSortSeq(Minimal(Clusters(L)), LAMBDA a, b : BestScore(L, a) > BestScore(L, b))

\* all admissible merges of committees with similarities sims[i][j]
RECURSIVE Ways(_, _, _, _)
Ways(sims, theta, i, used) ==
  LET n == Len(sims)
      free == {j \in (i + 1)..n : j \notin used}
      tops == Tops(sims[i], free)
      pair == {j \in tops : Reaches(sims[i][j], theta) # "no"}
      alone == free = {} \/ \E j \in tops : Reaches(sims[i][j], theta) # "yes"
  IN  IF i > n THEN {<<>>}
      ELSE IF i \in used THEN Ways(sims, theta, i + 1, used)
      ELSE (IF alone THEN {<<<<i, 0>>>> \o r : r \in Ways(sims, theta, i + 1, used)} ELSE {})
           \cup UNION {{<<<<i, j>>>> \o r : r \in Ways(sims, theta, i + 1, used \cup {j})} : j \in pair}

Bag(s) == [x \in Range0(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
\* comms: observed committees (sequences); vecs: their vectors
Step2Clauses(L, F, E, M, theta, comms, vecs) ==
  LET base == Cleaned(L)  n == Len(base)
      lone == Lonely(L)
      cv == [i \in 1..n |-> CommVec(F, E, base[i])]
      sims == [i \in 1..n |-> [j \in 1..n |-> Cosine(cv[i], FALSE, cv[j], FALSE)]]
      O == [k \in 1..Len(comms) |-> Range0(comms[k])]
      core == [k \in 1..Len(O) |-> O[k] \ lone]
      made(w) == [k \in 1..Len(w) |-> base[w[k][1]] \cup (IF w[k][2] = 0 THEN {} ELSE base[w[k][2]])]
      fits == {w \in Ways(sims, theta, 1, {}) : Bag(made(w)) = Bag(core)}
      corev == [k \in 1..Len(O) |-> CommVec(F, E, core[k])]
      \* where a singleton may go
      ssim(e) == [k \in 1..Len(O) |-> Cosine(Enlarge(M[e]), TRUE, corev[k], FALSE)]
      in(e) == {k \in 1..Len(O) : e \in O[k]}
      goes(e) == LET s == ssim(e)  t == Tops(s, 1..Len(O)) IN
                 IF in(e) = {} THEN \E k \in t : Reaches(s[k], theta) # "yes"
                 ELSE \E k \in t : in(e) = {k} /\ Reaches(s[k], theta) # "no"
      sane == UNION Range0(O) \subseteq E /\ {} \notin Range0(core)
  IN  IF n = 0 THEN Bool2Set(comms = <<>>, "none")
      ELSE Bool2Set(\A k \in 1..Len(comms) : Cardinality(O[k]) = Len(comms[k]), "members")
      \cup Bool2Set(sane, "foreign")
      \cup (IF ~sane \/ ScoreTie(L) THEN {} ELSE
              Bool2Set(fits # {}, "merge")
              \cup Bool2Set(\A e \in lone : goes(e), "lonely"))
      \cup (IF ~sane THEN {} ELSE
              Bool2Set(Len(vecs) = Len(O) /\ \A k \in 1..Len(O) : LET v == CommVec(F, E, O[k]) IN
                          \A j \in 1..Len(v) : Abs(v[j] - vecs[k][j]) <= 8, "vector"))

(* ======== step 3 ======== *)
\* exact comparisons for small integer vectors
Dot(u, v) == FoldSet(LAMBDA j, a : a + u[j] * v[j], 0, 1..Len(u))
SqLen(u) == Dot(u, u)
Square(x) == Root(x) * Root(x) = x
OnAxis(u) == Cardinality({j \in 1..Len(u) : u[j] # 0}) = 1
\* is cos(u, v) >= n/d  (n >= 0)
ReachesX(u, v, th) ==
  LET p == Dot(u, v)
      l == p * p * th[2] * th[2]
      r == th[1] * th[1] * SqLen(u) * SqLen(v)
  IN  IF SqLen(u) = 0 \/ SqLen(v) = 0 \/ p = 0
      THEN IF th[1] # 0 THEN "no"
           ELSE IF \A j \in 1..Len(u) : u[j] * v[j] = 0 THEN "yes" ELSE "maybe"     \* products that cancel out
      ELSE IF p < 0 THEN "no"
      ELSE IF l > r THEN "yes" ELSE IF l < r THEN "no"
      ELSE IF Square(SqLen(u)) /\ Square(SqLen(v)) /\ (OnAxis(u) \/ OnAxis(v)) THEN "yes" ELSE "maybe"
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* cos(u, v) < cos(u, w)
LessX(u, v, w) ==
  LET p == IF SqLen(v) = 0 THEN 0 ELSE Dot(u, v)
      q == IF SqLen(w) = 0 THEN 0 ELSE Dot(u, w)
      a == p * p * SqLen(w)  b == q * q * SqLen(v)
  IN  IF Sgn(p) # Sgn(q) THEN Sgn(p) < Sgn(q)
      ELSE IF Sgn(p) = 0 THEN FALSE ELSE IF Sgn(p) > 0 THEN a < b ELSE a > b
\* reach(e, k), tops(e): per element and committee
Step3Of(els, comms, R, after, reach(_, _), tops(_)) ==
  LET B == [k \in 1..Len(comms) |-> Range0(comms[k])]
      A == [k \in 1..Len(after) |-> Range0(after[k])]
      K == 1..Len(comms)
      isres(e) == e \in Range0(R)
      \* added to exactly one of the most similar ones
      added(e) == \E k \in tops(e) : e \in A[k]
  IN  Bool2Set(Len(A) = Len(B) /\ \A k \in 1..Len(A) : Cardinality(A[k]) = Len(after[k]), "members")
      \cup (IF Len(A) # Len(B) THEN {} ELSE
             Bool2Set(\A k \in K : B[k] \subseteq A[k] /\ A[k] \subseteq B[k] \cup Range0(els), "kept")
             \cup Bool2Set(\A i \in 1..Len(els) : LET e == els[i] IN
                     /\ ((\A k \in K : reach(e, k) = "no") => isres(e))
                     /\ ((\E k \in K : reach(e, k) = "yes") => ~isres(e)), "residue")
             \cup Bool2Set(\A i \in 1..Len(els) : ~isres(els[i]) => added(els[i]), "nearest")
             \cup Bool2Set(\A i \in 1..Len(els) : LET e == els[i]  new == {k \in K : e \in A[k] \ B[k]} IN
                     Cardinality(new) <= 1 /\ new \subseteq tops(e) /\ (isres(e) => new = {}), "extra"))
      \cup Bool2Set(R = SelectSeq(els, LAMBDA e : e \in Range0(R)), "residues")
Step3Exact(els, M, comms, V, th, R, after) ==
  LET reach(e, k) == ReachesX(M[e], V[k], th)
      tops(e) == {k \in 1..Len(V) : ~\E j \in 1..Len(V) : LessX(M[e], V[k], V[j])}
  IN  Step3Of(els, comms, R, after, reach, tops)
Step3Near(els, F, M, comms, theta, R, after) ==
  LET E == Range0(els)
      V == [k \in 1..Len(comms) |-> CommVec(F, E, Range0(comms[k]))]
      s == [e \in E |-> [k \in 1..Len(comms) |-> Cosine(Enlarge(M[e]), TRUE, V[k], FALSE)]]
      reach(e, k) == Reaches(s[e][k], theta)
      tops(e) == Tops(s[e], 1..Len(comms))
  IN  Step3Of(els, comms, R, after, reach, tops)

(* ======== the recursions ======== *)
\* rs: sequence of [els, comms, res]: elements that went in, what came out
AccountClauses(first, rs, limit) ==
  LET n == Len(rs)
      els(r) == IF r = 1 THEN first ELSE rs[r - 1].res
      E(r) == Range0(els(r))
      C(r) == {Range0(rs[r].comms[k]) : k \in 1..Len(rs[r].comms)}
  IN  Bool2Set(n <= limit, "limit")
      \cup Bool2Set(\A r \in 1..n : E(r) \subseteq UNION C(r) \cup Range0(rs[r].res), "accounted")
      \cup Bool2Set(\A r \in 1..n : UNION C(r) \cup Range0(rs[r].res) \subseteq E(r) /\ IsInjectiveSeq(rs[r].res), "foreign")
      \cup Bool2Set(\A r \in 1..n : C(r) = {} => rs[r].res = els(r), "none")
      \cup Bool2Set(\A r \in 1..(n - 1) : Len(rs[r].res) < Len(els(r)), "shrink")
      \cup Bool2Set(IF n = 0 THEN first = <<>> \/ limit = 0
                    ELSE n = limit \/ Len(rs[n].res) <= 2 \/ Len(rs[n].res) = Len(els(n)), "early")
=============================================================================
