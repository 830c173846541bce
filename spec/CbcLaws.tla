------------------------------ MODULE CbcLaws ------------------------------
(***************************************************************************)
(* Exhaustive checks of the definitions of Cbc.tla.                         *)
(*  merge   similarity matrices: the greedy procedure against the clauses   *)
(*  list    lists of scored clusters: what remains after cleaning           *)
(*  link    distance matrices: average linkage and the line that cuts it    *)
(*  vec     counts: vectors of committees                                   *)
(* Skip: the procedure leaves out the nearest and the farthest committee.   *)
(***************************************************************************)
EXTENDS Cbc, Json
CONSTANTS Kind, N, Hi, Skip, Emit
VARIABLE x
Scored == {<<-1, <<e>>>> : e \in 1..N} \cup
          {<<s, SetToSortSeq(c, LAMBDA a, b : IF s = 2 THEN a < b ELSE a > b)>> : s \in 1..2, c \in {d \in SUBSET (1..N) : Cardinality(d) > 1}}
Init == x = <<"pick">>
Pick == /\ x[1] = "pick"
        /\ CASE Kind = "merge" -> \E f \in [{p \in (1..N) \X (1..N) : p[1] < p[2]} -> 0..Hi] : \E th \in 0..(Hi + 1) :
                    x' = <<"merge", [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN Hi ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]], th>>
             [] Kind = "list" -> \E n \in 0..Hi : \E l \in [1..n -> Scored] : x' = <<"list", l>>
             [] Kind = "link" -> \E f \in [{p \in (1..N) \X (1..N) : p[1] < p[2]} -> 1..Hi] :
                    x' = <<"link", [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]]>>
             [] Kind = "vec" -> \E f \in [1..N -> [1..2 -> 0..Hi]] : \E c \in SUBSET (1..N) \ {{}} : x' = <<"vec", f, c>>
        /\ (Emit /\ Kind \in {"merge", "list"} => PrintT("CASE " \o ToJson(x')))
Next == Pick

\* the procedure when it looks at the wrong end of the ranking
SkipWays(sim, theta) ==
  LET n == Len(sim)
      rank(i) == SetToSortSeq(1..n, LAMBDA a, b : sim[i][a] < sim[i][b] \/ (sim[i][a] = sim[i][b] /\ a < b))
      mid(i) == {rank(i)[k] : k \in 2..(n - 1)}
      go[i \in 1..(n + 1), used \in SUBSET (1..n)] ==
         IF i > n THEN <<>> ELSE IF i \in used THEN go[i + 1, used]
         ELSE LET free == {j \in mid(i) : j > i /\ j \notin used} IN
              IF free = {} THEN <<<<i, 0>>>> \o go[i + 1, used]
              ELSE LET j == CHOOSE j \in free : \A k \in free : sim[i][k] <= sim[i][j] IN
                   IF sim[i][j] < theta THEN <<<<i, 0>>>> \o go[i + 1, used] ELSE <<<<i, j>>>> \o go[i + 1, used \cup {j}]
  IN  {go[1, {}]}
MergeLaw == x[1] = "merge" =>
  LET ws == IF Skip THEN SkipWays(x[2], x[3]) ELSE Greedy(x[2], x[3], 1, {}) IN
  \A w \in ws : MergeClauses(x[2], x[3], w) = {}
CleanLaw == x[1] = "list" =>
  LET L == x[2]
      K == {<<BestScore(L, c), c>> : c \in Minimal(Clusters(L))}
      s == SetToSortSeq(K, LAMBDA a, b : a[1] > b[1] \/ (a[1] = b[1] /\ a # b /\ Cardinality(a[2]) <= Cardinality(b[2])))
  IN  CleanClauses(L, [i \in 1..Cardinality(K) |-> <<s[i][1], SetToSeq(s[i][2])>>], SetToSeq(Lonely(L))) = {}
LinkLaw == x[1] = "link" =>
  LET D == x[2]  ls == Link(D, {{i} : i \in 1..N}) IN
  /\ Len(ls) = N - 1
  /\ \A i \in 1..(N - 2) : ls[i].h <= ls[i + 1].h                      \* average linkage is monotone
  /\ \A i \in 1..(N - 1) : UNION ls[i].part = 1..N /\ Cardinality(ls[i].part) = N - i
  /\ ls[N - 1].h * 1 = Apart(D, CHOOSE a \in ls[N - 2].part : TRUE, CHOOSE b \in ls[N - 2].part : b # CHOOSE a \in ls[N - 2].part : TRUE)
  /\ Below(ls, <<"percent", 100>>) = N - 1 /\ Below(ls, <<"percent", 0>>) = 1
  /\ Below(ls, <<"percent", 50>>) \in {Below(ls, <<"median", 0>>)}
  /\ \A t \in 2..N : \E c \in Flat(1..N, ls, <<"minsize", t>>) : Cardinality(c) >= t
VecLaw == x[1] = "vec" => LET v == CommVec(x[2], 1..N, x[3]) IN
  /\ \A j \in 1..2 : v[j] >= 0
  /\ ~(v[1] > 0 /\ v[2] > 0)                                              \* not more than expected everywhere
  /\ x[3] = 1..N => v = <<0, 0>> \/ \E j \in 1..2 : x[2][1][j] >= 0
=============================================================================
