----------------------------- MODULE MatrixGen -----------------------------
(***************************************************************************)
(* Behaviours over a heap of matrices: random ones (-simulate) are replayed *)
(* into the real code; the laws are checked over every pair of small        *)
(* matrices.                                                                *)
(***************************************************************************)
EXTENDS Util, Json
CONSTANTS Starts, MaxObj, Depth, Emit, Fam, Wide

Alpha == "/0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rk0 == RankIn(Alpha)
M == INSTANCE Matrix WITH Rk <- Rk0

VARIABLES h, init, hist
vars == <<h, init, hist>>

Labels == {"a/N", "b/N", "c/N", "d/N", "B/N"}
Values == IF Wide THEN {-3, -1, 0, 0, 1, 1, 2, 5} ELSE {-1, 0, 1}
None == 99                                   \* no recorded cell
Pick(S) == RandomElement(S)

\* a random sequence of n different labels
Shuffle(S, n) == CHOOSE s \in {Pick({q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j]})} : TRUE
\* random cells, built one by one (a function constructor would draw again
\* each time it is applied)
RandomCells(n, k, dense) ==
  FoldSet(LAMBDA p, acc : acc @@ (p :> Pick(IF dense THEN Values ELSE Values \cup {None, None + 1})),
          <<>>, (1..n) \X (1..k))
Matrix(rs, cs, dense, vs) ==
  [rows |-> rs, cols |-> cs, dense |-> dense, mask |-> FALSE,
   f |-> [p \in {q \in DOMAIN vs : vs[q] < None} |-> vs[p]]]

Start ==
  /\ Len(h) < Starts
  /\ \E n \in {Pick(1..3)}, k \in {Pick(1..3)} :
     \E rs \in {IF h # <<>> /\ Pick(1..2) = 1 THEN h[1].rows ELSE Shuffle(Labels, n)} :
     \E cs \in {IF h # <<>> /\ Pick(1..3) = 1 THEN h[1].cols ELSE Shuffle(Labels, k)} :
     \E d \in {Pick({TRUE, FALSE, FALSE})} :
     \E vs \in {RandomCells(Len(rs), Len(cs), d)} : \E m \in {Matrix(rs, cs, d, vs)} :
       /\ h' = Append(h, m)
       /\ init' = Append(init, [rows |-> m.rows, cols |-> m.cols, dense |-> m.dense, mask |-> FALSE,
                                cells |-> SetToSeq({<<p[1], p[2], m.f[p]>> : p \in DOMAIN m.f})])
       /\ hist' = hist

Base == [x |-> 1, y |-> 1, ys |-> <<>>, hr |-> 0, nr |-> <<>>, hc |-> 0, nc |-> <<>>, axis |-> 0, n |-> 0,
         cmp |-> "<", ga |-> <<"-">>, gb |-> <<"-">>]
B(x, f) == [Base EXCEPT !.x = x] @@ [f |-> f]

\* a random arrangement of some of the labels and perhaps an unknown one
Some(s, extra) == LET n == Pick(0..Len(s))
                      t == IF n = 0 THEN <<>> ELSE Shuffle(Range0(s), n)
                  IN  IF extra = 1 THEN <<"q/N">> \o t ELSE t
Perm(s) == Shuffle(Range0(s), Len(s))
Arg(s) == CASE Pick(1..4) = 1 -> <<"i", Pick(1..Len(s))>>
            [] Pick(1..3) = 1 -> <<"s", Pick(1..Len(s)), Pick(1..Len(s))>>
            [] Pick(1..4) = 1 -> <<"-">>
            [] OTHER -> <<"n", s[Pick(1..Len(s))]>>

Op(x, f) ==
  LET m == h[x] IN
  CASE f = "sub" -> LET r == Pick(0..1) c == IF r = 0 THEN 1 ELSE Pick(0..1) IN
                    [B(x, f) EXCEPT !.hr = r, !.nr = IF r = 1 THEN Some(m.rows, Pick(0..2)) ELSE <<>>,
                                    !.hc = c, !.nc = IF c = 1 THEN Some(m.cols, Pick(0..2)) ELSE <<>>]
    [] f = "reorder" -> LET a == Pick(0..1) IN [B(x, f) EXCEPT !.axis = a, !.nr = Perm(IF a = 0 THEN m.rows ELSE m.cols)]
    [] f = "csv" -> [B(x, f) EXCEPT !.cmp = Pick({"\t", ",", ";"}), !.n = Pick(0..1)]
    [] f = "show" -> [B(x, f) EXCEPT !.n = Pick(0..3), !.axis = Pick(0..3)]
    [] f \in {"drop", "count"} -> [B(x, f) EXCEPT !.axis = Pick(0..1), !.n = Pick(0..2)]
    [] f = "drop_empty" -> [B(x, f) EXCEPT !.axis = Pick(0..1), !.n = Pick(0..1)]
    [] f = "empty_rows" -> [B(x, f) EXCEPT !.n = Pick(0..1)]
    [] f = "mask" -> [B(x, f) EXCEPT !.cmp = Pick({"<", "<=", ">", ">="}), !.n = Pick(-2..3)]
    [] f \in {"merge", "merge2", "equal", "mult"} -> [B(x, f) EXCEPT !.y = Pick(1..Len(h))]
    [] f = "mergeall" -> [B(x, f) EXCEPT !.ys = [i \in 1..Pick(1..3) |-> IF i = 1 THEN x ELSE Pick(1..Len(h))]]
    [] f = "concat" -> [B(x, f) EXCEPT !.y = Pick(1..Len(h)), !.axis = Pick(0..1)]
    [] f = "sum" -> [B(x, f) EXCEPT !.axis = Pick(0..2)]
    [] f = "get" -> [B(x, f) EXCEPT !.ga = Arg(m.rows), !.gb = Arg(m.cols)]
    [] f = "colloc" -> [B(x, f) EXCEPT !.nr = <<m.rows[Pick(1..Len(m.rows))]>>]
    [] OTHER -> B(x, f)

Disjoint(s, t) == Range0(s) \cap Range0(t) = {}
Lone(m) == \* a row or column with nothing but recorded zeros
  \/ \E i \in 1..Len(m.rows) : M!RowNonZero(m, i) = 0 /\ \E p \in DOMAIN m.f : p[1] = i
  \/ \E j \in 1..Len(m.cols) : M!ColNonZero(m, j) = 0 /\ \E p \in DOMAIN m.f : p[2] = j
Values01(m) == {m.f[p] : p \in DOMAIN m.f}

Allowed(o) ==
  LET m == h[o.x]  k == h[o.y] IN
  /\ ~M!MayRefuse(m, o)
  /\ (m.mask => o.f \in {"sub", "reorder", "transpose", "copy", "todense", "get", "count", "drop", "equal", "mult", "frame", "copyout", "show"})
  /\ CASE o.f = "mult" -> ~m.mask /\ k.mask /\ m.dense = k.dense /\ m.rows = k.rows /\ m.cols = k.cols
       [] o.f = "equal" -> m.mask = k.mask /\ m.dense = k.dense /\ (0 \notin Values01(m) \cup Values01(k) \/ m.dense)
       [] o.f \in {"merge", "merge2"} -> ~k.mask /\ m.dense = k.dense /\ (o.f = "merge" => ~k.dense)
                                /\ (m.dense => m.rows = k.rows /\ m.cols = k.cols)
                                /\ (o.f = "merge2" => m.rows = k.rows)
                                /\ (DOMAIN m.f # {} \/ DOMAIN k.f # {})
       [] o.f = "mergeall" ->
            (\/ \A i \in 1..Len(o.ys) : (~h[o.ys[i]].mask /\ ~h[o.ys[i]].dense /\ DOMAIN h[o.ys[i]].f # {})
             \/ \A i \in 1..Len(o.ys) : LET e == h[o.ys[i]] IN
                  (~e.mask /\ e.dense = m.dense /\ e.rows = m.rows /\ e.cols = m.cols))
       [] o.f = "concat" -> /\ m.dense = k.dense /\ ~k.mask
                            /\ IF o.axis = 0 THEN m.cols = k.cols /\ Disjoint(m.rows, k.rows)
                               ELSE m.rows = k.rows /\ Disjoint(m.cols, k.cols)
       [] o.f = "csv" -> ~m.mask
       [] o.f = "todense" -> ~m.dense
       [] o.f = "drop_empty" -> ~m.dense /\ ~Lone(m)
       [] o.f = "dict" -> ~m.dense /\ DOMAIN m.f # {}
       [] o.f = "mask" -> ~(o.n = 0 /\ o.cmp \in {"<=", ">="} /\ ~m.dense)
       [] OTHER -> TRUE

Creates(o) == o.f \in M!Makers \cup {"drop_empty"}
Apply(o) == IF ~Creates(o) THEN h
            ELSE LET e == IF o.f = "drop_empty" THEN M!Drop(h[o.x], o.axis, 0) ELSE M!Made(h, o) IN
                 IF e.rows = <<>> \/ e.cols = <<>> THEN h ELSE Append(h, e)

Do(o) == /\ Allowed(o)
         /\ h' = Apply(o)
         /\ hist' = Append(hist, o)
         /\ init' = init

Random ==
  IF Len(init) < Starts THEN Start
  ELSE \E x \in {Pick(1..Len(h))} :
       \E f \in {Pick(IF Len(h) < MaxObj THEN Fam ELSE {g \in Fam : g \notin M!Makers \cup {"drop_empty"}})} :
       \E o \in {Op(x, f)} : IF Allowed(o) THEN Do(o) ELSE UNCHANGED vars

InitGen == h = <<>> /\ init = <<>> /\ hist = <<>>
Out == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson([init |-> init, ops |-> hist]))

(* ---- laws over every pair of small matrices ---- *)
Small(rs, cs, vals) ==
  {[rows |-> rs, cols |-> cs, dense |-> FALSE, mask |-> FALSE, f |-> [p \in {q \in DOMAIN vs : vs[q] # None} |-> vs[p]]] :
     vs \in [(1..Len(rs)) \X (1..Len(cs)) -> vals \cup {None}]}
InitLaws == /\ h \in {<<a, b>> : a \in Small(<<"b/N", "a/N">>, <<"y", "x">>, {-1, 0, 2}),
                                 b \in Small(<<"a/N", "c/N">>, <<"x">>, {0, 1})}
            /\ init = <<>> /\ hist = <<>>
NoStep == FALSE /\ UNCHANGED vars
ByName == LET m == h[1]  names == {<<"a/N">>, <<"a/N", "b/N">>, <<"q/N", "b/N">>} IN
  /\ \A s \in names : \A t \in M!Labelled(M!Sub(m, TRUE, s, FALSE, <<>>)) : t \in M!Labelled(m)
  /\ \A s \in names : \A t \in M!Labelled(m) : (t[1] \in Range0(s) <=> t \in M!Labelled(M!Sub(m, TRUE, s, FALSE, <<>>)))
  /\ M!Transpose(M!Transpose(m)) = m
  /\ M!Labelled(M!Transpose(m)) = {<<t[2], t[1], t[3]>> : t \in M!Labelled(m)}
  /\ M!Sub(M!Sub(m, TRUE, <<"a/N", "b/N">>, FALSE, <<>>), TRUE, m.rows, FALSE, <<>>) = m
  /\ M!Transpose(M!Sub(m, TRUE, <<"a/N">>, FALSE, <<>>)) = M!Sub(M!Transpose(m), FALSE, <<>>, TRUE, <<"a/N">>)
  /\ M!Labelled(M!ToDense(m)) = M!Labelled(m)
  /\ M!Labelled(M!Drop(m, 0, 0)) = M!Labelled(m)
Sums == LET m == h[1] IN
  /\ M!SumOver(LAMBDA i : M!RowSum(m, i), 1..Len(m.rows)) = M!Total(m)
  /\ M!SumOver(LAMBDA j : M!ColSum(m, j), 1..Len(m.cols)) = M!Total(m)
Thresholds == LET m == h[1] IN \A n \in -1..2 :
  /\ M!Marks(m, "<", n) \cup M!Marks(m, ">=", n) = DOMAIN m.f
  /\ M!Marks(m, "<", n) \cap M!Marks(m, ">=", n) = {}
  /\ \A c \in {"<", ">="} : DOMAIN M!Masked(m, M!MaskOf(m, c, n)).f = M!Marks(m, c, n)
MergeLaws == LET a == h[1]  b == h[2]
                 g(s) == M!Merge(s, M!UnionAll([k \in 1..Len(s) |-> s[k].rows]), M!UnionAll([k \in 1..Len(s) |-> s[k].cols])) IN
  /\ g(<<a, b>>) = g(<<b, a>>)
  /\ g(<<g(<<a, b>>), a>>) = g(<<a, b, a>>)
  /\ M!Total(g(<<a, b>>)) = M!Total(a) + M!Total(b)
  /\ M!Labelled(M!Sub(g(<<a, b>>), TRUE, a.rows, TRUE, a.cols)) =
       {t \in M!Labelled(g(<<a, b>>)) : t[1] \in Range0(a.rows) /\ t[2] \in Range0(a.cols)}
=============================================================================
