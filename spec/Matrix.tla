------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* Labelled matrices and everything that rearranges, thresholds, multiplies *)
(* or merges them.  A matrix is a record                                    *)
(*   rows, cols : sequences of labels        dense : BOOLEAN                *)
(*   mask : BOOLEAN (a matrix of marks, value 1)                            *)
(*   f : function from recorded positions <<i, j>> to integers              *)
(* A dense matrix records every position; a sparse one may record zeros.    *)
(* Values are integers in a fixed unit chosen by the case.                  *)
(***************************************************************************)
EXTENDS Util
CONSTANT Rk                                    \* order of characters

Pos(m) == (1..Len(m.rows)) \X (1..Len(m.cols))
At(m, i, j) == IF <<i, j>> \in DOMAIN m.f THEN m.f[<<i, j>>] ELSE 0
NonZero(m) == {p \in DOMAIN m.f : m.f[p] # 0}
Same(a, b) ==                                  \* up to recorded zeros
  /\ a.rows = b.rows /\ a.cols = b.cols /\ a.dense = b.dense /\ a.mask = b.mask
  /\ NonZero(a) = NonZero(b)
  /\ \A p \in NonZero(a) : a.f[p] = b.f[p]
Labelled(m) == {<<m.rows[p[1]], m.cols[p[2]], m.f[p]>> : p \in NonZero(m)}
ValueOf(m, r, c) ==
  LET I == {i \in 1..Len(m.rows) : m.rows[i] = r}
      J == {j \in 1..Len(m.cols) : m.cols[j] = c}
  IN  IF I = {} \/ J = {} THEN 0 ELSE At(m, Max(I), Max(J))
Proper(m) == IsInjectiveSeq(m.rows) /\ IsInjectiveSeq(m.cols)

\* new matrix from positions: rs, cs sequences of old row / column numbers
Take(m, rs, cs) ==
  [m EXCEPT !.rows = [i \in 1..Len(rs) |-> m.rows[rs[i]]],
            !.cols = [j \in 1..Len(cs) |-> m.cols[cs[j]]],
            !.f = [p \in {q \in (1..Len(rs)) \X (1..Len(cs)) : <<rs[q[1]], cs[q[2]]>> \in DOMAIN m.f}
                     |-> m.f[<<rs[p[1]], cs[p[2]]>>]]]
All(s) == [i \in 1..Len(s) |-> i]
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Known(names, s) == SelectSeq(names, LAMBDA x : x \in Range0(s))
Numbers(names, s) == LET k == Known(names, s) IN [i \in 1..Len(k) |-> IndexIn(s, k[i])]
Where(s, Test(_)) == SelectSeq(All(s), Test)

Sub(m, hr, nr, hc, nc) ==
  Take(m, IF hr THEN Numbers(nr, m.rows) ELSE All(m.rows),
          IF hc THEN Numbers(nc, m.cols) ELSE All(m.cols))
Reorder(m, names, axis) == IF axis = 0 THEN Sub(m, TRUE, names, FALSE, <<>>)
                                       ELSE Sub(m, FALSE, <<>>, TRUE, names)
Transpose(m) == [m EXCEPT !.rows = m.cols, !.cols = m.rows,
                          !.f = [p \in {<<q[2], q[1]>> : q \in DOMAIN m.f} |-> m.f[<<p[2], p[1]>>]]]
ToDense(m) == [m EXCEPT !.dense = TRUE, !.f = [p \in Pos(m) |-> At(m, p[1], p[2])]]

RowNonZero(m, i) == Cardinality({p \in NonZero(m) : p[1] = i})
ColNonZero(m, j) == Cardinality({p \in NonZero(m) : p[2] = j})
Drop(m, axis, n) ==
  IF axis = 0 THEN Take(m, Where(m.rows, LAMBDA i : RowNonZero(m, i) > n), All(m.cols))
              ELSE Take(m, All(m.rows), Where(m.cols, LAMBDA j : ColNonZero(m, j) > n))

SumOver(F(_), S) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
RowSum(m, i) == SumOver(LAMBDA p : m.f[p], {p \in NonZero(m) : p[1] = i})
ColSum(m, j) == SumOver(LAMBDA p : m.f[p], {p \in NonZero(m) : p[2] = j})
Total(m) == SumOver(LAMBDA p : m.f[p], NonZero(m))

(* ---- thresholds ---- *)
Cmp(v, c, n) == CASE c = "<" -> v < n [] c = "<=" -> v <= n [] c = ">" -> v > n [] c = ">=" -> v >= n
\* recorded cells are marked exactly; cells not recorded may be marked only
\* for <= 0 and >= 0, which they satisfy
Marks(m, c, n) == {p \in DOMAIN m.f : Cmp(m.f[p], c, n)}
MayMark(m, c, n) == IF n = 0 /\ c \in {"<=", ">="} THEN Pos(m) \ DOMAIN m.f ELSE {}
MaskOf(m, c, n) == [m EXCEPT !.mask = TRUE,
                             !.f = IF m.dense THEN [p \in Pos(m) |-> IF p \in Marks(m, c, n) THEN 1 ELSE 0]
                                   ELSE [p \in Marks(m, c, n) |-> 1]]
Masked(m, k) == \* k a mask of the same shape
  IF m.dense THEN [m EXCEPT !.f = [p \in Pos(m) |-> IF p \in NonZero(k) THEN m.f[p] ELSE 0]]
  ELSE [m EXCEPT !.f = [p \in DOMAIN m.f \cap NonZero(k) |-> m.f[p]]]

(* ---- merging ---- *)
UnionLabels(a, b) == SortStrings(Rk, Range0(a) \cup Range0(b))
\* the labels and values of the merge of a sequence of matrices
Merge(ms, rs, cs) ==
  LET v(i, j) == SumSeq([k \in 1..Len(ms) |-> ValueOf(ms[k], rs[i], cs[j])])
      rec == {p \in (1..Len(rs)) \X (1..Len(cs)) : v(p[1], p[2]) # 0}
  IN  [rows |-> rs, cols |-> cs, dense |-> ms[1].dense, mask |-> FALSE,
       f |-> IF ms[1].dense THEN [p \in (1..Len(rs)) \X (1..Len(cs)) |-> v(p[1], p[2])]
             ELSE [p \in rec |-> v(p[1], p[2])]]
UnionAll(ls) == SortStrings(Rk, UNION {Range0(ls[i]) : i \in 1..Len(ls)})
AllSame(ls) == \A i \in 1..Len(ls) : ls[i] = ls[1]
MergeRows(ms) == LET ls == [k \in 1..Len(ms) |-> ms[k].rows] IN IF AllSame(ls) THEN ls[1] ELSE UnionAll(ls)
MergeCols(ms) == LET ls == [k \in 1..Len(ms) |-> ms[k].cols] IN IF AllSame(ls) THEN ls[1] ELSE UnionAll(ls)
Concat(a, b, axis) ==
  IF axis = 0
  THEN [a EXCEPT !.rows = a.rows \o b.rows,
                 !.f = [p \in DOMAIN a.f \cup {<<q[1] + Len(a.rows), q[2]>> : q \in DOMAIN b.f} |->
                          IF p[1] <= Len(a.rows) THEN a.f[p] ELSE b.f[<<p[1] - Len(a.rows), p[2]>>]]]
  ELSE [a EXCEPT !.cols = a.cols \o b.cols,
                 !.f = [p \in DOMAIN a.f \cup {<<q[1], q[2] + Len(a.cols)>> : q \in DOMAIN b.f} |->
                          IF p[2] <= Len(a.cols) THEN a.f[p] ELSE b.f[<<p[1], p[2] - Len(a.cols)>>]]]

(* ---- lookups: a, b are <<"n", label>>, <<"i", number>>, <<"s", from, to>> or <<"-">> ---- *)
Sel(a, s) == CASE a[1] = "n" -> <<IndexIn(s, a[2])>>
               [] a[1] = "i" -> <<a[2]>>
               [] a[1] = "s" -> SelectSeq(All(s), LAMBDA i : i >= a[2] /\ i <= a[3])
               [] a[1] = "-" -> All(s)
Lookup(m, a, b) == LET rs == Sel(a, m.rows)  cs == Sel(b, m.cols)
                       n == Len(cs)
                   IN  [k \in 1..(Len(rs) * n) |-> At(m, rs[(k - 1) \div n + 1], cs[((k - 1) % n) + 1])]

(* ---- what an operation must return and create ---- *)
\* kinds of operation
Reading == {"get", "sum", "count", "empty_rows", "equal", "frame", "colloc", "copyout", "show", "todict"}
Makers  == {"csv", "sub", "reorder", "transpose", "todense", "copy", "drop", "mask", "mult", "merge", "merge2", "mergeall", "concat", "dict"}
Pairwise == {"mult", "merge", "merge2", "concat"}

IsSquare(m) == \* symmetric values under equal labels: rearranging it may be refused
  /\ m.dense /\ m.rows = m.cols
  /\ \A p \in Pos(m) : m.f[p] = m.f[<<p[2], p[1]>>]

\* operations that may answer "not supported" instead
MayRefuse(m, o) ==
  \/ m.dense /\ o.f \in {"drop", "drop_empty", "empty_rows", "colloc", "merge", "todict"}
  \/ IsSquare(m) /\ o.f \in {"reorder", "transpose", "mask", "mult", "concat"}

\* the new matrix, when the operation makes exactly one
Made(h, o) ==
  LET m == h[o.x] IN
  CASE o.f = "sub"       -> Sub(m, o.hr = 1, o.nr, o.hc = 1, o.nc)
    [] o.f = "reorder"   -> Reorder(m, o.nr, o.axis)
    [] o.f = "transpose" -> Transpose(m)
    [] o.f = "todense"   -> ToDense(m)
    [] o.f \in {"copy", "dict", "csv"} -> m
    [] o.f = "drop"      -> Drop(m, o.axis, o.n)
    [] o.f = "mask"      -> MaskOf(m, o.cmp, o.n)
    [] o.f = "mult"      -> Masked(m, h[o.y])
    [] o.f = "merge"     -> Merge(<<m, h[o.y]>>, UnionLabels(m.rows, h[o.y].rows), UnionLabels(m.cols, h[o.y].cols))
    [] o.f = "merge2"    -> Merge(<<m, h[o.y]>>, MergeRows(<<m, h[o.y]>>), MergeCols(<<m, h[o.y]>>))
    [] o.f = "mergeall"  -> LET ms == [k \in 1..Len(o.ys) |-> h[o.ys[k]]] IN Merge(ms, MergeRows(ms), MergeCols(ms))
    [] o.f = "concat"    -> Concat(m, h[o.y], o.axis)

Nothing == 99999                               \* a cell that is not recorded, shown as NaN
\* size of the printed part
Shown(m, o) == [r |-> Min({Len(m.rows), IF o.n = 0 THEN 7 ELSE o.n}),
                c |-> Min({Len(m.cols), IF o.n = 0 \/ o.axis = 0 THEN IF o.n = 0 THEN 7 ELSE Len(m.cols) ELSE o.axis})]

Returned(h, o) ==
  LET m == h[o.x] IN
  CASE o.f = "get"   -> Lookup(m, o.ga, o.gb)
    [] o.f = "sum"   -> IF o.axis = 2 THEN <<Total(m)>>
                        ELSE IF o.axis = 1 THEN [i \in 1..Len(m.rows) |-> RowSum(m, i)]
                        ELSE [j \in 1..Len(m.cols) |-> ColSum(m, j)]
    [] o.f = "count" -> IF o.axis = 0 THEN [i \in 1..Len(m.rows) |-> RowNonZero(m, i)]
                        ELSE [j \in 1..Len(m.cols) |-> ColNonZero(m, j)]
    [] o.f = "equal" -> <<IF m.rows = h[o.y].rows /\ m.cols = h[o.y].cols /\
                             (\A p \in Pos(m) : At(m, p[1], p[2]) = At(h[o.y], p[1], p[2])) THEN 1 ELSE 0>>
    [] o.f = "show" -> LET nr == Shown(m, o).r  nc == Shown(m, o).c IN
                       [k \in 1..(nr * nc) |->
                          LET p == <<(k - 1) \div nc + 1, ((k - 1) % nc) + 1>> IN
                          IF p \in DOMAIN m.f THEN m.f[p] ELSE Nothing]
    [] o.f = "frame" -> Lookup(m, <<"-">>, <<"-">>)
    [] OTHER -> <<>>
=============================================================================
