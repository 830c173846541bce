----------------------------- MODULE AssocLaws -----------------------------
(***************************************************************************)
(* Exhaustive checks of the definitions of Assoc.tla: a state is one 2x2    *)
(* table of counts, or one row of values.                                   *)
(***************************************************************************)
EXTENDS Assoc
CONSTANT MaxN, Wide
VARIABLE x
Vals == {-2, 0, 1, 3}
Vec == [1..Wide -> Vals]
Init == x \in {<<"table", t>> : t \in Tables(MaxN)} \cup {<<"row", v>> : v \in Vec}
Next == FALSE /\ x' = x
LogTable == x = x /\ LnLaws
Laws == x[1] = "table" => MeasureLaw(x[2])
\* every question for neighbours has an answer
Neighbours == x[1] = "row" => \A self \in 1..Wide, k \in 0..(Wide + 1), d \in BOOLEAN : NearestExists(x[2], self, k, d)
\* distances are symmetric, and zero from an item to itself
Metric == x[1] = "row" => LET a == x[2] IN
  /\ \A b \in Vec : \A y \in {0, 1, Unit - 1, Unit, 2 * Unit} :
        \A m \in {"l1", "l2", "cosine"} : DistOk(m, a, b, FALSE, y) <=> DistOk(m, b, a, FALSE, y)
  /\ DistOk("l1", a, a, TRUE, 0) /\ DistOk("l2", a, a, TRUE, 0) /\ DistOk("l2", a, a, FALSE, 0)
  /\ DistOk("cosine", a, a, TRUE, 0) /\ ((\E i \in 1..Wide : a[i] # 0) => DistOk("cosine", a, a, FALSE, 0))
Normal == x[1] = "row" => LET v == x[2]
                              n == FoldSet(LAMBDA i, b : b + Abs(v[i]), 0, 1..Wide) IN
  n # 0 => Abs(FoldSet(LAMBDA j, a : a + Abs(Div(v[j], n)), 0, 1..Wide) - Unit) <= Wide
=============================================================================
