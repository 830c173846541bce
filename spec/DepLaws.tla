------------------------------ MODULE DepLaws -------------------------------
(***************************************************************************)
(* Matching as a machine: a queue of partial assignments, each extended by  *)
(* one pattern node at a time, top down.  Run over every small dependency   *)
(* tree and pattern it must end with exactly the embeddings as defined;     *)
(* known wrong variants must not.  The same states carry laws of the        *)
(* definitions: features do not show the target and do not depend on the    *)
(* order of siblings.                                                       *)
(*   Variant: "right", "shared" (two pattern nodes may take one word),      *)
(*            "first" (only the first fitting child is tried),              *)
(*            "emptyfails" (a node without constraints fits nothing)        *)
(***************************************************************************)
EXTENDS DepMatch

CONSTANTS SentSize, PatSize, Words, Rels, Variant, Root0

VARIABLES S, P, M, q, found, ph

Rk == RankIn("#$()*+,-./0123456789:>ABCDEFGHIJKLMNOPQRSTUVWXYZ[]abcdefghijklmnopqrstuvwxyz")

Trees(n) == {p \in [2..n -> 1..n] : \A i \in 2..n : p[i] < i}

Sent(p, w, r) ==
  LET n == Len(w) IN
  [nodes |-> [i \in 1..n |-> [id |-> i, at |-> <<<<"w", w[i]>>>>]]
             \o (IF Root0 THEN <<[id |-> 0, at |-> <<>>]>> ELSE <<>>),
   edges |-> [i \in 1..(n - 1) |-> [h |-> p[i + 1], d |-> i + 1, at |-> <<<<"r", r[i + 1]>>>>]]
             \o (IF Root0 THEN <<[h |-> 0, d |-> 1, at |-> <<<<"r", "root">>>>]>> ELSE <<>>)]

AnyWord == [pat |-> <<<<"word", "/">>>>, grp |-> <<<<1, 1>>>>]
Lit(w) == [pat |-> <<<<"lit", w>>>>, grp |-> <<<<1, 1>>>>]
Con(n, k) == IF k = "none" THEN <<>> ELSE IF k = "*" THEN <<[n |-> n, c |-> AnyWord]>> ELSE <<[n |-> n, c |-> Lit(k)]>>

Patt(p, w, r) ==
  LET n == Len(w) IN
  [nodes |-> [i \in 1..n |-> [id |-> i, con |-> Con("w", w[i])]],
   edges |-> [i \in 1..(n - 1) |-> [h |-> p[i + 1], d |-> i + 1, con |-> Con("r", r[i + 1])]]]

\* the root of the pattern is unconstrained in one of the choices
Kinds == Words \cup {"*"}

Init ==
  /\ \E n \in 1..SentSize : \E p \in Trees(n) : \E w \in [1..n -> Words] : \E r \in [1..n -> Rels] :
       /\ (IF n > 1 THEN r[1] = r[2] ELSE TRUE)
       /\ S = Sent(p, w, r)
  /\ P = [nodes |-> <<>>, edges |-> <<>>] /\ M = <<>> /\ q = <<>> /\ found = {} /\ ph = "pick"

Pick ==
  /\ ph = "pick" /\ ph' = "run"
  /\ \E n \in 1..PatSize : \E p \in Trees(n) : \E w \in [1..n -> Kinds] : \E k \in {"*", "none"} : \E r \in Rels : \E t \in 1..n :
       /\ P' = Patt(p, [w EXCEPT ![n] = IF k = "none" THEN "none" ELSE @], [i \in 1..n |-> IF i = 2 THEN r ELSE "*"])
       /\ M' = [pat |-> 1, t |-> t, f |-> -1, tf |-> <<<<"w", 1>>>>, ff |-> <<<<"w", 1>>>>, ef |-> <<<<"r", 1>>>>]
  /\ q' = (IF IsTree(S) THEN <<<<>>>> ELSE <<>>)
  /\ found' = {}
  /\ UNCHANGED S

Order == TopDown(P, <<>>)

Fits(p, s) == IF Variant = "emptyfails" /\ NodeOf(P, p).con = <<>> THEN FALSE ELSE NodeFits(P, S, p, s)

\* the words a partial assignment (as a sequence along Order) may take next
Candidates(a) ==
  LET p == Order[Len(a) + 1] IN
  IF Len(a) = 0 THEN {s \in Ids(S) : Fits(p, s)}
  ELSE LET h == CHOOSE x \in Heads(P, p) : TRUE
           hs == a[CHOOSE i \in 1..Len(a) : Order[i] = h]
       IN  {s \in Children(S, hs) :
              /\ (Variant = "shared" \/ s \notin Range0(a))
              /\ Fits(p, s)
              /\ EdgeFits(P, S, EdgeOf(P, h, p), EdgeOf(S, hs, s))}

Work ==
  /\ ph = "run" /\ q # <<>>
  /\ LET a == q[1]
         c0 == SetToSortSeq(Candidates(a), <)
         c == IF Variant = "first" /\ Len(c0) > 1 THEN <<c0[1]>> ELSE c0 IN
     IF Len(a) = Len(Order)
     THEN /\ found' = found \cup {[p \in Ids(P) |-> a[CHOOSE i \in 1..Len(a) : Order[i] = p]]}
          /\ q' = Tail(q)
     ELSE /\ q' = Tail(q) \o [i \in 1..Len(c) |-> Append(a, c[i])]
          /\ UNCHANGED found
  /\ UNCHANGED <<S, P, M, ph>>

Next == Pick \/ Work

Complete == ph = "run" /\ q = <<>> => found = EmbeddingsByDefinition(P, S)
TwoWays == q = <<<<>>>> => Embeddings(P, S) = EmbeddingsByDefinition(P, S)

\* the same sentence with the order of the words turned round
Turned == LET z(x) == IF x = 0 THEN 0 ELSE 90 - x
              e(i) == S.edges[Len(S.edges) + 1 - i]
              n(i) == S.nodes[Len(S.nodes) + 1 - i] IN
          [nodes |-> [i \in 1..Len(S.nodes) |-> [id |-> z(n(i).id), at |-> n(i).at]],
           edges |-> [i \in 1..Len(S.edges) |-> [h |-> z(e(i).h), d |-> z(e(i).d), at |-> e(i).at]]]

Labelled(X) == \A i \in 1..Len(P.nodes) : P.nodes[i].con # <<>>
Bag(X) == LET E == Embeddings(P, X)
              lab == [m \in E |-> <<TargetType(M, P, X, m), FullFeature(Rk, M, P, X, m)>>]
          IN  [k \in {lab[m] : m \in E} |-> Cardinality({m \in E : lab[m] = k})]
OrderFree == q = <<<<>>>> /\ Labelled(S) => Bag(S) = Bag(Turned)

\* the feature of a match stays when only the target's word changes
Swap(X, x, v) == [X EXCEPT !.nodes = [i \in 1..Len(@) |-> IF @[i].id = x THEN [@[i] EXCEPT !.at = <<<<"w", v>>>>] ELSE @[i]]]
Hidden == q = <<<<>>>> /\ Labelled(S) =>
  \A m \in Embeddings(P, S) : \A v \in Words :
    LET X == Swap(S, m[M.t], v) IN FullFeature(Rk, M, P, X, m) = FullFeature(Rk, M, P, S, m)
=============================================================================
