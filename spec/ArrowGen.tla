------------------------------ MODULE ArrowGen -------------------------------
(***************************************************************************)
(* Every small pattern tree written as an arrow expression and read back    *)
(* token by token (PatternFiles!Eat): the reader must end with that tree    *)
(* and with every bracket closed.  Variants of the reader ("flatcommas":    *)
(* a comma returns to the outermost bracket; "nocommas": a comma does not   *)
(* return) must not.  The written expressions are also printed, to be read  *)
(* by the real parser.                                                      *)
(***************************************************************************)
EXTENDS PatternFiles, Json

CONSTANTS Size, Variant, Show

VARIABLES par, dir, brk, todo, r, ph

\* node i is attached to par[i] by dir[i]; brk: nodes whose only attached node stands in brackets
Nums(n) == 1..n
\* numbering in text order: the node attached last or one of those it hangs from
RECURSIVE Line(_, _)
Line(p, i) == IF i = 1 THEN {1} ELSE {i} \cup Line(p, p[i])
InTextOrder(n, p) == \A i \in 3..n : p[i] \in Line(p, i - 1)
Kids(n, p, i) == SelectSeq([j \in 1..n |-> j], LAMBDA j : j > 1 /\ p[j] = i)
\* an upward arrow has one node, and only up from the target
Sound(n, p, d) ==
  \A i \in 2..n : d[i] = "<-" => (Len(Kids(n, p, p[i])) = 1 /\ (p[i] # 1 => d[p[i]] = "<-"))

Item(i) == [k |-> "item", s |-> "r" \o ToString(i) \o " n" \o ToString(i)]
Tok(k) == [k |-> k, s |-> ""]

RECURSIVE Written(_, _, _, _, _)
Written(n, p, d, b, i) ==
  LET ks == Kids(n, p, i)
      sub(j) == <<Item(j)>> \o Written(n, p, d, b, j)
      list == FoldLeft(LAMBDA acc, j : acc \o <<Tok(",")>> \o sub(j), sub(ks[1]), Tail(ks))
  IN  IF ks = <<>> THEN <<>>
      ELSE IF Len(ks) = 1 /\ i \notin b THEN <<Tok(d[ks[1]])>> \o sub(ks[1])
      ELSE <<Tok(d[ks[1]]), Tok("[")>> \o list \o <<Tok("]")>>

Init == par = <<>> /\ dir = <<>> /\ brk = {} /\ todo = <<>> /\ r = Start("n1") /\ ph = "pick"

Choose ==
  /\ ph = "pick" /\ ph' = "read"
  /\ \E n \in 2..Size : \E p \in [2..n -> Nums(n)] :
       /\ \A i \in 2..n : p[i] < i
       /\ InTextOrder(n, p)
       /\ \E d \in [2..n -> {"->", "<-"}] : \E b \in SUBSET {i \in 1..n : Len(Kids(n, p, i)) = 1} :
            /\ Sound(n, p, d)
            /\ par' = p /\ dir' = d /\ brk' = b
            /\ todo' = Written(n, p, d, b, 1)
            /\ (Show => PrintT("EXPR " \o ToJson([k |-> [i \in 1..Len(todo') |-> todo'[i].k], n |-> n])))
  /\ UNCHANGED r

Read ==
  /\ ph = "read" /\ todo # <<>>
  /\ r' = Eat(Variant, r, todo[1]) /\ todo' = Tail(todo)
  /\ UNCHANGED <<par, dir, brk, ph>>

Next == Choose \/ Read

Tree == {IF dir[i] = "->" THEN <<par[i], i, "r" \o ToString(i)>> ELSE <<i, par[i], "r" \o ToString(i)>> : i \in DOMAIN par}

ReadsBack ==
  (ph = "read" /\ todo = <<>>) =>
    /\ Range0(r.edges) = Tree /\ Len(r.edges) = Cardinality(Tree)
    /\ r.nodes = [i \in 1..(Cardinality(DOMAIN par) + 1) |-> "n" \o ToString(i)]
    /\ r.stack = <<>>

\* never two heads
OneHead == \A i, j \in 1..Len(r.edges) : r.edges[i][2] = r.edges[j][2] => i = j
=============================================================================
