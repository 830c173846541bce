---------------------------- MODULE PatternFiles -----------------------------
(***************************************************************************)
(* What pattern files, macro files and arrow expressions denote.            *)
(*  pattern document  keys   : sequence of [what, name, has, val]           *)
(*                    graphs : sequence of [id, nodes, edges]               *)
(*                    nodes  : sequence of [id, data]                       *)
(*                    edges  : sequence of [h, d, data]                     *)
(*                    data   : sequence of <<name, text>>                   *)
(*  macro document    tf, ff : sequences of <<attribute, group>>            *)
(*                    ef     : attribute                                    *)
(*                    macs   : sequence of [id, pat, t, f, td, fd]          *)
(*                             (f = -1: no feature node)                    *)
(***************************************************************************)
EXTENDS Util

(* ---- pattern files ---- *)
Said(data) == {<<data[i][1], data[i][2]>> : i \in 1..Len(data)}
\* declared default values fill in what is not said
Filled(doc, what, data) ==
  Said(data) \cup {<<doc.keys[i].name, doc.keys[i].val>> :
                     i \in {k \in 1..Len(doc.keys) : /\ doc.keys[k].what = what /\ doc.keys[k].has
                                                     /\ ~\E x \in Said(data) : x[1] = doc.keys[k].name}}

NodesOf(doc, g) == {<<g.nodes[i].id, Filled(doc, "node", g.nodes[i].data)>> : i \in 1..Len(g.nodes)}
EdgesOf(doc, g) == {<<g.edges[i].h, g.edges[i].d, Filled(doc, "edge", g.edges[i].data)>> : i \in 1..Len(g.edges)}

\* a chain: no node has more than two neighbours (nodes, edges: sets as above)
Chain(ns, es) == \A n \in ns : Cardinality({e \in es : e[1] = n[1] \/ e[2] = n[1]}) <= 2

(* ---- arrow expressions ----
   a token is [k, s]; k: "->" (the next node is a child), "<-" (its head),
   "[", ",", "]", "item" (s: relation, blank, node) *)
Special == {"[", "]", ","}
RECURSIVE Lex(_)
Lex(s0) ==
  LET s == Strip(s0) IN
  IF s = "" THEN <<>>
  ELSE IF StartsWith(s, "->") \/ StartsWith(s, "<-")
       THEN <<[k |-> SubSeq(s, 1, 2), s |-> ""]>> \o Lex(SubSeq(s, 3, Len(s)))
  ELSE IF Char(s, 1) \in Special THEN <<[k |-> Char(s, 1), s |-> ""]>> \o Lex(SubSeq(s, 2, Len(s)))
  ELSE LET stops == {i \in 1..Len(s) : Char(s, i) \in Special \/ (i < Len(s) /\ SubSeq(s, i, i + 1) \in {"->", "<-"})}
           e == IF stops = {} THEN Len(s) ELSE Min(stops) - 1
       IN  <<[k |-> "item", s |-> Strip(SubSeq(s, 1, e))]>> \o Lex(SubSeq(s, e + 1, Len(s)))

RelOf(item) == LET i == IndexOf(item, " ") IN SubSeq(item, 1, i - 1)
NodeOfItem(item) == LET i == IndexOf(item, " ") IN Strip(SubSeq(item, i, Len(item)))

\* the reader: nodes in text order (1 is the target), edges <<head, child, relation>>,
\* cur: the node the next item is attached to, dir: how, stack: what the
\* brackets opened so far return to
Start(target) == [nodes |-> <<target>>, edges |-> <<>>, cur |-> 1, dir |-> "->", stack |-> <<>>]
Variants == {"right", "flatcommas", "nocommas"}
Eat(V, r, t) ==
  CASE t.k \in {"->", "<-"} -> [r EXCEPT !.dir = t.k]
    [] t.k = "[" -> [r EXCEPT !.stack = Append(@, <<r.cur, r.dir>>)]
    [] t.k = "," -> LET back == IF V = "flatcommas" THEN r.stack[1] ELSE Last(r.stack) IN
                    IF V = "nocommas" THEN r ELSE [r EXCEPT !.cur = back[1], !.dir = back[2]]
    [] t.k = "]" -> [r EXCEPT !.cur = Last(r.stack)[1], !.dir = Last(r.stack)[2], !.stack = Front(@)]
    [] OTHER -> LET n == Len(r.nodes) + 1 IN
                [r EXCEPT !.nodes = Append(@, NodeOfItem(t.s)),
                          !.edges = Append(@, IF r.dir = "->" THEN <<r.cur, n, RelOf(t.s)>> ELSE <<n, r.cur, RelOf(t.s)>>),
                          !.cur = n]

ReadArrows(target, text) == FoldLeft(LAMBDA r, t : Eat("right", r, t), Start(Strip(target)), Lex(text))

\* a text like (?P<LEMMA>\w+)/(?P<POS>N)\w* : each part names its attribute
Named(s) ==
  LET cuts == CharPos(s, "/")
      parts == IF cuts = <<>> THEN <<s>> ELSE <<SubSeq(s, 1, Last(cuts) - 1), SubSeq(s, Last(cuts) + 1, Len(s))>>
      one(p) == LET a == IndexOf(p, "?P<")
                    b == Min({i \in (a + 3)..Len(p) : Char(p, i) = ">"}) IN
                <<SubSeq(p, a + 3, b - 1), SubSeq(p, 1, a - 1) \o SubSeq(p, b + 1, Len(p))>>
  IN  {one(parts[i]) : i \in 1..Len(parts)}

NamedNodes(r) == {<<i, Named(r.nodes[i])>> : i \in 1..Len(r.nodes)}
NamedEdges(r) == {<<r.edges[i][1], r.edges[i][2], Named(r.edges[i][3])>> : i \in 1..Len(r.edges)}
=============================================================================
