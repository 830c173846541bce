------------------------------ MODULE DepMatch ------------------------------
(***************************************************************************)
(* Dependency patterns.                                                     *)
(*  sentence S : nodes : sequence of [id, at]   at: sequence of <<name, text>>*)
(*               edges : sequence of [h, d, at]                             *)
(*  pattern  P : nodes : sequence of [id, con]  con: sequence of [n, c]     *)
(*               edges : sequence of [h, d, con]  c: constraint of Text     *)
(*  macro    M : pat (number of the pattern), t: target node, f: feature    *)
(*               node or -1, tf / ff / ef: formats of target, feature node, *)
(*               edge: sequences of <<attribute, group>>                    *)
(***************************************************************************)
EXTENDS Text

Names(at) == {at[i][1] : i \in 1..Len(at)}
Val(at, n) == at[CHOOSE i \in 1..Len(at) : at[i][1] = n][2]

Meets(con, at) == \A i \in 1..Len(con) : con[i].n \in Names(at) /\ MatchPrefix(Val(at, con[i].n), con[i].c.pat)

Ids(G) == {G.nodes[i].id : i \in 1..Len(G.nodes)}
NodeOf(G, x) == G.nodes[CHOOSE i \in 1..Len(G.nodes) : G.nodes[i].id = x]
EdgeIx(G, h, d) == {i \in 1..Len(G.edges) : G.edges[i].h = h /\ G.edges[i].d = d}
EdgeOf(G, h, d) == G.edges[CHOOSE i \in 1..Len(G.edges) : G.edges[i].h = h /\ G.edges[i].d = d]
Children(G, x) == {G.edges[i].d : i \in {j \in 1..Len(G.edges) : G.edges[j].h = x}}
Heads(G, x) == {G.edges[i].h : i \in {j \in 1..Len(G.edges) : G.edges[j].d = x}}

\* everything reachable from X along edges in either direction
RECURSIVE Linked(_, _)
Linked(G, X) ==
  LET more == X \cup UNION {Children(G, x) \cup Heads(G, x) : x \in X}
  IN  IF more = X THEN X ELSE Linked(G, more)

IsTree(G) ==
  /\ Ids(G) # {}
  /\ Cardinality({<<G.edges[i].h, G.edges[i].d>> : i \in 1..Len(G.edges)}) = Cardinality(Ids(G)) - 1
  /\ \A x \in Ids(G) : Cardinality(Heads(G, x)) <= 1
  /\ Linked(G, {CHOOSE x \in Ids(G) : TRUE}) = Ids(G)

Root(P) == CHOOSE x \in Ids(P) : Heads(P, x) = {}
IsLinear(P) == \A x \in Ids(P) : Cardinality(Children(P, x) \cup Heads(P, x)) <= 2

(* ---- the embeddings of a pattern, as definition ---- *)
\* a node without any attribute is not a word (the artificial root)
NodeFits(P, S, p, s) == NodeOf(S, s).at # <<>> /\ Meets(NodeOf(P, p).con, NodeOf(S, s).at)
EdgeFits(P, S, ep, es) == Meets(ep.con, es.at)

IsEmbedding(P, S, m) ==
  /\ \A p, q \in Ids(P) : m[p] = m[q] => p = q
  /\ \A p \in Ids(P) : NodeFits(P, S, p, m[p])
  /\ \A i \in 1..Len(P.edges) :
       LET e == P.edges[i] IN
       /\ EdgeIx(S, m[e.h], m[e.d]) # {}
       /\ EdgeFits(P, S, e, EdgeOf(S, m[e.h], m[e.d]))

EmbeddingsByDefinition(P, S) ==
  IF IsTree(S) THEN {m \in [Ids(P) -> Ids(S)] : IsEmbedding(P, S, m)} ELSE {}

\* ... and built node by node from the root (equal: DepLaws)
RECURSIVE TopDown(_, _)
TopDown(P, done) ==
  LET have == Range0(done)
      next == {x \in Ids(P) \ have : Heads(P, x) \subseteq have}
  IN  IF next = {} THEN done ELSE TopDown(P, Append(done, CHOOSE x \in next : TRUE))

Embeddings(P, S) ==
  IF ~IsTree(S) THEN {}
  ELSE LET order == TopDown(P, <<>>)
           r == order[1]
           first == {r :> s : s \in {x \in Ids(S) : NodeFits(P, S, r, x)}}
           grow(ms, p) ==
             LET h == CHOOSE x \in Heads(P, p) : TRUE
                 e == EdgeOf(P, h, p) IN
             UNION {{m @@ (p :> s) : s \in {x \in Children(S, m[h]) :
                        /\ x \notin {m[q] : q \in DOMAIN m}
                        /\ NodeFits(P, S, p, x)
                        /\ EdgeFits(P, S, e, EdgeOf(S, m[h], x))}} : m \in ms}
       IN  FoldLeft(grow, first, Tail(order))

(* ---- items and features of a match m ---- *)
Placed == {"fid", "lid", "FID", "LID"}     \* where a token stands

PartOf(con, at, n, g) ==
  LET c == con[CHOOSE i \in 1..Len(con) : con[i].n = n].c IN GroupText(Val(at, n), c, g)

Text(con, at, fmt) == Join([i \in 1..Len(fmt) |-> PartOf(con, at, fmt[i][1], fmt[i][2])], "/")

TypeFmt(fmt) == SelectSeq(fmt, LAMBDA f : f[1] \notin Placed)

\* the target as a type
TargetType(M, P, S, m) == Text(NodeOf(P, M.t).con, NodeOf(S, m[M.t]).at, TypeFmt(M.tf))

\* the target as a token of file fid; a node's "lid" is its line
TargetToken(M, P, S, m, fid) ==
  LET at == NodeOf(S, m[M.t]).at
      part(f) == CASE f[1] \in {"fid", "FID"} -> fid
                   [] f[1] \in {"lid", "LID"} -> Val(at, "lid")
                   [] OTHER -> PartOf(NodeOf(P, M.t).con, at, f[1], f[2])
  IN  Join([i \in 1..Len(M.tf) |-> part(M.tf[i])], "/")

Target(M, P, S, m, mode, fid) == IF mode = "token" THEN TargetToken(M, P, S, m, fid) ELSE TargetType(M, P, S, m)

NodeText(M, P, S, m, p) == IF p = M.t THEN "#T#" ELSE Text(NodeOf(P, p).con, NodeOf(S, m[p]).at, M.ff)
EdgeText(M, P, S, m, h, d) == Text(EdgeOf(P, h, d).con, EdgeOf(S, m[h], m[d]).at, M.ef)
ArcText(M, P, S, m, h, d) == EdgeText(M, P, S, m, h, d) \o ":" \o NodeText(M, P, S, m, d)

\* the children of a pattern node as listed
Listed(P, x) == LET es == SelectSeq(P.edges, LAMBDA e : e.h = x) IN [i \in 1..Len(es) |-> es[i].d]

RECURSIVE Below(_, _, _, _, _, _)
Below(rk, M, P, S, m, x) ==
  LET ks == Listed(P, x)
      txt(i) == ArcText(M, P, S, m, x, ks[i])
      less(i, j) == StrLess(rk, txt(i), txt(j)) \/ (txt(i) = txt(j) /\ i < j)
      order == SetToSortSeq(1..Len(ks), less)
      whole(i) == txt(order[i]) \o Below(rk, M, P, S, m, ks[order[i]])
  IN  CASE Len(ks) = 0 -> ""
        [] Len(ks) = 1 -> "->" \o whole(1)
        [] OTHER -> "->[" \o Join([i \in 1..Len(ks) |-> whole(i)], ",") \o "]"

FullFeature(rk, M, P, S, m) == NodeText(M, P, S, m, Root(P)) \o Below(rk, M, P, S, m, Root(P))

Feature(rk, M, P, S, m) ==
  IF M.f = -1 THEN FullFeature(rk, M, P, S, m)
  ELSE Text(NodeOf(P, M.f).con, NodeOf(S, m[M.f]).at, M.ff)

\* the embeddings that count: those whose target item is wanted
Kept(M, P, S, anytarget, targets) ==
  {m \in Embeddings(P, S) : anytarget \/ TargetType(M, P, S, m) \in targets}

(* ---- sentences of a corpus file (C18) ---- *)
\* settings c: cols (names), sep, id, head (column numbers), na, ea (names of
\* the node and edge columns)
Fields(line) == Split(Strip(line), "\t")
IsWord(c, line) == LET f == Fields(line) IN Len(f) >= Len(c.cols) /\ \A k \in 1..Len(c.cols) : f[k] # ""
IsSep(c, line) == ~IsWord(c, line) /\ StartsWith(Strip(line), c.sep)

Digit(ch) == CHOOSE d \in 0..9 : ToString(d) = ch
ToNat(s) == FoldLeft(LAMBDA a, i : 10 * a + Digit(Char(s, i)), 0, [i \in 1..Len(s) |-> i])

Columns(c, f, names) == LET ks == SelectSeq([k \in 1..Len(c.cols) |-> k], LAMBDA k : c.cols[k] \in names)
                        IN  [i \in 1..Len(ks) |-> <<c.cols[ks[i]], f[ks[i]]>>]

\* the graph of the stretch of lines ls (numbers) of a file
GraphOf(c, lines, ls) ==
  LET f(i) == Fields(lines[ls[i]])
      id(i) == ToNat(f(i)[c.id])
      hd(i) == ToNat(f(i)[c.head])
      ids == {id(i) : i \in 1..Len(ls)}
      out == SetToSeq({hd(i) : i \in 1..Len(ls)} \ ids)      \* heads that are no words
  IN  [nodes |-> [i \in 1..Len(ls) |-> [id |-> id(i), at |-> Columns(c, f(i), Range0(c.na)) \o <<<<"lid", ToString(ls[i])>>>>]]
                 \o [i \in 1..Len(out) |-> [id |-> out[i], at |-> <<>>]],
       edges |-> [i \in 1..Len(ls) |-> [h |-> hd(i), d |-> id(i), at |-> Columns(c, f(i), Range0(c.ea))]]]

Sentences(c, lines) ==
  LET n == Len(lines)
      wd == {i \in 1..n : IsWord(c, lines[i])}
      sp == {i \in 1..n : IsSep(c, lines[i])}
      part(k) == {i \in wd : Cardinality({s \in sp : s < i}) = k}
      used == SetToSortSeq({k \in 0..Cardinality(sp) : part(k) # {}}, <)
  IN  [j \in 1..Len(used) |-> GraphOf(c, lines, SetToSortSeq(part(used[j]), <))]

\* all counted matches of a corpus, as <<file, sentence, macro, m>>, with
\* their row and column
\* (c.mode "type"/"token", c.any/c.targets, c.pats, c.macs, c.files, c.sel)
Matches(c) ==
  UNION {LET fi == c.files[c.sel[k]]
             ss == Sentences(c, fi.lines) IN
         UNION {UNION {{<<k, s, j, m, ss[s], fi.fid>> :
                          m \in Kept(c.macs[j], c.pats[c.macs[j].pat], ss[s], c.any, Range0(c.targets))} :
                        j \in 1..Len(c.macs)} : s \in 1..Len(ss)} : k \in 1..Len(c.sel)}

RowOf(c, x) == LET M == c.macs[x[3]] IN Target(M, c.pats[M.pat], x[5], x[4], c.mode, x[6])
ColOf(rk, c, x) == LET M == c.macs[x[3]] IN Feature(rk, M, c.pats[M.pat], x[5], x[4])

Counts(rk, c) ==
  LET xs == Matches(c)
      lab == [x \in xs |-> <<RowOf(c, x), ColOf(rk, c, x)>>]
      cells == {lab[x] : x \in xs}
  IN  [k \in cells |-> Cardinality({x \in xs : lab[x] = k})]
=============================================================================
