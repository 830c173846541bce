------------------------------ MODULE DepTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the dependency code judged against DepMatch.            *)
(*  match  C17  steps of matching sentences with macros: after each step    *)
(*              the matches held by every macro, and whether every sentence *)
(*              is as before                                                *)
(*  items  C18  the targets and features of those matches                   *)
(*  depmx  C18  matrices of corpora                                         *)
(***************************************************************************)
EXTENDS TraceBase

Rk0 == RankIn(Header.alphabet)
D == INSTANCE DepMatch

AsSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}

\* sentences given as a graph, or as lines (whose numbers are s.at)
SentOf(c, s) ==
  IF s.how = "graph" THEN [nodes |-> s.nodes, edges |-> s.edges]
  ELSE LET top == Max(Range0(s.at) \cup {0})
           lines == [i \in 1..top |-> IF i \in Range0(s.at) THEN s.lines[CHOOSE k \in 1..Len(s.at) : s.at[k] = i] ELSE ""]
       IN  D!GraphOf(c.layout, lines, s.at)

\* a recorded sentence is the specified one
Read(S, f) ==
  /\ {f.nodes[i][1] : i \in 1..Len(f.nodes)} = D!Ids(S)
  /\ Len(f.nodes) = Cardinality(D!Ids(S))
  /\ \A i \in 1..Len(f.nodes) : AsSet(D!NodeOf(S, f.nodes[i][1]).at) \subseteq AsSet(f.nodes[i][2])
  /\ {<<f.edges[i][1], f.edges[i][2]>> : i \in 1..Len(f.edges)} = {<<S.edges[i].h, S.edges[i].d>> : i \in 1..Len(S.edges)}
  /\ \A i \in 1..Len(f.edges) : AsSet(D!EdgeOf(S, f.edges[i][1], f.edges[i][2]).at) \subseteq AsSet(f.edges[i][3])

\* what is recorded for embedding m
Shown(c, P, s, S, m) ==
  [n |-> {<<p, AsSet(D!NodeOf(S, m[p]).at)>> : p \in D!Ids(P)},
   e |-> {<<P.edges[i].h, P.edges[i].d, AsSet(D!EdgeOf(S, m[P.edges[i].h], m[P.edges[i].d]).at)>> : i \in 1..Len(P.edges)}]

\* (a match may also note where it is from)
Seen(o) == [n |-> {<<o.n[i][1], {x \in AsSet(o.n[i][2]) : x[1] \notin {"fid", "FID", "LID"}}>> : i \in 1..Len(o.n)},
            e |-> {<<o.e[i][1], o.e[i][2], AsSet(o.e[i][3])>> : i \in 1..Len(o.e)}]

\* the matches added by one step, as a bag over specified records
Added(c, s, j) ==
  LET M == c.macs[j]
      P == c.pats[M.pat]
      S == SentOf(c, c.sents[s]) IN
  [m \in D!Kept(M, P, S, c.any, Range0(c.targets)) |-> Shown(c, P, c.sents[s], S, m)]

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : Seen(a[i]) = Seen(b[i])

MatchRun(c, o) ==
  OnOk(o,
    LET S(i) == SentOf(c, c.sents[i])
        st == o.v.steps
        before(k, j) == IF k = 1 THEN <<>> ELSE st[k - 1].found[j]
        step(k) ==
          LET s == c.steps[k][1] j == c.steps[k][2]
              old == before(k, j) new == st[k].found[j]
              got == [i \in 1..(Len(new) - Len(old)) |-> Seen(new[Len(old) + i])]
              want == Added(c, s, j)
              wanted == {want[m] : m \in DOMAIN want}
              n(x) == Cardinality({m \in DOMAIN want : want[m] = x}) IN
          Must(\A x \in 1..Len(c.macs) : x # j => Prefix(before(k, x), st[k].found[x]) /\ Prefix(st[k].found[x], before(k, x)),
               "other-pattern-changed")
          \cup Must(Prefix(old, new), "earlier-match-changed")
          \cup Must(\A i \in 1..Len(st[k].same) : st[k].same[i], "sentence-changed")
          \cup (IF ~Prefix(old, new) THEN {}
                ELSE Must(\A i \in 1..Len(got) : got[i] \in wanted, "match-that-is-none")
                     \cup Must(\A x \in wanted : Cardinality({i \in 1..Len(got) : got[i] = x}) >= n(x), "match-missing")
                     \cup Must(\A x \in wanted : Cardinality({i \in 1..Len(got) : got[i] = x}) <= n(x), "match-repeated"))
    IN  Must(\A i \in 1..Len(c.sents) : Read(S(i), o.v.first[i]), "sentence-read")
        \cup (IF Len(st) # Len(c.steps) THEN {"steps"} ELSE UNION {step(k) : k \in 1..Len(st)}))

\* the items of all matches at the end, as bags of <<target, feature>>
ItemsRun(c, o) ==
  OnOk(o,
    LET last == o.v.steps[Len(o.v.steps)].found
        want(j) ==
          LET M == c.macs[j]
              P == c.pats[M.pat]
              one(k) == LET s == c.sents[c.steps[k][1]]
                            S == SentOf(c, s) IN
                        {<<k, m, D!Target(M, P, S, m, c.mode, s.fid), D!Feature(Rk0, M, P, S, m)>> :
                            m \in D!Kept(M, P, S, c.any, Range0(c.targets))}
          IN  UNION {one(k) : k \in {x \in 1..Len(c.steps) : c.steps[x][2] = j}}
        bad(j) ==
          LET w == want(j)
              pairs == {<<x[3], x[4]>> : x \in w} \cup {<<last[j][i].t, last[j][i].f>> : i \in 1..Len(last[j])} IN
          {p \in pairs : Cardinality({x \in w : <<x[3], x[4]>> = p})
                         # Cardinality({i \in 1..Len(last[j]) : <<last[j][i].t, last[j][i].f>> = p})}
        tbad(j) == {x[3] : x \in want(j)} # {last[j][i].t : i \in 1..Len(last[j])}
    IN  Must(\A j \in 1..Len(c.macs) : ~tbad(j), "targets")
        \cup Must(\A j \in 1..Len(c.macs) : bad(j) = {}, "features"))

(* ---- matrices ---- *)
CellsOf(v) == {<<v.cells[i][1], v.cells[i][2], v.cells[i][3]>> : i \in 1..Len(v.cells)}
OneMatrix(c, v, sel) ==
  LET cc == [cols |-> c.layout.cols, sep |-> c.layout.sep, id |-> c.layout.id, head |-> c.layout.head,
             na |-> c.layout.na, ea |-> c.layout.ea, mode |-> c.mode, any |-> c.any, targets |-> c.targets,
             pats |-> c.pats, macs |-> c.macs, files |-> c.files, sel |-> sel]
      want == D!Counts(Rk0, cc)
      cells == {<<k[1], k[2], want[k]>> : k \in DOMAIN want}
      got == CellsOf(v)
  IN  IF DOMAIN want = {} THEN Must(v.none \/ v.cells = <<>>, "cells-from-nothing")
      ELSE IF v.none THEN {"no-matrix"}
      ELSE Must({x[1] : x \in cells} = Range0(v.rows) /\ IsInjectiveSeq(v.rows), "targets")
           \cup Must({x[2] : x \in cells} = Range0(v.cols) /\ IsInjectiveSeq(v.cols), "features")
           \cup Must(got = cells /\ Len(v.cells) = Cardinality(cells), "counts")

MatrixRun(c, o) ==
  OnOk(o, IF Len(o.v) # Len(c.sels) THEN {"steps"}
          ELSE UNION {OneMatrix(c, o.v[i], c.sels[i]) : i \in 1..Len(c.sels)})

Verdict(c) ==
  CASE c.kind = "match" -> UNION {MatchRun(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "items" -> UNION {ItemsRun(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "depmx" -> UNION {MatrixRun(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
