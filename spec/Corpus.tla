------------------------------- MODULE Corpus -------------------------------
(***************************************************************************)
(* The meaning of a corpus: which lines are words, which separate          *)
(* segments, and what frequencies, co-occurrences and tokens follow from   *)
(* it.  Everything is stated on the text itself, declaratively, and is the *)
(* oracle for the scanner (Window.tla), the worker pool (JobPool.tla) and  *)
(* the recorded runs (PipelineTrace.tla).                                  *)
(*                                                                         *)
(* A case record c holds                                                   *)
(*   files  : sequence of [fid, lines]          sel: indices of the files   *)
(*   ncol   : number of tab separated, non-empty columns of a word line    *)
(*   ty, co, to : column numbers composing type, context item, token name  *)
(*   sep    : the prefix a separator line has                              *)
(*   l, r   : left and right span                                          *)
(***************************************************************************)
EXTENDS Util

Fields(line) == Split(Strip(line), "\t")

IsWord(c, line) ==
  LET f == Fields(line)
  IN  Len(f) >= c.ncol /\ \A k \in 1..c.ncol : f[k] # ""

IsSep(c, line) == ~IsWord(c, line) /\ StartsWith(Strip(line), c.sep)

Pick(f, cols) == Join([k \in 1..Len(cols) |-> f[cols[k]]], "/")

\* the words of one file: sequence of [lid, seg, ty, co, name]
Words(c, file) ==
  LET n == Len(file.lines)
      wd == {i \in 1..n : IsWord(c, file.lines[i])}
      sp == {i \in 1..n : IsSep(c, file.lines[i])}
      order == SetToSortSeq(wd, <)
      word(i) == LET f == Fields(file.lines[i]) IN
                 [lid |-> i, seg |-> Cardinality({s \in sp : s < i}),
                  ty |-> Pick(f, c.ty), co |-> Pick(f, c.co), name |-> Pick(f, c.to)]
  IN  [k \in 1..Len(order) |-> word(order[k])]

AllWords(c) == [k \in 1..Len(c.sel) |-> Words(c, c.files[c.sel[k]])]

(* ---- item frequencies (C01) ---- *)
Tally(aw) ==
  LET items == UNION {{aw[k][i].ty : i \in 1..Len(aw[k])} : k \in 1..Len(aw)}
  IN  [t \in items |->
        SumSeq([k \in 1..Len(aw) |-> Cardinality({i \in 1..Len(aw[k]) : aw[k][i].ty = t})])]

(* ---- co-occurrences (C02) ---- *)
\* positions i, j of one file's word sequence are a (target, context) pair
InSpan(c, ws, i, j) ==
  /\ i # j
  /\ ws[i].seg = ws[j].seg
  /\ j - i >= -c.l /\ j - i <= c.r

\* the positions a span can reach from i
Near(c, ws, i) == (IF i > c.l THEN i - c.l ELSE 1)..(IF i + c.r < Len(ws) THEN i + c.r ELSE Len(ws))

PairsOf(c, ws) ==
  UNION {{<<i, j>> : j \in {x \in Near(c, ws, i) : InSpan(c, ws, i, x)}} : i \in 1..Len(ws)}

\* all pairs <<file, i, j>> whose target is in rows, whose context is in cols
Pairs(c, aw, rows, anyctx, cols) ==
  UNION {{<<k, p[1], p[2]>> : p \in {q \in PairsOf(c, aw[k]) :
            /\ aw[k][q[1]].ty \in rows
            /\ (anyctx \/ aw[k][q[2]].co \in cols)}} : k \in 1..Len(aw)}

Cooc(aw, pairs) ==
  LET cell(p) == <<aw[p[1]][p[2]].ty, aw[p[1]][p[3]].co>>
      cells == {cell(p) : p \in pairs}
  IN  [x \in cells |-> Cardinality({p \in pairs : cell(p) = x})]

(* ---- tokens (C04) ---- *)
\* context of word i of one file, as two sequences of word indices
LeftCtx(c, ws, i)  == SetToSortSeq({j \in Near(c, ws, i) : j < i /\ InSpan(c, ws, i, j)}, <)
RightCtx(c, ws, i) == SetToSortSeq({j \in Near(c, ws, i) : j > i /\ InSpan(c, ws, i, j)}, <)

Tokens(c, aw, queries, anyctx, cols) ==
  LET tok(k, i) ==
        LET ws == aw[k]
            keep(js) == SelectSeq([x \in 1..Len(js) |-> ws[js[x]].co],
                                  LAMBDA y : anyctx \/ y \in cols)
            fid == c.files[c.sel[k]].fid
            at(js) == [x \in 1..Len(SelectSeq(js, LAMBDA j : anyctx \/ ws[j].co \in cols)) |->
                         fid \o "#" \o ToString(ws[SelectSeq(js, LAMBDA j : anyctx \/ ws[j].co \in cols)[x]].lid)]
        IN  [ty |-> ws[i].ty, fid |-> fid, lid |-> ToString(ws[i].lid),
             name |-> ws[i].name \o "/" \o fid \o "/" \o ToString(ws[i].lid),
             left |-> keep(LeftCtx(c, ws, i)), right |-> keep(RightCtx(c, ws, i)),
             lat |-> at(LeftCtx(c, ws, i)), rat |-> at(RightCtx(c, ws, i))]
  IN  UNION {{tok(k, i) : i \in {x \in 1..Len(aw[k]) : aw[k][x].ty \in queries}} :
             k \in 1..Len(aw)}
=============================================================================
