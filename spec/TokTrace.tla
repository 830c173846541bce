-------------------------------- MODULE TokTrace --------------------------------
(***************************************************************************)
(* Recorded histories of token collections judged against Tokens and        *)
(* TokNames.                                                                *)
(*  toks   ops; obs.v = [tab: the different tokens seen, steps: after each   *)
(*         operation the outcome, the collections, and lines written]       *)
(*  names  names taken apart                                                *)
(***************************************************************************)
EXTENDS TraceBase, Tokens

N == INSTANCE TokNames WITH Variant <- "right", Texts <- {}, Words <- {}, MaxParts <- 1, parts <- <<>>, fmt <- "",
                            name <- "", back <- <<>>, left <- <<>>, right <- <<>>, txt <- ""
None == "<none>"

\* what a token made in way w of pool entry p should be: parts not in the name
\* of a token made of its name are unknown
Given(p) == [parts |-> IF p.way = "name"
                       THEN [c \in N!Known |-> N!PartOf(N!NameOf(p, p.fmt), p.fmt, c,
                               CASE c = "fid" -> "unknown" [] c = "lid" -> "-1" [] OTHER -> None)]
                       ELSE [c \in N!Known |-> p[c]],
             fmt |-> p.fmt, left |-> p.left, right |-> p.right]
Seen(t) == [parts |-> [c \in N!Known |-> t[c]], fmt |-> t.fmt, left |-> t.left, right |-> t.right]

\* collection x of a step: the tokens in it, as what they are
Contents(tab, col) == [i \in 1..Len(col.toks) |-> Seen(tab[col.toks[i]])]
Found(tab, cols) == [x \in 1..Len(cols) |-> [ty |-> cols[x].ty, fmt |-> cols[x].fmt, toks |-> Contents(tab, cols[x])]]

Items(toks) == UNION {Range0(toks[i].left) \cup Range0(toks[i].right) : i \in 1..Len(toks)}
ItemText(it, f) == N!NameOf([word |-> it[1], lemma |-> it[2], pos |-> it[3]], f)
LineOf(t, f) == N!Line(N!NameOf(t.parts, t.fmt), [i \in 1..Len(t.left) |-> ItemText(t.left[i], f)],
                       N!NameOf(t.parts, f), [i \in 1..Len(t.right) |-> ItemText(t.right[i], f)])

\* a collection looks as it should
ColOk(v, want, got) ==
  /\ got.ty = want.ty /\ got.fmt = want.fmt /\ got.freq = Len(want.toks)
  /\ Contents(v.tab, got) = want.toks
Details(v, got) ==
  Must({<<got.items[i][1], got.items[i][2], got.items[i][3]>> : i \in 1..Len(got.items)} = Items(Contents(v.tab, got)), "collocates")
  \cup Must(\A c \in {"word", "lemma", "pos"} :
              LET p == N!PartOf(got.ty, got.fmt, c, None) IN p # None => got.parts[c] = p, "parts-of-type")

\* operations of a case name tokens of the pool
Real(c, o) == [o EXCEPT !.toks = [i \in 1..Len(o.toks) |-> Given(c.pool[o.toks[i]])]]

StepFails(c, o0, st, v, s) ==
  LET o == Real(c, o0)
      old == View(st)
      out == Outcome(st, o)
      n == Len(old)
      kept(k) == \A x \in 1..k : ColOk(v, old[x], s.cols[x])
      grown == Len(s.cols) = n + 1
  IN  CASE o.f = "lines" ->
             LET ts == FlattenSeq([i \in 1..Len(o.xs) |-> old[o.xs[i]].toks]) IN
             Must(Len(s.lines) = Len(ts), "lines-of-concordance")
             \cup Must(Len(s.lines) = Len(ts) => \A i \in 1..Len(ts) : s.lines[i] = LineOf(ts[i], o.fmt), "concordance")
             \cup Must(Len(s.cols) = n /\ kept(n), "changed-by-concordance")
        [] o.f = "add" ->
             LET new == View(CHOOSE q \in Right(st, o) : TRUE) IN
             Must(Len(s.cols) = n /\ \A x \in 1..n : ColOk(v, new[x], s.cols[x]), "tokens-after-add")
        [] o.f = "found" -> Must(Len(s.cols) >= n /\ kept(n), "changed-by-retrieval")
        [] Len(s.cols) < n \/ ~kept(n) -> {"changed-by-" \o o.f}
        [] out = "none" -> Must(s.st = "none" /\ Len(s.cols) = n, "nothing-from-nothing")
        [] out = "error" -> Must(s.st = "exc" /\ Len(s.cols) = n, "different-types-accepted")
        [] out = "either" /\ s.st = "exc" -> Must(Len(s.cols) = n, "objects")
        [] OTHER ->
             IF s.st # "ok" \/ ~grown THEN {"no-result-of-" \o o.f}
             ELSE LET got == s.cols[n + 1] ts == Contents(v.tab, got) IN
               Must(<<got.ty, got.fmt>> = Named(st, o), "name-after-" \o o.f)
               \cup Must(IsResult(st, o, ts), "tokens-after-" \o o.f)
               \cup Must(got.freq = Len(ts), "number-of-tokens")
               \cup Details(v, got)

\* the next state is the one seen, which has just been judged
Resync(v, s) == LET f == Found(v.tab, s.cols) IN
  [heap |-> [x \in 1..Len(f) |-> f[x].toks],
   objs |-> [x \in 1..Len(f) |-> [ty |-> f[x].ty, fmt |-> f[x].fmt, ref |-> x]]]

NamesOfTokens(v) == UNION {Must(v.tab[i].name = N!NameOf(Seen(v.tab[i]).parts, v.tab[i].fmt), "name-of-token") : i \in 1..Len(v.tab)}

Toks2(c, o) ==
  OnOk(o,
    IF Len(o.v.steps) # Len(c.ops) THEN {"steps"}
    ELSE LET go(acc, i) ==
               IF acc.bad # {} THEN acc
               ELSE LET bad == StepFails(c, c.ops[i], acc.st, o.v, o.v.steps[i]) IN
                    [bad |-> bad, st |-> IF bad # {} THEN acc.st ELSE Resync(o.v, o.v.steps[i])]
         IN  FoldLeft(go, [bad |-> {}, st |-> [heap |-> <<>>, objs |-> <<>>]], [i \in 1..Len(c.ops) |-> i]).bad
             \cup NamesOfTokens(o.v))

\* q: [what, name, fmt, fmts]; a: [st, parts, back, as]
NameFails(q, a) ==
  LET known == IF q.what = "token" THEN N!Known ELSE {"word", "lemma", "pos"} IN
  IF ~N!Fits(q.name, q.fmt, known) THEN Must(a.st = "exc", "misfit-accepted")
  ELSE IF a.st # "ok" THEN {"name-refused"}
  ELSE LET want == [c \in known |-> N!PartOf(q.name, q.fmt, c,
                      CASE c = "fid" -> "unknown" [] c = "lid" -> "-1" [] OTHER -> None)] IN
       Must(\A c \in known : a.parts[c] = want[c], "parts-of-name")
       \cup Must(a.back = q.name, "name-rebuilt")
       \cup Must(\A i \in 1..Len(q.fmts) : a.as[i] = N!NameOf(want, q.fmts[i]), "name-in-other-format")
NamesRun(c, o) ==
  OnOk(o, IF Len(o.v) # Len(c.qs) THEN {"answers"} ELSE UNION {NameFails(c.qs[i], o.v[i]) : i \in 1..Len(c.qs)})

Verdict(c) == CASE c.kind = "toks" -> UNION {Toks2(c, c.runs[i]) : i \in 1..Len(c.runs)}
                [] c.kind = "names" -> UNION {NamesRun(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
