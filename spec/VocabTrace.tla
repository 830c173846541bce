----------------------------- MODULE VocabTrace -----------------------------
(***************************************************************************)
(* Recorded histories of vocabularies judged step by step against           *)
(* Vocab!Apply: after every operation the value returned and the contents   *)
(* of every live object must be the specified ones.                         *)
(*  hist  C07/C08   ops: operations, obs.v: one [r, snap] per operation     *)
(*  file  C09       steps of save and load over a few file names            *)
(***************************************************************************)
EXTENDS TraceBase

Rk0 == RankIn(Header.alphabet)
V == INSTANCE Vocab WITH Rk <- Rk0

AsSet(ps) == {<<p[1], p[2]>> : p \in Range0(ps)}

SelectOps == {"items", "freqs", "cond", "chain", "path", "regex", "word", "slice", "sub"}

RetOk(o, S, r, exp) ==
  CASE o.f = "get" -> IF o.k \in V!Keys(S) THEN r = exp ELSE r \in {<<0>>, <<-1>>}
    [] OTHER -> r = exp

StepFails(o, old, new, st) ==
  LET exp == V!Apply(old, o)
      fresh == Len(exp.h) > Len(old)
      same == Len(st.snap) = Len(exp.h)
      bad == IF same THEN {i \in 1..Len(exp.h) : AsSet(st.snap[i]) # exp.h[i]
                                              \/ Len(st.snap[i]) # Cardinality(exp.h[i])}
             ELSE {}
  IN  Must(same, "objects")
      \cup Must(RetOk(o, old[o.x], st.r, exp.r), "result-of-" \o o.f)
      \cup (IF ~same THEN {}
            ELSE Must(~(fresh /\ Len(exp.h) \in bad), "contents-of-" \o o.f)
                 \cup Must(~(o.f \in V!Changers /\ o.x \in bad), "update-" \o o.f)
                 \cup Must({i \in bad : i # o.x /\ i <= Len(old)} = {}, "other-object-changed-by-" \o o.f)
                 \cup Must(~(o.f \in V!ReadOnly \cup V!Makers /\ o.x \in bad), "changed-by-reading-" \o o.f))

\* the first step only creates the source dictionary
HistRun(c, o) ==
  OnOk(o,
    LET n == Len(c.ops)
        acc0 == [h |-> <<AsSet(c.ops[1].ps)>>, bad |-> {}]
        go(acc, i) == IF acc.bad # {} THEN acc      \* judge up to the first broken step
                      ELSE [h |-> V!Apply(acc.h, c.ops[i]).h,
                            bad |-> StepFails(c.ops[i], acc.h, 0, o.v[i])]
    IN  IF Len(o.v) # n THEN {"steps"}
        ELSE FoldLeft(go, acc0, [i \in 1..(n - 1) |-> i + 1]).bad)

(* ---- files: contents have rational frequencies <<num, den>> ---- *)
Bigger(a, b) == a[1] * b[2] > b[1] * a[2]
Same(a, b) == a[1] * b[2] = b[1] * a[2]
SetOf(ps) == {<<p[1], p[2]>> : p \in Range0(ps)}
FileRanked(ps) == SetToSortSeq(SetOf(ps), LAMBDA p, q : Bigger(p[2], q[2]) \/ (Same(p[2], q[2]) /\ StrLess(Rk0, p[1], q[1])))

LineOk(line, p) == LET start == p[1] \o "\t" IN
                   /\ StartsWith(line, start)
                   /\ (p[2][2] = 1 => line = start \o ToString(p[2][1]) \/ line = start \o ToString(p[2][1]) \o ".0")

\* the file of selected types: every one with its frequency, 0 if the vocabulary does not have it
TypesOf(s) == {p \in SetOf(s.ps) : p[1] \in Range0(s.its)}
              \cup {<<it, <<0, 1>>>> : it \in Range0(s.its) \ {p[1] : p \in SetOf(s.ps)}}
Written(s) == IF s.f = "types" THEN TypesOf(s) ELSE SetOf(s.ps)

FileStep(s, o, files) ==
  CASE s.f = "save" ->
         IF s.fmt = "json" THEN {}
         ELSE LET r == FileRanked(s.ps) IN
              Must(Len(o.lines) = Len(r), "one-item-per-line")
              \cup (IF Len(o.lines) # Len(r) THEN {}
                    ELSE Must(\A i \in 1..Len(r) : LineOk(o.lines[i], r[i]), "order-of-lines"))
    [] s.f = "types" -> Must(SetOf(o.ps) = SetOf(s.ps) /\ Len(o.ps) = Cardinality(SetOf(s.ps)), "vocabulary-changed")
    [] s.f = "load" ->
         LET want == CHOOSE x \in files : x[1] = s.name IN
         Must(SetOf(o.ps) = want[2] /\ Len(o.ps) = Cardinality(want[2]), "loaded-contents")

FileRun(c, o) ==
  OnOk(o,
    LET n == Len(c.ops)
        go(acc, i) ==
          LET s == c.ops[i] IN
          [files |-> IF s.f # "load" THEN {x \in acc.files : x[1] # s.name} \cup {<<s.name, Written(s)>>} ELSE acc.files,
           bad |-> acc.bad \cup FileStep(s, o.v[i], acc.files)]
    IN  IF Len(o.v) # n THEN {"steps"}
        ELSE FoldLeft(go, [files |-> {}, bad |-> {}], [i \in 1..n |-> i]).bad)

Verdict(c) ==
  CASE c.kind = "hist" -> UNION {HistRun(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "file" -> UNION {FileRun(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
