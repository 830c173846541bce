---------------------------- MODULE MatrixTrace ----------------------------
(***************************************************************************)
(* Recorded histories of matrices judged step by step against Matrix.tla.   *)
(*  hist  C10-C12  ops, init (the first matrices); v: one record per        *)
(*                 operation: r (numbers), names, none, ref (name of an     *)
(*                 exception or ""), snap (every live object afterwards)    *)
(*  file  C13      saves and loads                                          *)
(***************************************************************************)
EXTENDS TraceBase

Rk0 == RankIn(Header.alphabet)
M == INSTANCE Matrix WITH Rk <- Rk0

\* a recorded object; cells are <<i, j, v>> of all recorded positions
Obj(s) == [rows |-> s.rows, cols |-> s.cols, dense |-> s.dense, mask |-> s.mask,
           f |-> [p \in {<<t[1], t[2]>> : t \in Range0(s.cells)} |->
                    (CHOOSE t \in Range0(s.cells) : t[1] = p[1] /\ t[2] = p[2])[3]]]

NameSet(xs) == Range0(xs)

\* rows of a sample: rows of m in their order, each with its own values
SampleOk(m, o, got) ==
  LET want == IF o.n >= 100 THEN o.n \div 100
              ELSE LET k == (Len(m.rows) * o.n) \div 100 IN IF k = 0 THEN 1 ELSE k
      num == [i \in 1..Len(got.rows) |-> IF got.rows[i] \in Range0(m.rows) THEN M!IndexIn(m.rows, got.rows[i]) ELSE 0]
  IN  /\ \A i \in 1..Len(num) : num[i] > 0
      /\ Len(num) = want
      /\ \A i, j \in 1..Len(num) : i < j => (IF o.hr = 1 THEN num[i] <= num[j] ELSE num[i] < num[j])
      /\ M!Same(got, M!Take(m, num, M!All(m.cols)))

\* dropping empty rows or columns: those with only recorded zeros may go or stay
DropEmptyOk(m0, axis, got0) ==
  LET m == IF axis = 0 THEN m0 ELSE M!Transpose(m0)
      got == IF axis = 0 THEN got0 ELSE M!Transpose(got0)
      rec(i) == \E p \in DOMAIN m.f : p[1] = i
      num == [i \in 1..Len(got.rows) |-> IF got.rows[i] \in Range0(m.rows) THEN M!IndexIn(m.rows, got.rows[i]) ELSE 0]
  IN  /\ \A i \in 1..Len(num) : num[i] > 0
      /\ \A i, j \in 1..Len(num) : i < j => num[i] < num[j]
      /\ \A i \in 1..Len(m.rows) : /\ M!RowNonZero(m, i) > 0 => i \in Range0(num)
                                   /\ ~rec(i) => i \notin Range0(num)
      /\ M!Same(got, M!Take(m, num, M!All(m.cols)))

NoneOk(h, o) == \* nothing remains
  LET m == h[o.x] IN
  CASE o.f = "sub"  -> LET e == M!Made(h, o) IN e.rows = <<>> \/ e.cols = <<>>
    [] o.f = "drop" -> LET e == M!Made(h, o) IN e.rows = <<>> \/ e.cols = <<>>
    [] o.f = "drop_empty" -> M!NonZero(m) = {}
    [] OTHER -> FALSE

\* refusals that the operation may answer with
RefusalOk(h, o, ref) ==
  LET m == h[o.x] IN
  \/ ref \in {"NotImplementedError", "AttributeError"} /\ M!MayRefuse(m, o)
  \/ o.f = "merge2" /\ ref = "NotImplementedError" /\ m.rows # h[o.y].rows
  \/ o.f = "concat" /\ ref \in {"AssertionError", "ValueError"} /\
       (IF o.axis = 0 THEN m.cols # h[o.y].cols ELSE m.rows # h[o.y].rows)
  \/ o.f \in {"merge", "mergeall"} /\ ref = "ValueError" /\
       (LET ms == IF o.f = "merge" THEN <<m, h[o.y]>> ELSE [k \in 1..Len(o.ys) |-> h[o.ys[k]]]
        IN  \A k \in 1..Len(ms) : DOMAIN ms[k].f = {})
  \/ o.f = "dict" /\ ref = "ValueError" /\ DOMAIN m.f = {}

MaskStepOk(m, o, got) ==
  LET e == M!MaskOf(m, o.cmp, o.n) IN
  /\ got.rows = e.rows /\ got.cols = e.cols /\ got.dense = e.dense
  /\ M!NonZero(e) \subseteq M!NonZero(got)
  /\ M!NonZero(got) \subseteq M!NonZero(e) \cup (IF m.dense THEN {} ELSE M!MayMark(m, o.cmp, o.n))

NewOk(h, o, got) ==
  CASE o.f = "sample" -> SampleOk(h[o.x], o, got)
    [] o.f = "drop_empty" -> DropEmptyOk(h[o.x], o.axis, got)
    [] o.f = "mask" -> MaskStepOk(h[o.x], o, got)
    [] o.f = "mult" -> M!Same(M!Made(h, o), got)
    [] o.f \in {"merge", "mergeall"} ->
         \* the order of labels is fixed when they had to be unioned
         LET e == M!Made(h, o)
             rs == IF Range0(got.rows) = Range0(e.rows) /\ Len(got.rows) = Len(e.rows) THEN got.rows ELSE e.rows
             cs == IF Range0(got.cols) = Range0(e.cols) /\ Len(got.cols) = Len(e.cols) THEN got.cols ELSE e.cols
             ms == IF o.f = "merge" THEN <<h[o.x], h[o.y]>> ELSE [k \in 1..Len(o.ys) |-> h[o.ys[k]]]
             sameR == M!AllSame([k \in 1..Len(ms) |-> ms[k].rows])
             sameC == M!AllSame([k \in 1..Len(ms) |-> ms[k].cols])
         IN  /\ sameR \/ got.rows = M!UnionAll([k \in 1..Len(ms) |-> ms[k].rows])
             /\ sameC \/ got.cols = M!UnionAll([k \in 1..Len(ms) |-> ms[k].cols])
             /\ M!Same(got, M!Merge(ms, rs, cs))
    [] OTHER -> M!Same(M!Made(h, o), got)

Makes(o) == o.f \in M!Makers \cup {"sample", "drop_empty"}

ReturnFails(h, o, st) ==
  LET m == h[o.x] IN
  CASE o.f = "show" ->
         LET z == M!Shown(m, o) IN
         IF st.names = <<"-">> THEN {}
         ELSE Must(st.names = SubSeq(m.rows, 1, z.r) \o SubSeq(m.cols, 1, z.c), "labels-of-show")
              \cup Must(st.r = M!Returned(h, o), "result-of-show")
    [] o.f \in {"get", "sum", "count", "equal", "frame"} ->
         Must(st.r = M!Returned(h, o), "result-of-" \o o.f)
         \cup (CASE o.f = "sum" /\ o.axis = 1 -> Must(st.names = m.rows, "labels-of-sum")
                 [] o.f = "sum" /\ o.axis = 0 -> Must(st.names = m.cols, "labels-of-sum")
                 [] o.f = "frame" -> Must(st.names = m.rows \o m.cols, "labels-of-frame")
                 [] OTHER -> {})
    [] o.f = "empty_rows" ->
         LET nz == {m.rows[i] : i \in {k \in 1..Len(m.rows) : M!RowNonZero(m, k) > 0}}
             un == {m.rows[i] : i \in {k \in 1..Len(m.rows) : ~\E p \in DOMAIN m.f : p[1] = k}}
         IN  Must(un \subseteq NameSet(st.names) /\ NameSet(st.names) \cap nz = {}
                  /\ NameSet(st.names) \subseteq Range0(m.rows), "result-of-empty_rows")
    [] o.f = "colloc" ->
         LET i == M!IndexIn(m.rows, o.nr[1])
             rec == {m.cols[p[2]] : p \in {q \in DOMAIN m.f : q[1] = i}}
             nz == {m.cols[p[2]] : p \in {q \in M!NonZero(m) : q[1] = i}}
         IN  Must(nz \subseteq NameSet(st.names) /\ NameSet(st.names) \subseteq rec
                  /\ Len(st.names) = Cardinality(NameSet(st.names)), "result-of-colloc")
    [] o.f = "todict" ->
         Must({<<t[1], t[2], t[3]>> : t \in {x \in Range0(st.trip) : x[3] # 0}} = M!Labelled(m), "result-of-todict")
    [] OTHER -> {}

StepFails(o, h, st) ==
  LET n == Len(h)
      made == Makes(o) /\ st.ref = "" /\ ~st.none
      size == Len(st.snap) = n + (IF made THEN 1 ELSE 0)
      touched == IF size THEN {i \in 1..n : Obj(st.snap[i]) # h[i]} ELSE {}
  IN  Must(size, "objects")
      \cup Must(st.ref = "" \/ RefusalOk(h, o, st.ref), "exception-in-" \o o.f)
      \cup Must(~st.none \/ NoneOk(h, o), "nothing-from-" \o o.f)
      \cup Must(touched = {}, "changed-by-" \o o.f)
      \cup (IF made /\ size THEN Must(NewOk(h, o, Obj(st.snap[n + 1])), "result-of-" \o o.f) ELSE {})
      \cup (IF st.ref = "" /\ ~Makes(o) THEN ReturnFails(h, o, st) ELSE {})

\* recorded zeros must survive masking (C11)
ZeroFails(o, h, st) ==
  IF o.f # "mult" \/ st.ref # "" THEN {}
  ELSE LET got == Obj(st.snap[Len(st.snap)])  e == M!Made(h, o) IN
       Must(DOMAIN e.f \subseteq DOMAIN got.f, "recorded-zero-lost")
       \cup Must(\A p \in DOMAIN got.f : p \in DOMAIN e.f \/ got.f[p] = 0, "unmarked-cell-kept")

HistRun(c, o) ==
  OnOk(o,
    LET n == Len(c.ops)
        start == [h |-> [i \in 1..Len(c.init) |-> Obj(c.init[i])], bad |-> {}]
        go(acc, i) ==
          IF acc.bad # {} THEN acc
          ELSE LET b == StepFails(c.ops[i], acc.h, o.v[i]) IN
               [h |-> IF b # {} THEN acc.h ELSE [k \in 1..Len(o.v[i].snap) |-> Obj(o.v[i].snap[k])],
                bad |-> b \cup (IF b # {} THEN {} ELSE ZeroFails(c.ops[i], acc.h, o.v[i]))]
    \* an operation that raised ends the history
    IN  IF Len(o.v) # n /\ (o.v = <<>> \/ o.v[Len(o.v)].ref = "") THEN {"steps"}
        ELSE FoldLeft(go, start, [i \in 1..Len(o.v) |-> i]).bad)

(* ---- C13: a directory of matrix files ----
   step: f ("save"/"load"), key (the file the name denotes, pack mode
   included), m (the matrix saved, as an index into c.mats); observed: obj,
   files (names of the files in the directory afterwards), others (the other
   files are unchanged) *)
FileRun(c, o) ==
  OnOk(o,
    LET n == Len(c.ops)
        mat(i) == Obj(c.mats[i])
        go(acc, i) ==
          LET s == c.ops[i]  v == o.v[i]  own == s.own IN
          [last |-> IF s.f = "move" THEN {x \in acc.last : x[1] \notin {s.key, s.src}} \cup
                       {<<s.key, x[2]>> : x \in {y \in acc.last : y[1] = s.src}} ELSE
                    IF s.f = "save" THEN {x \in acc.last : x[1] # s.key} \cup {<<s.key, s.m>>} ELSE acc.last,
           files |-> IF s.f = "move" THEN (acc.files \ {s.src2}) \cup {own} ELSE
                     IF s.f = "save" /\ s.pack = 1 THEN acc.files \cup {own} ELSE
                     IF s.f = "save" THEN acc.files \cup Range0(v.files) ELSE acc.files,
           bad |-> acc.bad
             \cup Must(v.ref = "", "exception-in-" \o s.f)
             \cup Must(v.others, "other-file-changed")
             \cup (IF v.ref # "" THEN {}
                   ELSE IF s.f = "save"
                   THEN IF s.pack = 1 THEN Must(Range0(v.files) = acc.files \cup {own}, "files-after-save")
                        ELSE Must(acc.files \subseteq Range0(v.files) \cup Range0(s.stale), "files-lost")
                   ELSE IF s.f = "move" THEN {}
                   ELSE Must(Range0(v.files) = acc.files, "files-after-load")
                        \cup (LET want == mat((CHOOSE x \in acc.last : x[1] = s.key)[2])
                                  got == Obj(v.obj)
                              IN  Must(got.rows = want.rows /\ got.cols = want.cols, "loaded-labels")
                                  \cup Must(got.dense = want.dense, "loaded-kind")
                                  \cup (IF got.rows = want.rows /\ got.cols = want.cols /\ got.dense = want.dense
                                        THEN Must(M!Same(got, want), "loaded-values") ELSE {})))]
    IN  IF Len(o.v) # n THEN {"steps"}
        ELSE FoldLeft(go, [last |-> {}, files |-> Range0(c.present), bad |-> {}], [i \in 1..n |-> i]).bad)

Verdict(c) ==
  CASE c.kind = "hist" -> UNION {HistRun(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "file" -> UNION {FileRun(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
