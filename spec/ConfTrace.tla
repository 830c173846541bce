------------------------------ MODULE ConfTrace -------------------------------
(***************************************************************************)
(* Recorded behaviours of settings, corpus formats, file selection and word *)
(* queries judged against Settings, FileSel and Queries.                    *)
(*  hist   C21   ops, obs.v: per operation [r, lo, di, ha]                  *)
(*  bound  C21   a formatter's view of lines that may be boundaries         *)
(*  files  C22   the files a handler processes                              *)
(*  query  C24   entries read and words looked up                           *)
(***************************************************************************)
EXTENDS TraceBase, Settings

C == INSTANCE Corpus
T == INSTANCE Text
F == INSTANCE FileSel WITH Variant <- "right", tree <- {}, todo <- {}, found <- <<>>
Q == INSTANCE Queries WITH Variant <- "right", Corpora <- {}, Words <- {}, MaxFields <- 0,
                           line <- <<>>, at <- 0, tab <- {}

PairSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
Same(ps, S) == PairSet(ps) = S /\ Len(ps) = Cardinality(S)

(* ---- C21 ---- *)
\* the case of Corpus.tla that settings S describe
CorpusCase(S, corpora) ==
  [files |-> corpora[Text(S, "corpus-path")], sel |-> [i \in 1..Len(corpora[Text(S, "corpus-path")]) |-> i],
   ncol |-> Len(Split(Text(S, "line-format"), ",")), ty |-> Columns(S, Text(S, "type")),
   co |-> Columns(S, Collocate(S)), to |-> Columns(S, NameFormat(S)),
   sep |-> Text(S, "separator-line-machine"), l |-> 0, r |-> 0]

SpanOf(S, k, n) == CASE n = 0 -> Val(S, k) = "#0" [] OTHER -> Val(S, k) = "#" \o ToString(n)
Span(S, k) == CHOOSE n \in 0..20 : SpanOf(S, k, n)

FreqOf(S, corpora) ==
  LET c == CorpusCase(S, corpora) t == C!Tally(C!AllWords(c)) IN {<<k, t[k]>> : k \in DOMAIN t}
CoocOf(S, corpora) ==
  LET c == [CorpusCase(S, corpora) EXCEPT !.l = Span(S, "left-span"), !.r = Span(S, "right-span")]
      aw == C!AllWords(c)
      rows == UNION {{aw[k][i].ty : i \in 1..Len(aw[k])} : k \in 1..Len(aw)}
      t == C!Cooc(aw, C!Pairs(c, aw, rows, TRUE, {}))
  IN  {<<k[1], k[2], t[k]>> : k \in DOMAIN t}

\* a handler fills in a missing context item format
HandlerOk(ps, S) == Same(SelectSeq(ps, LAMBDA p : p[1] # "colloc"), {p \in S : p[1] # "colloc"})
                    /\ \A p \in PairSet(ps) : p[1] = "colloc" => p \in S

Answer(c, o, st, r, kinds) ==
  CASE o.f = "line" ->
         LET S == st.heap[st.ha[o.x]] w == LineValue(S, o.s, "f", "7") IN
         Must(r.ty = w.ty, "type-of-line") \cup Must(r.co = w.co, "context-item-of-line")
         \cup Must(r.to = w.to, "token-of-line")
         \cup Must(r.word = w.word /\ r.lemma = w.lemma /\ r.pos = w.pos, "columns-of-line")
    [] o.f = "run" ->
         LET S == st.heap[st.ha[o.x]] IN
         IF kinds[o.x] = "item" THEN Must(Same(r.freq, FreqOf(S, c.corpora)), "frequencies-of-handler")
         ELSE Must({<<r.cells[i][1], r.cells[i][2], r.cells[i][3]>> : i \in 1..Len(r.cells)} = CoocOf(S, c.corpora),
                   "co-occurrences-of-handler")
    [] OTHER -> {}

StepFails(c, o, old, new, v, kinds) ==
  LET n == Len(new.di) IN
  IF Len(v.lo) # Len(new.lo) \/ Len(v.di) # n \/ Len(v.ha) # Len(new.ha) THEN {"objects"}
  ELSE Must(o.f = "loader" => Same(v.lo[Len(new.lo)], new.heap[new.lo[Len(new.lo)]]), "options-loaded")
       \cup Must(o.f \in {"get", "update", "copy"} => Same(v.di[n], new.heap[new.di[n]]), "contents-of-" \o o.f)
       \cup Must(\A i \in 1..Len(old.lo) : Same(v.lo[i], new.heap[new.lo[i]]), "loader-changed-by-" \o o.f)
       \cup Must(\A i \in 1..Len(old.di) : Same(v.di[i], new.heap[new.di[i]]),
                 IF o.f \in {"set", "del"} THEN "dictionary-after-" \o o.f ELSE "dictionary-changed-by-" \o o.f)
       \cup Must(\A i \in 1..Len(new.ha) : HandlerOk(v.ha[i], new.heap[new.ha[i]]),
                 IF o.f = "handler" THEN "settings-of-handler" ELSE "handler-changed-by-" \o o.f)
       \cup Answer(c, o, new, v.r, kinds)

Start(c) == [files |-> (0 :> c.default), heap |-> <<>>, lo |-> <<>>, di |-> <<>>, ha |-> <<>>]

Hist(c, o) ==
  OnOk(o,
    LET n == Len(c.ops)
        go(acc, i) ==
          IF acc.bad # {} THEN acc
          ELSE LET new == Apply("right", acc.st, c.ops[i])
                   kinds == IF c.ops[i].f = "handler" THEN Append(acc.kinds, c.ops[i].s) ELSE acc.kinds
               IN  [st |-> new, kinds |-> kinds, bad |-> StepFails(c, c.ops[i], acc.st, new, o.v[i], kinds)]
    IN  IF Len(o.v) # n THEN {"steps"}
        ELSE FoldLeft(go, [st |-> Start(c), kinds |-> <<>>, bad |-> {}], [i \in 1..n |-> i]).bad)

\* boundaries: c.single (set of alternatives), c.left, c.right: text patterns
IsBoundary(c, line) ==
  IF c.mech = "single" THEN T!MatchPrefix(line, c.single)
  ELSE T!MatchPrefix(line, c.left) \/ T!MatchPrefix(line, c.right)
Bound(c, o) ==
  OnOk(o, IF Len(o.v) # Len(c.lines) THEN {"lines"}
          ELSE UNION {Must((o.v[i] = 1) <=> IsBoundary(c, c.lines[i]), "boundary-lines") : i \in 1..Len(c.lines)})

(* ---- C22 ---- *)
\* how: "all", "list" (names given), "file" (a list file); observed: the paths
\* as <<"corpus", path>> below the corpus directory or <<"given", path>>
Expected(c) ==
  CASE c.how = "all" -> [i \in 1..Len(c.tree) |-> <<"corpus", c.tree[i]>>]
    [] c.how = "list" -> c.want
    [] OTHER -> F!Listed(c.lines)
\* c.alias: <<name, "corpus" or "given", path>>: other names of a file
Resolved(c, p) == IF p[1] = "given" /\ \E m \in Range0(c.alias) : m[1] = p[2]
                  THEN LET m == CHOOSE x \in Range0(c.alias) : x[1] = p[2] IN <<m[2], m[3]>> ELSE p
FilesRun(c, o) ==
  IF c.how = "file" /\ c.nofile THEN Must(o.st = "exc", "missing-list-accepted")
  ELSE OnOk(o,
    LET e == Expected(c)
        want == [i \in 1..Len(e) |-> Resolved(c, <<e[i][1], e[i][2]>>)]
        got == [i \in 1..Len(o.v.files) |-> <<o.v.files[i][1], o.v.files[i][2]>>]
    IN  Must(Range0(want) \subseteq Range0(got), "file-left-out")
        \cup Must(Range0(got) \subseteq Range0(want), "file-not-asked-for")
        \cup Must(Range0(want) = Range0(got) => SameBag(want, got), "file-more-than-once"))

(* ---- C24 ---- *)
EntryOk(e, w) == IF e.dict THEN w.dict /\ Same(w.tab, e.tab)
                 ELSE ~w.dict /\ w.word = e.word
Query(c, o) ==
  OnOk(o,
    LET want == Q!Read(c.lines, c.def) IN
    IF Len(o.v.entries) # Len(want) THEN {"entries"}
    ELSE Must(\A i \in 1..Len(want) : EntryOk(want[i], o.v.entries[i]), "contents-of-entry")
         \cup UNION {LET a == o.v.asked[j] IN
                     Must(a.w = Q!Lookup(want[a.i], a.specific, a.corpus, c.def),
                          IF a.specific THEN "word-for-corpus" ELSE "default-word") : j \in 1..Len(o.v.asked)})

Verdict(c) ==
  CASE c.kind = "hist" -> UNION {Hist(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "bound" -> UNION {Bound(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "files" -> UNION {FilesRun(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "query" -> UNION {Query(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
