--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* Recorded corpus passes judged against Corpus.tla.                       *)
(* Record: kind, the case fields of Corpus.tla, runs (observations).       *)
(*  freq    C01    cofreq  C02/C03 (all runs of one record must agree)     *)
(*  tokens  C04/C06    posnodes C06   fault  C05                           *)
(***************************************************************************)
EXTENDS Corpus, TraceBase

Pairs2Fun(ps) == [k \in {p[1] : p \in Range0(ps)} |-> (CHOOSE p \in Range0(ps) : p[1] = k)[2]]

(* ---- C01 ---- *)
FreqVerdict(c, o) ==
  OnOk(o,
    LET exp == Tally(AllWords(c))
        obs == o.v.freq
        keys == {p[1] : p \in Range0(obs)}
    IN  Must(keys \subseteq DOMAIN exp, "item-not-in-text")
        \cup Must(DOMAIN exp \subseteq keys, "item-missing")
        \cup Must(Len(obs) = Cardinality(keys), "item-twice")
        \cup Must(\A p \in Range0(obs) : p[1] \in DOMAIN exp => p[2] = exp[p[1]], "count"))

(* ---- C02, C03 ---- *)
CellFun(cells) == [x \in {<<t[1], t[2]>> : t \in Range0(cells)} |->
                     (CHOOSE t \in Range0(cells) : <<t[1], t[2]>> = x)[3]]

\* without a context vocabulary the columns are the items that co-occur
CoocVerdict(c, exp, o) ==
  OnOk(o,
    LET rows == Range0(c.rows)
        obs == CellFun(o.v.cells)
        cols == IF c.anyctx THEN {x[2] : x \in DOMAIN exp} ELSE Range0(c.ctx)
    IN  IF o.v.none THEN Must(DOMAIN exp = {}, "nothing-returned")
        ELSE Must(DOMAIN obs \subseteq DOMAIN exp, "pair-not-in-text")
             \cup Must(DOMAIN exp \subseteq DOMAIN obs, "pair-missing")
             \cup Must(\A x \in DOMAIN exp \cap DOMAIN obs : obs[x] = exp[x], "count")
             \cup Must(Range0(o.v.rows) = rows /\ IsInjectiveSeq(o.v.rows), "row-items")
             \cup Must(Range0(o.v.cols) = cols /\ IsInjectiveSeq(o.v.cols), "col-items"))

Same(o, p) == \* two runs over the same text
  IF ~Ok(o) \/ ~Ok(p) THEN {}
  ELSE Must(Range0(o.v.cells) = Range0(p.v.cells), "schedule-changes-values")
       \cup Must((o.v.none \/ p.v.none) \/ (o.v.rows = p.v.rows /\ o.v.cols = p.v.cols),
                 "schedule-changes-labels")

CoocRecord(c) ==
  LET aw == AllWords(c)
      exp == Cooc(aw, Pairs(c, aw, Range0(c.rows), c.anyctx, Range0(c.ctx)))
  IN  UNION {CoocVerdict(c, exp, c.runs[i]) : i \in 1..Len(c.runs)}
      \cup UNION {Same(c.runs[1], c.runs[i]) : i \in 2..Len(c.runs)}

(* ---- C04 ---- *)
TokenVerdict(c, exp, o) ==
  OnOk(o,
    LET obs == Range0(o.v.toks)
        id(t) == <<t.ty, t.fid, t.lid>>
        ids == {id(t) : t \in exp}
        skip == o.v.nomtx /\ obs = {}      \* refused: nothing to tabulate
    IN  IF skip THEN {} ELSE
        Must({id(t) : t \in obs} \subseteq ids, "token-not-in-text")
        \cup Must(ids \subseteq {id(t) : t \in obs}, "token-missing")
        \cup Must(Len(o.v.toks) = Cardinality({id(t) : t \in obs}), "token-twice")
        \cup Must(\A t \in obs : id(t) \in ids =>
                    LET e == CHOOSE x \in exp : id(x) = id(t)
                    IN  t.left = e.left /\ t.right = e.right /\ t.lat = e.lat /\ t.rat = e.rat, "context")
        \cup Must({t.name : t \in obs} \subseteq {t.name : t \in exp}, "token-name")
        \cup Must(Range0(o.v.types) = Range0(c.rows), "queried-types"))

(* ---- C06: the token by context position matrix, from the tokens' own contexts ---- *)
Positions(t, item) ==
  {-(Len(t.left) + 1 - i) : i \in {x \in 1..Len(t.left) : t.left[x] = item}}
  \cup {i \in 1..Len(t.right) : t.right[i] = item}

PosVerdict(toks, o) ==
  OnOk(o,
    LET ctx(t) == (Range0(t.left) \cup Range0(t.right)) \ {""}
        all == UNION {ctx(t) : t \in toks}
        obs == CellFun(o.v.cells)
        byname(n) == CHOOSE t \in toks : t.name = n
        names == {t.name : t \in toks}
    IN  IF o.v.nomtx THEN Must(all = {}, "no-matrix")
        ELSE Must(Range0(o.v.rows) = names /\ IsInjectiveSeq(o.v.rows), "rows-are-the-tokens")
             \cup Must(Range0(o.v.cols) = all /\ IsInjectiveSeq(o.v.cols), "cols-are-the-context-items")
             \cup Must(\A x \in DOMAIN obs : x[1] \in names =>
                         obs[x] \in Positions(byname(x[1]), x[2]), "position")
             \cup Must(\A t \in toks : \A it \in ctx(t) : <<t.name, it>> \in DOMAIN obs,
                       "context-item-missing"))

TokenRecord(c, withPos) ==
  LET aw == AllWords(c)
      exp == Tokens(c, aw, Range0(c.rows), c.anyctx, Range0(c.ctx))
  IN  UNION {(IF c.kind = "tokpos" THEN {} ELSE TokenVerdict(c, exp, c.runs[i]))
             \cup (IF withPos THEN PosVerdict(exp, c.runs[i]) ELSE {}) : i \in 1..Len(c.runs)}

\* tokens made by hand: their contexts in a format of choice, cut to the spans and
\* restricted to a vocabulary when they are read one type at a time
NodeRecord(c) ==
  LET item(x) == Join([k \in 1..Len(c.fmt) |-> x[c.fmt[k]]], "/")
      near(s, n) == SubSeq(s, IF Len(s) > n THEN Len(s) - n + 1 ELSE 1, Len(s))
      \* items outside the vocabulary keep their place
      seen(it) == IF c.vocab = <<>> \/ it \in Range0(c.vocab) THEN it ELSE ""
      side(s) == [k \in 1..Len(s) |-> seen(item(s[k]))]
      toks == {[name |-> t.name, left |-> side(near(t.left, c.l)),
                right |-> side(SubSeq(t.right, 1, IF Len(t.right) > c.r THEN c.r ELSE Len(t.right)))] : t \in Range0(c.toks)}
      live == IF c.how = "read" THEN {t \in toks : (Range0(t.left) \cup Range0(t.right)) \ {""} # {}} ELSE toks
  IN  UNION {PosVerdict(live, c.runs[i]) : i \in 1..Len(c.runs)}

(* ---- C05 ---- *)
\* a pass over a selection with a file that cannot be processed
FaultRecord(c) ==
  UNION {LET o == c.runs[i] IN
         Must(o.st # "hang", "blocks-for-ever")
         \cup Must(~(o.st \in {"ok", "bad"}), "failure-hidden") : i \in 1..Len(c.runs)}

Verdict(c) ==
  CASE c.kind = "freq"   -> UNION {FreqVerdict(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "cofreq" -> CoocRecord(c)
    [] c.kind = "tokens" -> TokenRecord(c, FALSE)
    [] c.kind = "tokpos" -> TokenRecord(c, TRUE)
    [] c.kind = "posnodes" -> NodeRecord(c)
    [] c.kind = "fault"  -> FaultRecord(c)

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
