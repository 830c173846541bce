----------------------------- MODULE ModelTrace -----------------------------
(***************************************************************************)
(* Recorded chains from a corpus to token distances, every stage judged     *)
(* from the text alone (Model.tla).                                         *)
(*  chain       handlers and functions called one after the other           *)
(*  vectorizer  the vectorizer classes                                      *)
(***************************************************************************)
EXTENDS Corpus, TraceBase
MRk0 == RankIn(Header.alphabet)
D == INSTANCE Model WITH MRk <- MRk0

PairFun(ps) == [k \in {p[1] : p \in Range0(ps)} |-> (CHOOSE p \in Range0(ps) : p[1] = k)[2]]
Cells(g) == [x \in {<<t[1], t[2]>> : t \in Range0(g.cells)} |->
               (CHOOSE t \in Range0(g.cells) : <<t[1], t[2]>> = x)[3]]
At(g, p) == LET S == {t \in Range0(g.cells) : t[1] = p[1] /\ t[2] = p[2]} IN
            IF S = {} THEN 0 ELSE (CHOOSE t \in S : TRUE)[3]
Labels(g, R, C, name) ==
  Must(Range0(g.rows) = R /\ IsInjectiveSeq(g.rows) /\ Range0(g.cols) = C /\ IsInjectiveSeq(g.cols), name \o "-labels")
\* recorded non-zero cells are those of the table
SameTable(g, t, name) ==
  Labels(g, t.R, t.C, name)
  \cup Must(Cells(g) = [p \in {q \in DOMAIN t.f : t.f[q] # 0} |-> t.f[p]], name \o "-values")
FreqOk(obs, exp, name) == Must(PairFun(obs) = exp /\ Len(obs) = Cardinality(DOMAIN exp), name)

\* every cell of an association matrix; cells that are not recorded hold nothing
AssocOk(g, m, part, meas, name) ==
  LET C == Cells(g) IN
  Labels(g, part.R, part.C, name)
  \cup Must(DOMAIN C \subseteq DOMAIN part.f, name \o "-new-cells")
  \cup Must(\A p \in DOMAIN part.f :
              D!A!Near(IF p \in DOMAIN C THEN C[p] ELSE 0, D!AssocOf(m, part, meas, p)), name \o "-values")

ChainRun(c, o) ==
  LET aw == AllWords(c)
      fr == Tally(aw)
      full == D!Full(c, aw)
      m == D!Marg(full)
      R == D!SelectV(fr, c.rsel)   C == D!SelectV(fr, c.csel)
      part == D!Part(full, R, C, c.cut, c.tidy)
      toks == LET tc == [c EXCEPT !.sel = c.tsel] IN Tokens(tc, AllWords(tc), Range0(c.queries), TRUE, {})
      common == part.C \cap D!CtxAll(toks)
      names == {t.name : t \in toks}
      tok(n) == CHOOSE t \in toks : t.name = n
      \* weights of association, expected for a token and a context item
      WOk(t, y, x) == IF y \in D!CtxOf(t) /\ <<t.ty, y>> \in DOMAIN part.f
                      THEN D!A!Near(x, D!AssocOf(m, part, c.meas, <<t.ty, y>>)) ELSE x = 0
      vec == [p \in toks \X full.C |-> D!VecAt(full, part, common, p[1], p[2])]
      gap(t, u) == D!SumF(LAMBDA k : Abs(vec[<<t, k>>] - vec[<<u, k>>]), full.C)
      dot(t, u) == D!SumF(LAMBDA k : vec[<<t, k>>] * vec[<<u, k>>], full.C)
      defd == \A p \in DOMAIN part.f : D!AssocOf(m, part, c.meas, p).def
      v == o.v
      empty == DOMAIN part.f = {}
      upto(k) == k <= v.stage
  IN  IF m.n > D!A!LnMax THEN {"case-not-valid"}
      ELSE IF o.st = "exc" /\ ~defd THEN {}
      ELSE OnOk(o,
        FreqOk(v.freq, fr, "frequencies")
        \cup Must(Range0(v.rowv) = R /\ Range0(v.colv) = C /\ Len(v.rowv) = Cardinality(R) /\ Len(v.colv) = Cardinality(C), "selections")
        \cup (IF v.nopairs THEN Must(DOMAIN full.f = {}, "no-matrix") ELSE
             SameTable(v.full, full, "cooccurrences")
             \cup FreqOk(v.nf, m.r, "row-marginals") \cup FreqOk(v.cf, m.c, "column-marginals")
             \cup (IF ~upto(1) THEN Must(empty, "stopped-without-reason") ELSE
                SameTable(v.part, part, "part")
                \cup AssocOk(v.ass, m, part, c.meas, "association")
                \cup (IF ~upto(2) THEN Must(common = {}, "stopped-without-reason") ELSE
                   Labels(v.w, names, common, "weights") \cup Labels(v.fw, names, common, "frequency-weights")
                   \cup Labels(v.vec, names, full.C, "vectors") \cup Labels(v.dist, names, names, "distances")
                   \cup Labels(v.cos, names, names, "cosines") \cup Labels(v.rank, names, names, "ranks")
                   \cup Must(\A t \in toks, y \in common : WOk(t, y, At(v.w, <<t.name, y>>)), "weights-values")
                   \cup Must(\A t \in toks, y \in common : At(v.fw, <<t.name, y>>) = D!Weight(part, t, y), "frequency-weights-values")
                   \cup Must(\A p \in DOMAIN vec : At(v.vec, <<p[1].name, p[2]>>) = vec[p], "vectors-values")
                   \cup Must(\A t, u \in toks : At(v.dist, <<t.name, u.name>>) = gap(t, u), "distances-values")
                   \cup Must(\A t, u \in toks : LET x == At(v.cos, <<t.name, u.name>>)
                                                   aa == dot(t, t)  bb == dot(u, u)  ab == dot(t, u) IN
                               \/ t # u /\ (aa > 14000 \/ bb > 14000)     \* too large to square
                               \/ IF t = u THEN Abs(x - 10000) <= 1
                                  ELSE IF aa = 0 \/ bb = 0 THEN x = 0
                                  ELSE x >= -1 /\ Abs(x * x - D!A!DivK(ab * ab, aa * bb, 8)) <= 4 * Abs(x) + 4, "cosines-values")
                   \cup Must(\A t \in toks :
                               /\ {At(v.rank, <<t.name, u.name>>) : u \in toks} = 1..Cardinality(toks)
                               /\ \A u, z \in toks : At(v.rank, <<t.name, u.name>>) < At(v.rank, <<t.name, z.name>>)
                                                     => gap(t, u) <= gap(t, z), "ranks-values")
                   \cup Must(\A q \in Range0(v.near) :
                               LET t == tok(q[1])  S == Range0(q[3])  others == names \ {q[1]} IN
                               /\ q[1] \in names /\ S \subseteq others /\ Len(q[3]) = Cardinality(S)
                               /\ Cardinality(S) = Min({q[2], Cardinality(others)})
                               /\ \A a \in S, b \in others \ S : gap(t, tok(a)) <= gap(t, tok(b)), "nearest")
                   \cup (IF c.meas # "ppmi" THEN {} ELSE
                        Labels(v.rvec, names, full.C, "normalised-vectors")
                        \cup Must(\A t \in toks :
                              LET W == {y \in common \cap D!CtxOf(t) : <<t.ty, y>> \in DOMAIN part.f}
                                  w == [y \in W |-> D!Coarse(D!AssocOf(m, part, "ppmi", <<t.ty, y>>).v)]
                                  s == [q \in W \X full.C |-> IF q \in DOMAIN full.f
                                          THEN D!Coarse(D!A!Measure("ppmi", full.f[q], m.r[q[1]], m.c[q[2]], m.n).v) ELSE 0]
                              IN  \A k \in full.C : D!ShareOk(W, full.C, w, s, k, At(v.rvec, <<t.name, k>>)), "normalised-vectors-values")))))
        \cup Must(v.same, "argument-changed"))

ConceptOk(e, cols, g) ==
  LET names(S) == {t.name : t \in S} IN
  Must(names(e.rows) \subseteq Range0(g.rows) /\ Range0(g.rows) \subseteq names(e.may) /\ IsInjectiveSeq(g.rows), "concept-tokens")
  \cup Must(Range0(g.cols) = cols /\ IsInjectiveSeq(g.cols), "concept-columns")
  \cup Must(\A t \in e.rows :
              LET W == {y \in D!CtxOf(t) : <<t.ty, y>> \in e.kept}
                  w == [y \in W |-> e.w[<<t.ty, y>>]] IN
              \A k \in cols : D!ShareOk(W, cols, w, e.soc, k, At(g, <<t.name, k>>)), "concept-vectors")

VectorizerRun(c, o) ==
  LET aw == AllWords(c)
      fr == Tally(aw)
      V == D!SelectV(fr, c.rsel)
      K == IF c.csel[1] = "same" THEN V ELSE D!SelectV(fr, c.csel)
      full0 == D!Full(c, aw)
      full == D!Part(full0, V, K, 0, FALSE)
      m == D!Marg(full)
      asked == UNION {Range0(k[2]) : k \in Range0(c.concepts)}
      toks == LET tc == [c EXCEPT !.sel = c.tsel] IN Tokens(tc, AllWords(tc), asked, TRUE, {})
      exp == [i \in 1..Len(c.concepts) |-> D!Concept(full, toks, Range0(c.concepts[i][2]), c.fcut, c.pcut, c.lcut)]
      defd == \A p \in DOMAIN full.f : D!AssocOf(m, full, c.meas, p).def
      v == o.v
  IN  IF m.n > D!A!LnMax THEN {"case-not-valid"}
      ELSE IF V = {} \/ K = {} THEN {}          \* an empty vocabulary is not a restriction
      ELSE OnOk(o,
        FreqOk(v.freq, fr, "vocabulary")
        \cup (IF v.nopairs THEN Must(DOMAIN full.f = {}, "no-matrix") ELSE
             SameTable(v.full, full, "cooccurrences")
             \cup (IF v.ast = "exc" THEN Must(~defd, "no-association") ELSE AssocOk(v.ass, m, full, c.meas, "association"))
             \cup (IF v.tst = "skip" THEN {} ELSE IF v.tst = "exc" THEN Must(D!CtxAll(toks) = {}, "tokens-refused") ELSE
                Must(Len(v.concepts) = Len(c.concepts) /\ \A i \in 1..Len(v.concepts) :
                       LET g == v.concepts[i]  k == c.concepts[i] IN
                       /\ g[1] = k[1] /\ Len(g[2]) = Len(k[2])
                       /\ \A j \in 1..Len(k[2]) :
                            /\ g[2][j][1] = k[2][j]
                            /\ SameBag(g[2][j][2], SetToSeq({t.name : t \in {u \in toks : u.ty = k[2][j]}})), "concepts")
                \cup (IF v.vst = "exc" THEN Must(\E i \in 1..Len(exp) : exp[i].rows = {}, "vectors-refused")
                      ELSE Must(Len(v.vecs) = Len(c.concepts), "concepts-of-vectors")
                           \cup UNION {IF exp[i].free THEN {} ELSE
                                       LET S == {x \in Range0(v.vecs) : x.name = c.concepts[i][1]} IN
                                       IF Cardinality(S) # 1 THEN {"concept-missing"}
                                       ELSE ConceptOk(exp[i], full.C, CHOOSE x \in S : TRUE) : i \in 1..Len(exp)})))
        \cup Must(v.same, "argument-changed"))

Run(c, o) == CASE c.kind = "chain" -> ChainRun(c, o) [] c.kind = "vectorizer" -> VectorizerRun(c, o)
Verdict(c) == UNION {Run(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
