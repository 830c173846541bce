-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The whole chain from a corpus to distances between tokens, as functions  *)
(* of the text alone: vocabularies, co-occurrences, marginals, association, *)
(* token weights and vectors.  A table is [R, C, f]: its row and column     *)
(* items and its recorded cells, f[<<row item, column item>>].              *)
(* A case is a corpus (Corpus.tla) with the same format for types and       *)
(* context items, and the choices of a chain.                               *)
(***************************************************************************)
EXTENDS Corpus
CONSTANT MRk                                   \* order of characters
A == INSTANCE Assoc

Get(t, r, c) == IF <<r, c>> \in DOMAIN t.f THEN t.f[<<r, c>>] ELSE 0
SumF(F(_), S) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)

(* ---- vocabularies: <<"all">>, <<"min", n>>, <<"top", n>>, <<"items", list>> ---- *)
Before(fr, x, y) == fr[x] > fr[y] \/ (fr[x] = fr[y] /\ StrLess(MRk, x, y))
SelectV(fr, s) ==
  CASE s[1] = "all" -> DOMAIN fr
    [] s[1] = "min" -> {x \in DOMAIN fr : fr[x] >= s[2]}
    [] s[1] = "top" -> {x \in DOMAIN fr : Cardinality({y \in DOMAIN fr \ {x} : Before(fr, y, x)}) < s[2]}
    [] s[1] = "items" -> DOMAIN fr \cap Range0(s[2])

(* ---- the frequency table of all items with all items ---- *)
Full(c, aw) ==
  LET V == DOMAIN Tally(aw)
  IN  [R |-> V, C |-> V, f |-> Cooc(aw, Pairs(c, aw, V, FALSE, V))]
RowSum(t, r) == SumF(LAMBDA p : t.f[p], {p \in DOMAIN t.f : p[1] = r})
ColSum(t, k) == SumF(LAMBDA p : t.f[p], {p \in DOMAIN t.f : p[2] = k})
Total(t) == SumF(LAMBDA p : t.f[p], DOMAIN t.f)

\* rows R, columns C, cells above cut; columns without cells are left out on request
Part(t, R, C, cut, tidy) ==
  LET f == [p \in {q \in DOMAIN t.f : q[1] \in R /\ q[2] \in C /\ t.f[q] > cut} |-> t.f[p]]
      rs == t.R \cap R
  IN  [R |-> rs, C |-> IF tidy THEN {p[2] : p \in DOMAIN f} ELSE t.C \cap C, f |-> f]

\* the association of a recorded cell of a part, with the marginals of the whole
Marg(full) == [r |-> [x \in full.R |-> RowSum(full, x)], c |-> [x \in full.C |-> ColSum(full, x)], n |-> Total(full)]
AssocOf(m, part, meas, p) == A!Measure(meas, part.f[p], m.r[p[1]], m.c[p[2]], m.n)

(* ---- tokens ---- *)
PosOf(t, item) ==
  {-(Len(t.left) + 1 - i) : i \in {x \in 1..Len(t.left) : t.left[x] = item}}
  \cup {i \in 1..Len(t.right) : t.right[i] = item}
CtxOf(t) == Range0(t.left) \cup Range0(t.right)
CtxAll(toks) == UNION {CtxOf(t) : t \in toks}

\* vectors: the frequencies of a token's context items, weighted by those of its type
Weight(part, t, item) == IF item \in CtxOf(t) THEN Get(part, t.ty, item) ELSE 0
VecAt(full, part, common, t, k) == SumF(LAMBDA x : Weight(part, t, x) * Get(full, x, k), common)

(* ---- real weights and vectors, in units of 1/200, each off by at most 1 ---- *)
Coarse(v) == IF v < 0 THEN -((-v + 25) \div 50) ELSE (v + 25) \div 50
\* weights w[y] of the items y in W, second order rows s[<<y, k>>] with columns K,
\* the vector divided by its sum: is x (1/10000) the component k?
ShareOk(W, K, w, s, k, x) ==
  LET num(j) == SumF(LAMBDA y : w[y] * s[<<y, j>>], W)
      err(j) == SumF(LAMBDA y : w[y] + s[<<y, j>>] + 1, W)
      D == SumF(num, K)
      E == SumF(err, K)
      want == A!Div(num(k), D)
      tol == A!Div(err(k), D - E) + ((want \div 10 + 1) * (E \div 10 + 1) * 10) \div ((D - E) \div 10 + 1) + 5
  IN  D <= 2 * E \/ Abs(x - want) <= tol        \* or not determined closely enough

(* ---- vectors of the tokens of a concept, a set of types ---- *)
\* above a cutoff (1/10000), below it, or too close to call
Above(v, cut) == IF v.v > cut + v.tol THEN "yes" ELSE IF v.v < cut - v.tol THEN "no" ELSE "maybe"
Concept(full, toks, types, fcut, pcut, lcut) ==
  LET m == Marg(full)
      part == Part(full, types, full.C, fcut, TRUE)
      pm == [p \in DOMAIN part.f |-> AssocOf(m, part, "pmi", p)]
      vote(p) == {Above(pm[p], pcut), Above(AssocOf(m, part, "lik", p), lcut)}
      kept == {p \in DOMAIN part.f : vote(p) = {"yes"}}
      open == {p \in DOMAIN part.f : vote(p) \cap {"no"} = {}} \ kept
      mine == {t \in toks : t.ty \in types}
      soc == [q \in full.R \X full.C |-> IF q \in DOMAIN full.f THEN Coarse(A!Measure("ppmi", full.f[q], m.r[q[1]], m.c[q[2]], m.n).v) ELSE 0]
  IN  [toks |-> mine, kept |-> kept, w |-> [p \in kept |-> Coarse(pm[p].v)], soc |-> soc,
       free |-> \E p \in open : pm[p].v > 25,
       rows |-> {t \in mine : \E y \in CtxOf(t) : <<t.ty, y>> \in kept},
       may  |-> {t \in mine : \E y \in CtxOf(t) : <<t.ty, y>> \in kept \cup open}]

(* ---- laws of the definitions, checked over all small texts (ModelLaws) ---- *)
\* a symmetric window gives a symmetric table
Symmetric(c, full) == c.l = c.r => \A x \in full.R, y \in full.C : Get(full, x, y) = Get(full, y, x)
\* turning the window round transposes the table
Turned(c, aw, full) == LET back == Full([c EXCEPT !.l = c.r, !.r = c.l], aw) IN
  \A x \in full.R, y \in full.C : Get(full, x, y) = Get(back, y, x)
\* the contexts of all tokens of a type are the row of the type
RowsFromTokens(c, aw, full) ==
  LET toks == Tokens(c, aw, full.R, TRUE, {})
      occ(t, y) == Cardinality({i \in 1..Len(t.left) : t.left[i] = y}) + Cardinality({i \in 1..Len(t.right) : t.right[i] = y})
  IN  \A x \in full.R, y \in full.C : SumF(LAMBDA t : occ(t, y), {t \in toks : t.ty = x}) = Get(full, x, y)
\* no item has more neighbours than its frequency allows
Bounded(c, aw, full) == \A x \in full.R : RowSum(full, x) <= Tally(aw)[x] * (c.l + c.r)
\* totals agree, and every cell gives a table of counts
Margins(full) ==
  LET m == Marg(full) IN
  /\ SumF(LAMBDA x : m.r[x], full.R) = m.n /\ SumF(LAMBDA x : m.c[x], full.C) = m.n
  /\ \A p \in DOMAIN full.f : A!Table(full.f[p], m.r[p[1]], m.c[p[2]], m.n)
\* the table of several files is the sum of theirs
Additive(c, aw, full) ==
  Len(aw) > 1 => LET one(k) == Full([c EXCEPT !.sel = <<c.sel[k]>>], <<aw[k]>>) IN
                 \A x \in full.R, y \in full.C : SumF(LAMBDA k : Get(one(k), x, y), 1..Len(aw)) = Get(full, x, y)
\* vectors of tokens add up to the product of the tables when every context has its item once
Linear(c, aw, full) ==
  LET toks == Tokens(c, aw, full.R, TRUE, {})
      one == [full EXCEPT !.f = [p \in DOMAIN full.f |-> 1]]
      once == \A t \in toks : IsInjectiveSeq(t.left \o t.right)
  IN  once => \A x \in full.R, k \in full.C :
        SumF(LAMBDA t : VecAt(full, one, full.C, t, k), {t \in toks : t.ty = x})
        = SumF(LAMBDA y : Get(full, x, y) * Get(full, y, k), full.C)
=============================================================================
