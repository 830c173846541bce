------------------------------- MODULE Vocab -------------------------------
(***************************************************************************)
(* Vocabularies (core/vocab.py) as objects with a history: a heap of        *)
(* vocabularies, source dictionaries, exported dictionaries and frames,     *)
(* each holding its own contents, a set of <<item, frequency>> pairs.       *)
(* Apply(heap, op) is the complete meaning of one public operation: the new *)
(* heap and the value returned.  Used to generate behaviours (VocabGen) and *)
(* to judge recorded ones (VocabTrace); SelectionLaws etc. are checked over *)
(* all small heaps.                                                         *)
(***************************************************************************)
EXTENDS Text

\* code point rank of the characters that occur
CONSTANT Rk

Keys(S) == {p[1] : p \in S}
Freq(S, k) == (CHOOSE p \in S : p[1] = k)[2]
FreqOr0(S, k) == IF k \in Keys(S) THEN Freq(S, k) ELSE 0
Put(S, k, n) == {p \in S : p[1] # k} \cup {<<k, n>>}
Total(S) == FoldSet(LAMBDA p, acc : p[2] + acc, 0, S)

\* rank order: frequency descending, ties alphabetically
RankBefore(p, q) == \/ p[2] > q[2]
                    \/ p[2] = q[2] /\ StrLess(Rk, p[1], q[1])
Ranked(S) == SetToSortSeq(S, RankBefore)

Holds(cmp, a, b) == CASE cmp = "<" -> a < b [] cmp = "<=" -> a <= b [] cmp = "==" -> a = b
                      [] cmp = ">" -> a > b [] cmp = ">=" -> a >= b

SelItems(S, items) == {p \in S : p[1] \in Range0(items)}
SelFreqs(S, ns)    == {p \in S : p[2] \in Range0(ns)}
\* h = 1: the threshold n + 1/2
SelHalf(S, cmp, n, h) == {p \in S : Holds(cmp, 2 * p[2], 2 * n + h)}
SelCond(S, cmp, n) == SelHalf(S, cmp, n, 0)
SelRegex(S, pat)   == {p \in S : MatchPrefix(p[1], pat)}
\* the part of an item before its last '/'
Stem(item) == LET ps == CharPos(item, "/") IN
              IF ps = <<>> THEN item ELSE SubSeq(item, 1, ps[Len(ps)] - 1)
SelWord(S, w) == {p \in S : Stem(p[1]) = w}
SubVocab(S, items) == {<<k, FreqOr0(S, k)>> : k \in Range0(items)}

\* Python slice bounds: <<has, value>>
Bound(b, dflt, n) == IF b[1] = 0 THEN dflt
                     ELSE LET v == IF b[2] < 0 THEN b[2] + n ELSE b[2]
                          IN  IF v < 0 THEN 0 ELSE IF v > n THEN n ELSE v
\* every k-th of the items of rank a to b
SliceBy(S, a, b, k) == LET r == Ranked(S)
                           lo == Bound(a, 0, Len(r))
                           hi == Bound(b, Len(r), Len(r))
                       IN  {r[i] : i \in {j \in (lo + 1)..hi : (j - lo - 1) % k = 0}}
Slice(S, a, b) == SliceBy(S, a, b, 1)

ItemList(S, sorting, desc) ==
  LET names(s) == [i \in 1..Len(s) |-> s[i][1]]
  IN  CASE sorting = "alpha" /\ ~desc -> SortStrings(Rk, Keys(S))
        [] sorting = "alpha" /\ desc  -> Reverse(SortStrings(Rk, Keys(S)))
        [] sorting = "freq" /\ desc   -> names(Ranked(S))
        [] sorting = "freq" /\ ~desc  ->
             names(SetToSortSeq(S, LAMBDA p, q : p[2] < q[2] \/ (p[2] = q[2] /\ StrLess(Rk, p[1], q[1]))))

\* what one selection of a chain leaves of S
Select(S, o) ==
  CASE o.f = "items" -> SelItems(S, o.ks)
    [] o.f = "freqs" -> SelFreqs(S, o.ns)
    [] o.f = "cond"  -> SelHalf(S, o.c1, o.n1, o.h1)
    [] o.f = "regex" -> SelRegex(S, o.pat)
    [] o.f = "slice" -> SliceBy(S, o.a, o.b, o.n1)
Path(S, os) == FoldLeft(Select, S, os)

(* ---- one operation.  o.f is the name; o.x the object it works on.       ---- *)
(* Result: [h |-> new heap, r |-> returned value, b |-> which field holds it]  *)
Res(h, r) == [h |-> h, r |-> r]

Makers == {"new", "copy", "dict", "items", "freqs", "cond", "chain", "path", "regex", "word", "slice", "sub", "frame"}
Changers == {"inc", "set"}

Apply(h, o) ==
  LET S == h[o.x] IN
  CASE o.f = "src"   -> Res(Append(h, {<<o.ps[i][1], o.ps[i][2]>> : i \in 1..Len(o.ps)}), <<>>)
    [] o.f = "new"   -> Res(Append(h, S), <<>>)
    [] o.f = "copy"  -> Res(Append(h, S), <<>>)
    [] o.f = "dict"  -> Res(Append(h, S), <<>>)
    [] o.f = "items" -> Res(Append(h, SelItems(S, o.ks)), <<>>)
    [] o.f = "freqs" -> Res(Append(h, SelFreqs(S, o.ns)), <<>>)
    [] o.f = "cond"  -> Res(Append(h, SelHalf(S, o.c1, o.n1, o.h1)), <<>>)
    [] o.f = "chain" -> Res(Append(h, SelHalf(SelHalf(S, o.c1, o.n1, o.h1), o.c2, o.n2, o.h2)), <<>>)
    [] o.f = "path"  -> Res(Append(h, Path(S, o.ops)), <<>>)
    [] o.f = "regex" -> Res(Append(h, SelRegex(S, o.pat)), <<>>)
    [] o.f = "word"  -> Res(Append(h, SelWord(S, o.k)), <<>>)
    [] o.f = "slice" -> Res(Append(h, SliceBy(S, o.a, o.b, o.n1)), <<>>)
    [] o.f = "sub"   -> Res(Append(h, SubVocab(S, o.ks)), <<>>)
    [] o.f = "inc"   -> Res([h EXCEPT ![o.x] = Put(S, o.k, FreqOr0(S, o.k) + o.n1)], <<>>)
    [] o.f = "set"   -> Res([h EXCEPT ![o.x] = Put(S, o.k, o.n1)], <<>>)
    [] o.f = "get"   -> Res(h, <<FreqOr0(S, o.k)>>)
    [] o.f = "has"   -> Res(h, <<IF o.k \in Keys(S) THEN 1 ELSE 0>>)
    [] o.f = "len"   -> Res(h, <<Cardinality(S)>>)
    [] o.f = "sum"   -> Res(h, <<Total(S)>>)
    [] o.f = "empty" -> Res(h, <<IF S = {} THEN 1 ELSE 0>>)
    [] o.f = "equal" -> Res(h, <<IF S = h[o.y] THEN 1 ELSE 0>>)
    [] o.f = "list"  -> Res(h, ItemList(S, o.k, o.n1 = 1))
    [] o.f = "keys"  -> Res(h, SortStrings(Rk, Keys(S)))
    [] o.f = "values" -> Res(h, SortSeq([i \in 1..Len(Ranked(S)) |-> Ranked(S)[i][2]], <))
    [] o.f = "frame" -> Res(h, Ranked(S))
    [] o.f = "show"  -> Res(h, <<>>)

ReadOnly == {"get", "has", "len", "sum", "empty", "equal", "list", "keys", "values", "frame", "show"}
=============================================================================
