-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Operators shared by every specification: text (TLC evaluates Len and    *)
(* SubSeq on strings), ordering by code point, sums, sorting, bags.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt,
        FiniteSetsExt, Functions

Range0(s) == {s[i] : i \in 1..Len(s)}           \* elements of a sequence

Char(s, i) == SubSeq(s, i, i)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* positions (ascending) at which the one-character string ch occurs in s
CharPos(s, ch) == SetToSortSeq({i \in 1..Len(s) : Char(s, i) = ch}, <)

Split(s, ch) ==
  LET ps == <<0>> \o CharPos(s, ch) \o <<Len(s) + 1>>
  IN  [k \in 1..(Len(ps) - 1) |-> SubSeq(s, ps[k] + 1, ps[k + 1] - 1)]

Join(seq, sep) ==
  IF seq = <<>> THEN ""
  ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, seq[1], Tail(seq))

Blank == {" ", "\t", "\r", "\n"}

Strip(s) ==
  LET solid == {i \in 1..Len(s) : Char(s, i) \notin Blank}
  IN  IF solid = {} THEN "" ELSE SubSeq(s, Min(solid), Max(solid))

\* the first occurrence of string p in s, or 0
IndexOf(s, p) ==
  LET at == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
  IN  IF at = {} THEN 0 ELSE Min(at)

HasText(s, p) == IndexOf(s, p) # 0

RECURSIVE SubstAll(_, _, _)
SubstAll(s, p, q) ==
  LET i == IndexOf(s, p)
  IN  IF i = 0 THEN s
      ELSE SubSeq(s, 1, i - 1) \o q
           \o SubstAll(SubSeq(s, i + Len(p), Len(s)), p, q)

(* ---- order of text: alphabet is one string, its characters ascending ---- *)
RankIn(alphabet) == [ch \in {Char(alphabet, i) : i \in 1..Len(alphabet)} |->
                       CHOOSE i \in 1..Len(alphabet) : Char(alphabet, i) = ch]

\* a < b by code points; rank is RankIn(alphabet)
StrLess(rank, a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      diff == {i \in 1..n : Char(a, i) # Char(b, i)}
  IN  IF diff = {} THEN Len(a) < Len(b)
      ELSE LET d == Min(diff) IN rank[Char(a, d)] < rank[Char(b, d)]

SortStrings(rank, S) == SetToSortSeq(S, LAMBDA a, b : StrLess(rank, a, b))

(* ---- sums, sequences ---- *)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

IsInjectiveSeq(s) == Cardinality(Range0(s)) = Len(s)

\* multiset equality of two sequences
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in Range0(s) \cup Range0(t) :
        Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})

\* t is obtained from s by leaving elements out
IsSubSeqOf(t, s) ==
  LET step(k, x) == LET c == {i \in (k + 1)..Len(s) : s[i] = x}
                    IN  IF k > Len(s) \/ c = {} THEN Len(s) + 1 ELSE Min(c)
  IN  FoldLeft(LAMBDA k, x : step(k, x), 0, t) <= Len(s)

Bool2Set(b, name) == IF b THEN {} ELSE {name}   \* clause helper: {} when it holds

Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
