------------------------------ MODULE ModelLaws ------------------------------
(***************************************************************************)
(* Laws of the chain (Model.tla) over every small text and window: a state  *)
(* is one text, a sequence of lines in one or two files.                    *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, MaxSpan, TwoTo
VARIABLE x
LinesUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Lines == {"a\tN", "b\tN", "<s>"}
Case(fs, l, r) == [files |-> [k \in 1..Len(fs) |-> [fid |-> IF k = 1 THEN "f" ELSE "g", lines |-> fs[k]]],
                   sel |-> [k \in 1..Len(fs) |-> k], ncol |-> 2, ty |-> <<1, 2>>, co |-> <<1, 2>>, to |-> <<1, 2>>,
                   sep |-> "<s>", l |-> l, r |-> r]
Init == x \in {Case(fs, l, r) : l \in 0..MaxSpan, r \in 0..MaxSpan,
               fs \in {<<s>> : s \in LinesUpTo(Lines, MaxLen)} \cup {<<s, t>> : s \in LinesUpTo(Lines, TwoTo), t \in LinesUpTo(Lines, TwoTo)}}
Next == FALSE /\ x' = x
Rk0 == RankIn("/Nab")
Laws ==
  LET aw == AllWords(x)  full == Full(x, aw) IN
  /\ Symmetric(x, full) /\ Turned(x, aw, full) /\ RowsFromTokens(x, aw, full) /\ Bounded(x, aw, full)
  /\ Margins(full) /\ Additive(x, aw, full) /\ Linear(x, aw, full)
\* selections by rank: exactly so many, and a longer one contains a shorter one
Selections ==
  LET fr == Tally(AllWords(x)) IN
  \A n \in 0..3 :
    /\ Cardinality(SelectV(fr, <<"top", n>>)) = Min({n, Cardinality(DOMAIN fr)})
    /\ SelectV(fr, <<"top", n>>) \subseteq SelectV(fr, <<"top", n + 1>>)
    /\ \A i \in SelectV(fr, <<"top", n>>), o \in DOMAIN fr \ SelectV(fr, <<"top", n>>) : fr[i] >= fr[o]
    /\ SelectV(fr, <<"min", n + 1>>) \subseteq SelectV(fr, <<"min", n>>)
=============================================================================
