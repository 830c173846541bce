-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* A small language of text patterns (a subset of regular expressions), as  *)
(* a sequence of atoms <<kind, text>>:                                      *)
(*   <<"lit", s>>   the text s            <<"any", "">>   one character     *)
(*   <<"star", "">> any number of characters                                *)
(*   <<"cls", s>>   one of the characters of s                              *)
(*   <<"not", s>>   one character that is not in s                          *)
(*   <<"plus", s>>  one or more characters not in s                         *)
(*   <<"opt", s>>   the text s or nothing                                   *)
(*   <<"alt", s, t>> the text s or the text t                               *)
(*   <<"end", "">>  the end of the text                                     *)
(*   <<"word", s>>, <<"words", s>>  one (zero) or more characters not in s; *)
(*         s lists the non-word characters in use                           *)
(***************************************************************************)
EXTENDS Util

After(s, p, t) == IF Len(s) - p >= Len(t) /\ SubSeq(s, p + 1, p + Len(t)) = t THEN {p + Len(t)} ELSE {}

\* positions (characters consumed) reachable from the positions P by one atom
RECURSIVE Step(_, _, _)
Step(s, P, a) ==
  CASE a[1] = "lit"  -> UNION {After(s, p, a[2]) : p \in P}
    [] a[1] = "any"  -> {p + 1 : p \in {q \in P : q < Len(s)}}
    [] a[1] = "star" -> UNION {p..Len(s) : p \in P}
    [] a[1] = "cls"  -> {p + 1 : p \in {q \in P : q < Len(s) /\ HasText(a[2], Char(s, q + 1))}}
    [] a[1] = "not"  -> {p + 1 : p \in {q \in P : q < Len(s) /\ ~HasText(a[2], Char(s, q + 1))}}
    [] a[1] = "plus" -> UNION {{p + n : n \in {m \in 1..(Len(s) - p) :
                                   \A i \in 1..m : ~HasText(a[2], Char(s, p + i))}} : p \in P}
    [] a[1] = "opt"  -> P \cup UNION {After(s, p, a[2]) : p \in P}
    [] a[1] = "alt"  -> UNION {After(s, p, a[2]) \cup After(s, p, a[3]) : p \in P}
    [] a[1] = "word" -> Step(s, P, <<"plus", a[2]>>)
    [] a[1] = "words" -> P \cup Step(s, P, <<"plus", a[2]>>)
    [] a[1] = "end"  -> P \cap {Len(s)}

Reach(s, pat) == FoldLeft(LAMBDA P, a : Step(s, P, a), {0}, pat)

\* the pattern matches a beginning of s
MatchPrefix(s, pat) == Reach(s, pat) # {}
\* the pattern matches all of s
MatchAll(s, pat) == Len(s) \in Reach(s, pat)

(* ---- groups: which text a bracketed part of the pattern stands for ---- *)
\* the ends of atom a from position p, in the order a matcher prefers them:
\* as much as possible first, the present before the absent, left before right
Down(S) == SetToSortSeq(S, >)
Preferred(s, p, a) ==
  CASE a[1] = "opt" -> SetToSeq(After(s, p, a[2])) \o <<p>>
    [] a[1] = "alt" -> SetToSeq(After(s, p, a[2])) \o SetToSeq(After(s, p, a[3]))
    [] OTHER -> Down(Step(s, {p}, a))

\* the first complete sequence of boundaries <<0, end of atom 1, ...>>, or <<>>
RECURSIVE Bounds(_, _, _)
Bounds(s, pat, done) ==
  LET i == Len(done) IN
  IF i > Len(pat) THEN done
  ELSE LET try(acc, e) == IF acc # <<>> THEN acc ELSE Bounds(s, pat, Append(done, e))
       IN  FoldLeft(try, <<>>, Preferred(s, done[i], pat[i]))

\* a constraint: [pat, grp], grp a sequence of atom ranges <<from, to>>;
\* the text of its group g (0: all), "*" if there is no such group
GroupText(s, con, g) ==
  LET b == Bounds(s, con.pat, <<0>>) IN
  IF g > Len(con.grp) THEN "*"
  ELSE IF g = 0 THEN SubSeq(s, 1, b[Len(b)])
  ELSE SubSeq(s, b[con.grp[g][1]] + 1, b[con.grp[g][2] + 1])
=============================================================================
