-------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* Collections of tokens.  A collection is a name, the format of that name, *)
(* and a list of tokens; lists are allocated on a heap, so that a faulty    *)
(* operation can make two collections share one.  st = [heap, objs]: objs a *)
(* sequence of [ty, fmt, ref], ref an index into heap.                      *)
(*                                                                          *)
(* o.f:  new     a collection (o.ty, o.fmt) of the tokens o.toks            *)
(*       add     a token o.toks[1] to collection o.x                        *)
(*       merge   the collections o.xs into a new one                        *)
(*       sample  o.n tokens of o.x, or its first o.n (o.first)              *)
(*       load    what was saved of o.x                                      *)
(***************************************************************************)
EXTENDS Util

Toks(st, x) == st.heap[st.objs[x].ref]
Kind(st, x) == <<st.objs[x].ty, st.objs[x].fmt>>
View(st) == [x \in 1..Len(st.objs) |-> [ty |-> st.objs[x].ty, fmt |-> st.objs[x].fmt, toks |-> Toks(st, x)]]

Alloc(st, ty, fmt, toks) ==
  [heap |-> Append(st.heap, toks),
   objs |-> Append(st.objs, [ty |-> ty, fmt |-> fmt, ref |-> Len(st.heap) + 1])]
Share(st, ty, fmt, ref) == [st EXCEPT !.objs = Append(@, [ty |-> ty, fmt |-> fmt, ref |-> ref])]

Choose(s, n) == {SortSeq(SetToSeq(S), <) : S \in kSubset(n, 1..Len(s))}     \* positions, ascending
Pick(s, ps) == [i \in 1..Len(ps) |-> s[ps[i]]]
Samples(s, n, first) ==
  IF first THEN {SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))} ELSE {Pick(s, ps) : ps \in Choose(s, n)}

\* "ok" a new collection, "done" no result, "none" nothing, "error", "either" (an error or all tokens)
Outcome(st, o) ==
  CASE o.f = "merge" -> IF o.xs = <<>> THEN "none"
                        ELSE IF \A i \in 1..Len(o.xs) : Kind(st, o.xs[i]) = Kind(st, o.xs[1]) THEN "ok" ELSE "error"
    [] o.f = "sample" -> IF ~o.first /\ o.n > Len(Toks(st, o.x)) THEN "either" ELSE "ok"
    [] o.f \in {"new", "load"} -> "ok"
    [] OTHER -> "done"

All(st, xs) == FlattenSeq([i \in 1..Len(xs) |-> Toks(st, xs[i])])
Uniq(s) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA p : \A j \in 1..(p[1] - 1) : s[j] # p[2])

\* the tokens of the new collection, one of these sequences
Results(st, o) ==
  CASE o.f = "new" -> {o.toks}
    [] o.f = "merge" -> {All(st, o.xs)}
    [] o.f = "load" -> {Toks(st, o.x)}
    [] o.f = "sample" -> IF Outcome(st, o) = "either" THEN {Toks(st, o.x)} ELSE Samples(Toks(st, o.x), o.n, o.first)
\* ... told of one sequence, without listing them all
IsResult(st, o, s) ==
  IF o.f = "sample" /\ ~o.first
  THEN Len(s) = (IF o.n < Len(Toks(st, o.x)) THEN o.n ELSE Len(Toks(st, o.x))) /\ IsSubSeqOf(s, Toks(st, o.x))
  ELSE s \in Results(st, o)
Named(st, o) == IF o.f = "new" THEN <<o.ty, o.fmt>>
                ELSE IF o.f = "merge" THEN Kind(st, o.xs[1]) ELSE Kind(st, o.x)

Right(st, o) ==
  CASE o.f = "add" -> {[st EXCEPT !.heap[st.objs[o.x].ref] = Append(@, o.toks[1])]}
    [] Outcome(st, o) \in {"none", "error"} -> {st}
    [] OTHER -> {Alloc(st, Named(st, o)[1], Named(st, o)[2], s) : s \in Results(st, o)}
                \cup IF Outcome(st, o) = "either" THEN {st} ELSE {}

Steps(variant, st, o) ==
  LET k == Named(st, o) IN
  CASE variant = "merge-into-first" /\ o.f = "merge" /\ Outcome(st, o) = "ok" ->
         {Share([st EXCEPT !.heap[st.objs[o.xs[1]].ref] = All(st, o.xs)], k[1], k[2], st.objs[o.xs[1]].ref)}
    [] variant = "merge-once" /\ o.f = "merge" /\ Outcome(st, o) = "ok" ->
         {Alloc(st, k[1], k[2], LET u == Uniq(All(st, o.xs)) IN [i \in 1..Len(u) |-> u[i][2]])}
    [] variant = "merge-names" /\ o.f = "merge" /\ o.xs # <<>>
         /\ \A i \in 1..Len(o.xs) : st.objs[o.xs[i]].ty = k[1] ->
         {Alloc(st, k[1], k[2], All(st, o.xs))}
    [] variant = "sample-again" /\ o.f = "sample" /\ Outcome(st, o) = "ok" /\ ~o.first /\ Toks(st, o.x) # <<>> ->
         {Alloc(st, k[1], k[2], Pick(Toks(st, o.x), ps)) : ps \in [1..o.n -> 1..Len(Toks(st, o.x))]}
    [] variant = "sample-shuffled" /\ o.f = "sample" /\ Outcome(st, o) = "ok" /\ ~o.first ->
         {Alloc(st, k[1], k[2], Pick(Toks(st, o.x), ps)) :
            ps \in {q \in [1..o.n -> 1..Len(Toks(st, o.x))] : IsInjectiveSeq(q)}}
    [] variant = "sample-shares" /\ o.f = "sample" /\ o.first /\ o.n >= Len(Toks(st, o.x)) ->
         {Share(st, k[1], k[2], st.objs[o.x].ref)}
    [] OTHER -> Right(st, o)
=============================================================================
