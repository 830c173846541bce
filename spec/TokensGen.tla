------------------------------- MODULE TokensGen -------------------------------
(***************************************************************************)
(* Histories of token collections: exhaustive for the laws, and printed to  *)
(* be replayed into the real code.                                          *)
(***************************************************************************)
EXTENDS Tokens, Json

CONSTANTS Variant, Tokens0, MaxObj, Depth, Emit

VARIABLES st, hist, last
vars == <<st, hist, last>>

Names == {<<"a", "lemma">>, <<"a", "word">>, <<"b", "lemma">>}
B(f) == [f |-> f, ty |-> "", fmt |-> "", toks |-> <<>>, x |-> 0, xs |-> <<>>, n |-> 0, first |-> FALSE]
Objs == 1..Len(st.objs)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Ops ==
  {[B("new") EXCEPT !.ty = k[1], !.fmt = k[2], !.toks = s] : k \in Names, s \in SeqsUpTo(Tokens0, 2)}
  \cup {[B("add") EXCEPT !.x = x, !.toks = <<t>>] : x \in Objs, t \in Tokens0}
  \cup {[B("merge") EXCEPT !.xs = xs] : xs \in SeqsUpTo(Objs, 2)}
  \cup {[B("sample") EXCEPT !.x = x, !.n = n, !.first = b] : x \in Objs, n \in 0..3, b \in BOOLEAN}
  \cup {[B("load") EXCEPT !.x = x] : x \in Objs}

Init == st = [heap |-> <<>>, objs |-> <<>>] /\ hist = <<>> /\ last = B("start")
Next == \E o \in Ops :
          /\ o.f # "add" => Len(st.objs) < MaxObj
          /\ Emit => Outcome(st, o) # "either"
          /\ st' \in Steps(Variant, st, o)
          /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
          /\ last' = o
Limit == TLCGet("level") <= Depth /\ \A x \in 1..Len(st.heap) : Len(st.heap[x]) <= 4
Out == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

Pre(s, n) == [i \in 1..n |-> s[i]]
Newest == Len(st'.objs)
Grew == Newest = Len(st.objs) + 1

\* nothing changes but the collection a token is added to
Frame == [][/\ Len(st'.objs) >= Len(st.objs)
            /\ \A x \in Objs : View(st')[x] # View(st)[x] => (last'.f = "add" /\ last'.x = x)]_vars
\* a merged collection has every token of every input as often and in the order it had
Population == [][last'.f = "merge" /\ Grew =>
  /\ Len(Toks(st', Newest)) = SumSeq([i \in 1..Len(last'.xs) |-> Len(Toks(st, last'.xs[i]))])
  /\ \A i \in 1..Len(last'.xs) : IsSubSeqOf(Toks(st, last'.xs[i]), Toks(st', Newest))]_vars
Refused == [][last'.f = "merge" /\ Grew => \A i \in 1..Len(last'.xs) : Kind(st, last'.xs[i]) = Kind(st', Newest)]_vars
\* a sample takes different positions, in order
Sampled == [][last'.f = "sample" /\ Grew =>
  LET s == Toks(st, last'.x) t == Toks(st', Newest) IN
  /\ Len(t) = IF last'.n < Len(s) THEN last'.n ELSE Len(s)
  /\ \E p \in [1..Len(t) -> 1..Len(s)] : (\A i, j \in 1..Len(t) : i < j => p[i] < p[j]) /\ \A i \in 1..Len(t) : t[i] = s[p[i]]
  /\ last'.first => t = Pre(s, Len(t))]_vars
\* the test of one result agrees with the set of results
Told == [][last'.f \in {"new", "merge", "sample", "load"} /\ Outcome(st, last') \in {"ok", "either"} =>
  \A s \in SeqsUpTo(Tokens0, 3) : IsResult(st, last', s) <=> s \in Results(st, last')]_vars
Separate == \A x, y \in 1..Len(st.objs) : st.objs[x].ref = st.objs[y].ref => x = y
=============================================================================
