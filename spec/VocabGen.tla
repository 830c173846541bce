------------------------------ MODULE VocabGen ------------------------------
(***************************************************************************)
(* Behaviours of a few vocabularies: exhaustive for the laws below, random  *)
(* (-simulate) to produce histories that are replayed into the real code.   *)
(***************************************************************************)
EXTENDS Util, Json

CONSTANTS Names, MaxObj, MaxFreq, Depth, Emit, Skip

Alpha == "/0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rk0 == RankIn(Alpha)
V == INSTANCE Vocab WITH Rk <- Rk0

VARIABLES h, kind, hist
vars == <<h, kind, hist>>

SmallSeqs(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Base == [x |-> 1, y |-> 1, k |-> "", ks |-> <<>>, ns |-> <<>>, n1 |-> 0, n2 |-> 0, c1 |-> "<", c2 |-> "<",
         a |-> <<0, 0>>, b |-> <<0, 0>>, pat |-> <<>>, ps |-> <<>>, h1 |-> 0, h2 |-> 0]
Cmps == {"<", "<=", "==", ">", ">="}
Pats == {<<<<"lit", "a">>>>, <<<<"star", "">>, <<"lit", "/N">>>>, <<<<"any", "">>, <<"lit", "/">>>>,
         <<<<"cls", "ab">>, <<"lit", "/">>, <<"any", "">>, <<"end", "">>>>, <<<<"alt", "b/", "a/V">>>>}

New == [Base EXCEPT !.x = 1] @@ [f |-> "new"]
B(x, f) == [Base EXCEPT !.x = x] @@ [f |-> f]

Fs == {"copy", "dict", "len", "sum", "empty", "keys", "values", "frame", "show", "inc", "set", "get", "has",
       "equal", "list", "items", "sub", "freqs", "cond", "chain", "regex", "word", "slice", "new"}

\* the operations named f on object x
Ops(x, f) ==
  CASE f = "inc" -> {[B(x, f) EXCEPT !.k = k, !.n1 = n] : k \in Names, n \in {0, 1, 2}}
    [] f = "set" -> {[B(x, f) EXCEPT !.k = k, !.n1 = n] : k \in Names, n \in 0..MaxFreq}
    [] f \in {"get", "has"} -> {[B(x, f) EXCEPT !.k = k] : k \in Names}
    [] f = "equal" -> {[B(x, f) EXCEPT !.y = y] : y \in 1..Len(h)}
    [] f = "list" -> {[B(x, f) EXCEPT !.k = s, !.n1 = n] : s \in {"alpha", "freq"}, n \in {0, 1}}
    [] f \in {"items", "sub"} -> {[B(x, f) EXCEPT !.ks = s] : s \in SmallSeqs(Names)}
    [] f = "freqs" -> {[B(x, f) EXCEPT !.ns = s] : s \in SmallSeqs(0..MaxFreq)}
    [] f = "cond" -> {[B(x, f) EXCEPT !.c1 = c, !.n1 = n, !.h1 = v] : c \in Cmps, n \in 0..MaxFreq, v \in {0, 1}}
    [] f = "chain" -> {[B(x, f) EXCEPT !.c1 = c, !.n1 = n, !.c2 = d, !.n2 = m] :
                         c \in {">", ">="}, n \in 0..1, d \in {"<", "<=", "=="}, m \in 1..MaxFreq}
    [] f = "regex" -> {[B(x, f) EXCEPT !.pat = p] : p \in Pats}
    [] f = "word" -> {[B(x, f) EXCEPT !.k = V!Stem(k)] : k \in Names}
    [] f = "slice" -> {[B(x, f) EXCEPT !.a = a, !.b = b, !.n1 = k] : k \in {1, 2},
                         a \in {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, -2>>},
                         b \in {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<1, -1>>}}
    [] OTHER -> {B(x, f)}

\* what each object is: "dict" (source or export) or "vocab"
Allowed(o) == IF kind[o.x] = "dict" THEN o.f \in {"set", "new"}
              ELSE o.f # "new" /\ (o.f = "equal" => kind[o.y] = "vocab")

NewKind(o) == CASE o.f = "dict" -> "dict" [] OTHER -> "vocab"

Sources == {<<>>, <<<<"b/N", 2>>>>, <<<<"a/N", 1>>, <<"b/N", 3>>>>, <<<<"B/N", 1>>, <<"a/V", 1>>, <<"a/N", 1>>>>,
            <<<<"a/b/N", 2>>, <<"ab", 2>>, <<"a/N", 0>>>>}

Init == \E s \in Sources :
          /\ h = <<{<<s[i][1], s[i][2]>> : i \in 1..Len(s)}>>
          /\ kind = <<"dict">>
          /\ hist = <<[Base EXCEPT !.ps = s] @@ [f |-> "src"]>>

Do(o) == LET res == V!Apply(h, o) IN
         /\ Allowed(o)
         /\ Len(res.h) <= MaxObj
         /\ h' = res.h
         /\ kind' = IF Len(res.h) > Len(h) THEN Append(kind, NewKind(o)) ELSE kind
         /\ hist' = IF Emit THEN Append(hist, o) ELSE hist

Next == \E x \in 1..Len(h) : \E f \in Fs \ Skip : \E o \in Ops(x, f) : Do(o)

\* one random operation per step
Random == \E x \in {RandomElement(1..Len(h))} :
          \E f \in {RandomElement(IF kind[x] = "dict" THEN {"set", "new"}
                                 ELSE IF Len(h) < MaxObj THEN Fs \ {"new"} ELSE Fs \ V!Makers)} :
          LET ops == {o \in Ops(x, f) : Allowed(o)} IN
          IF ops = {} THEN UNCHANGED vars
          ELSE \E o \in {RandomElement(ops)} : Do(o)

Limit == TLCGet("level") <= Depth
Out == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

(* ---- the laws, over every reachable heap ---- *)
OneFreqEach == \A i \in 1..Len(h) : \A p, q \in h[i] : p[1] = q[1] => p = q
RankIsOrder == \A i \in 1..Len(h) :
  LET r == V!Ranked(h[i]) IN
  /\ Range0(r) = h[i] /\ Len(r) = Cardinality(h[i])
  /\ \A a, b \in 1..Len(r) : a < b => (r[a][2] >= r[b][2])
SelectionLaws == \A i \in 1..Len(h) : \A n \in 0..MaxFreq :
  /\ V!SelCond(h[i], "<", n) \cup V!SelCond(h[i], ">=", n) = h[i]
  /\ V!SelCond(h[i], "<", n) \cap V!SelCond(h[i], ">=", n) = {}
  /\ V!SelCond(h[i], "<=", n) = V!SelCond(h[i], "<", n) \cup V!SelCond(h[i], "==", n)
  /\ V!SelHalf(h[i], "<", n, 1) = V!SelCond(h[i], "<=", n)
  /\ V!SelHalf(h[i], "==", n, 1) = {}
  /\ V!SliceBy(h[i], <<0, 0>>, <<0, 0>>, 2) \cup V!SliceBy(h[i], <<1, 1>>, <<0, 0>>, 2) = h[i]
  /\ V!Slice(h[i], <<0, 0>>, <<1, n>>) \cup V!Slice(h[i], <<1, n>>, <<0, 0>>) = h[i]
\* no operation changes an object it was not asked to change
Frame == [][\A i \in 1..Len(h) : h'[i] # h[i] =>
                \E k \in Names : {p \in h[i] : p[1] # k} = {p \in h'[i] : p[1] # k}]_vars
OthersUntouched == [][Cardinality({i \in 1..Len(h) : h'[i] # h[i]}) <= 1]_vars
=============================================================================
