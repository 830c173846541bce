----------------------------- MODULE SettingsGen ------------------------------
(***************************************************************************)
(* Histories of loaders, dictionaries and handlers: exhaustive for the laws *)
(* below, random (-simulate) for histories replayed into the real code.     *)
(***************************************************************************)
EXTENDS Settings, Json

CONSTANTS Variant, MaxLo, MaxDi, MaxHa, Depth, Emit, Small

VARIABLES st, hist, last
vars == <<st, hist, last>>

\* <<section, option, value>>
Options ==
  IF Small THEN {<<"Corpus-Format", "type", "lemma/pos">>, <<"Corpus-Format", "type", "word">>,
                 <<"Span", "left-span", "2">>, <<"Data", "x", "1">>}
  ELSE {<<"Corpus-Format", "line-format", s>> : s \in {"word,pos,lemma", "lemma,word,pos", "pos,lemma,word"}}
       \cup {<<"Corpus-Format", "type", s>> : s \in {"lemma/pos", "word", "pos/lemma", "lemma"}}
       \cup {<<"Corpus-Format", "colloc", s>> : s \in {"lemma/pos", "word", "lemma"}}
       \cup {<<"Corpus-Format", "token", s>> : s \in {"word/pos/fid/lid", "lemma/fid/lid"}}
       \cup {<<"Corpus-Format", "separator-line-machine", s>> : s \in {"<a>", "<b>"}}
       \cup {<<"Span", k, n>> : k \in {"left-span", "right-span"}, n \in {"0", "1", "2", "10"}}
       \cup {<<"Data", "corpus-path", s>> : s \in {"A", "B"}}
       \cup {<<"Data", "output-path", s>> : s \in {"O1", "O2"}}
       \cup {<<"Encoding", "file-encoding", s>> : s \in {"utf-8", "latin-1"}}
       \cup {<<"Encoding", "outfile-encoding", s>> : s \in {"utf-8", "latin-1"}}
       \cup {<<"Special", k, s>> : k \in {"Type", "MyOption", "myoption"}, s \in {"100% sure", "a = b", "[x]", "x:y", "12"}}
Sections == {p[1] : p \in Options}
OptKeys == {p[2] : p \in Options}

SetToDoc(S) == LET secs == SetToSeq({p[1] : p \in S}) IN
  [i \in 1..Len(secs) |-> [name |-> secs[i],
     opts |-> LET os == SetToSeq({p \in S : p[1] = secs[i]}) IN [j \in 1..Len(os) |-> <<os[j][2], os[j][3]>>]]]

\* at most one value per option
Docs == {S \in SUBSET Options : Cardinality({p[2] : p \in S}) = Cardinality(S)}

B(f) == [f |-> f, n |-> 0, x |-> 0, k |-> "", v |-> "", s |-> "", doc |-> <<>>]
Tag(p) == (IF p[1] = "Span" THEN "#" ELSE "=") \o p[3]
Kinds == IF Small THEN {"fmt"} ELSE {"fmt", "item", "col", "tok", "dep", "tv"}
Lines == IF Small THEN {"a\tb\tc"} ELSE {"a\tb\tc", "de\tDET\tde", "1\t\"x\"\t/"}
Runs(k) == k \in {"item", "col"}

Base0 == {<<"Corpus-Format", "type", "lemma/pos">>, <<"Corpus-Format", "token", "word/fid/lid">>,
          <<"Corpus-Format", "line-format", "word,pos,lemma">>, <<"Corpus-Format", "line-machine", "m">>,
          <<"Corpus-Format", "boundary-detection-mechanism", "single">>,
          <<"Corpus-Format", "separator-line-machine", "<a>">>, <<"Data", "corpus-path", "A">>}
File0 == SetToDoc(IF Small THEN Base0 ELSE {p \in Base0 : p[2] # "corpus-path"})

\* keys a dictionary may lose
Losable == OptKeys \ (Required \cup {"separator-line-machine"})

Ops(f) ==
  CASE f = "write" -> {[B(f) EXCEPT !.n = n, !.doc = SetToDoc(D)] : n \in {1, 2}, D \in Docs}
    [] f = "loader" -> {[B(f) EXCEPT !.n = n] : n \in DOMAIN st.files}
    [] f = "get" -> {[B(f) EXCEPT !.x = x] : x \in 1..Len(st.lo)}
    [] f = "update" -> {[B(f) EXCEPT !.x = x, !.n = n] : x \in 1..Len(st.lo), n \in DOMAIN st.files \ {0}}
    [] f = "copy" -> {[B(f) EXCEPT !.x = x] : x \in 1..Len(st.di)}
    [] f = "set" -> LET path == {i \in 1..Len(st.di) : "corpus-path" \in Keys(st.heap[st.di[i]])} IN
                    IF ~Small /\ path # 1..Len(st.di)      \* a corpus first
                    THEN {[B(f) EXCEPT !.x = x, !.k = "corpus-path", !.v = v] : x \in 1..Len(st.di) \ path, v \in {"=A", "=B"}}
                    ELSE {[B(f) EXCEPT !.x = x, !.k = p[2], !.v = Tag(p)] : x \in 1..Len(st.di), p \in Options}
    [] f = "del" -> {[B(f) EXCEPT !.x = x, !.k = k] : x \in 1..Len(st.di), k \in Losable}
    [] f = "handler" -> {[B(f) EXCEPT !.x = x, !.s = s] : x \in {i \in 1..Len(st.di) : CanHandle(st.heap[st.di[i]])}, s \in Kinds}
    [] f = "line" -> {[B(f) EXCEPT !.x = x, !.s = s] : x \in 1..Len(st.ha), s \in Lines}
    [] f = "run" -> {[B(f) EXCEPT !.x = x] : x \in 1..Len(st.ha)}

Fits(o) == CASE o.f = "loader" -> Len(st.lo) < MaxLo
             [] o.f \in {"get", "update", "copy"} -> Len(st.di) < MaxDi
             [] o.f = "handler" -> Len(st.ha) < MaxHa
             [] OTHER -> TRUE

Init == st = [files |-> (0 :> File0), heap |-> <<>>, lo |-> <<>>, di |-> <<>>, ha |-> <<>>] /\ hist = <<>> /\ last = B("start")

Do(o) == /\ Fits(o)
         /\ st' = Apply(Variant, st, o)
         /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
         /\ last' = o
Fs == {"write", "loader", "get", "update", "copy", "set", "del", "handler", "line"}
Next == \E f \in Fs : \E o \in Ops(f) : Do(o)

(* ---- random histories (file 0 stands for the default file, of which only
        the options that matter for what is possible are known here) ---- *)
Consistent(S) == {p \in S : \A q \in S : q[2] = p[2] => q = p}
RandOp(f) ==
  IF f = "write" THEN UNION {{[B(f) EXCEPT !.n = n, !.doc = SetToDoc(Consistent(S))] :
                        S \in {{RandomElement(Options) : i \in 1..m}}} :
                        n \in {RandomElement({1, 2, 3})}, m \in {RandomElement(0..5)}}
  ELSE LET ops == Ops(f) IN IF ops = {} THEN {} ELSE {RandomElement(ops)}
Weighted == <<"write", "write", "loader", "get", "update", "update", "copy", "set", "set", "set", "del",
              "handler", "handler", "handler", "line", "line", "run", "set">>
Possible(f) == f = "write" \/ \E o \in Ops(f) : Fits(o)
\* (Possible depends on the state: a constant bound would be chosen once and for all)
Random == \E fs \in {SelectSeq(Weighted, LAMBDA f : Possible(f))} :
          \E f \in {fs[RandomElement(1..Len(fs))]} :
          \E ops \in {{o \in RandOp(f) : Fits(o)}} :
             IF ops = {} THEN UNCHANGED <<st, hist>> /\ last' = B(f)
             ELSE \E o \in ops : Do(o)

Limit == TLCGet("level") <= Depth
Out == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

(* ---- the laws ---- *)
\* nothing that was handed out or made changes but by changing it
Frame == [][/\ \A i \in 1..Len(st.di) : st'.heap[st'.di[i]] # st.heap[st.di[i]] => (last'.f \in {"set", "del"} /\ last'.x = i)
            /\ \A i \in 1..Len(st.ha) : st'.heap[st'.ha[i]] = st.heap[st.ha[i]]
            /\ \A i \in 1..Len(st.lo) : st'.heap[st'.lo[i]] = st.heap[st.lo[i]]]_vars
\* an update has the options of the newer file, and the others of the loader
Layered == [][last'.f = "update" =>
  LET S == st'.heap[st'.di[Len(st'.di)]] T == Load(st.files[last'.n]) L == st.heap[st.lo[last'.x]] IN
  /\ T \subseteq S
  /\ \A p \in L : p[1] \notin Keys(T) => p \in S
  /\ Keys(S) = Keys(L) \cup Keys(T) /\ Cardinality(S) = Cardinality(Keys(S))]_vars
\* names never share what they refer to
Separate == IsInjectiveSeq(st.lo \o st.di \o st.ha)
=============================================================================
