------------------------------ MODULE Settings -------------------------------
(***************************************************************************)
(* Configuration files, loaders, settings dictionaries and the handlers     *)
(* made from them, as a heap: a name (the i-th loader, dictionary, handler) *)
(* refers to an address, an address holds a set of pairs <<option, value>>. *)
(* A value is "=text" for a text and "#12" for an integer.                  *)
(*                                                                         *)
(* state: files (name -> sequence of [name, opts]), heap (address -> pairs), *)
(*        lo, di, ha: sequences of addresses.                               *)
(* Operations o.f:                                                          *)
(*   write   store o.doc as file o.n          loader  read file o.n          *)
(*   get     the settings of loader o.x       update  loader o.x, file o.n  *)
(*   copy    a copy of dictionary o.x                                       *)
(*   set/del change option o.k of dictionary o.x                            *)
(*   handler make a handler of kind o.s from dictionary o.x                 *)
(*   line    what handler o.x makes of the corpus line o.s                  *)
(*   run     what handler o.x makes of its corpus                           *)
(* Variant "right" is the specification; the others are broken systems that *)
(* the laws must tell from it.                                              *)
(***************************************************************************)
EXTENDS Util

Keys(S) == {p[1] : p \in S}
Val(S, k) == (CHOOSE p \in S : p[1] = k)[2]
Text(S, k) == LET v == Val(S, k) IN SubSeq(v, 2, Len(v))
Override(S, T) == {p \in S : p[1] \notin Keys(T)} \cup T
Put(S, k, v) == Override(S, {<<k, v>>})

\* exactly the options a file contains; those of [Span] are integers
Load(doc) == UNION {{<<doc[i].opts[j][1], (IF doc[i].name = "Span" THEN "#" ELSE "=") \o doc[i].opts[j][2]>> :
                       j \in 1..Len(doc[i].opts)} : i \in 1..Len(doc)}

Required == {"line-machine", "line-format", "type", "token", "boundary-detection-mechanism", "corpus-path"}
CanHandle(S) == /\ Required \subseteq Keys(S)
                /\ Keys(S) \cap {"separator-line-machine", "single-boundary-machine"} # {}

NewAt(st, S) == [st EXCEPT !.heap = Append(@, S)]
Here(st) == Len(st.heap) + 1

Apply(V, st, o) ==
  CASE o.f = "write" -> [st EXCEPT !.files = (o.n :> o.doc) @@ @]
    [] o.f = "loader" -> [NewAt(st, Load(st.files[o.n])) EXCEPT !.lo = Append(@, Here(st))]
    [] o.f = "get" ->
         IF V = "shared-settings" THEN [st EXCEPT !.di = Append(@, st.lo[o.x])]
         ELSE [NewAt(st, st.heap[st.lo[o.x]]) EXCEPT !.di = Append(@, Here(st))]
    [] o.f = "update" ->
         LET new == IF V = "only-newer" THEN Load(st.files[o.n])
                    ELSE IF V = "keeps-older" THEN Override(Load(st.files[o.n]), st.heap[st.lo[o.x]])
                    ELSE Override(st.heap[st.lo[o.x]], Load(st.files[o.n]))
         IN  IF V = "update-in-place"
             THEN [st EXCEPT !.heap[st.lo[o.x]] = new, !.di = Append(@, st.lo[o.x])]
             ELSE [NewAt(st, new) EXCEPT !.di = Append(@, Here(st))]
    [] o.f = "copy" -> [NewAt(st, st.heap[st.di[o.x]]) EXCEPT !.di = Append(@, Here(st))]
    [] o.f = "set" -> [st EXCEPT !.heap[st.di[o.x]] = Put(@, o.k, o.v)]
    [] o.f = "del" -> [st EXCEPT !.heap[st.di[o.x]] = {p \in @ : p[1] # o.k}]
    [] o.f = "handler" ->
         LET S == st.heap[st.di[o.x]]
             full == IF "colloc" \in Keys(S) THEN S ELSE Put(S, "colloc", Val(S, "type"))
         IN  IF V = "shared-handler" THEN [st EXCEPT !.ha = Append(@, st.di[o.x])]
             ELSE IF V = "fills-in-caller"
             THEN [NewAt([st EXCEPT !.heap[st.di[o.x]] = full], full) EXCEPT !.ha = Append(@, Here(st))]
             ELSE [NewAt(st, full) EXCEPT !.ha = Append(@, Here(st))]
    [] OTHER -> st

(* ---- what a handler makes of lines: settings S, fields separated by tabs ---- *)
Column(S, name) ==
  LET cols == Split(IF "global-columns" \in Keys(S) THEN Text(S, "global-columns") ELSE Text(S, "line-format"), ",")
  IN  CHOOSE i \in 1..Len(cols) : cols[i] = name
Columns(S, fmt) == LET ns == Split(fmt, "/") IN [i \in 1..Len(ns) |-> Column(S, ns[i])]
Compose(S, fields, fmt) == LET cs == Columns(S, fmt) IN Join([i \in 1..Len(cs) |-> fields[cs[i]]], "/")
NameFormat(S) == LET ns == Split(Text(S, "token"), "/") IN Join(SubSeq(ns, 1, Len(ns) - 2), "/")
Collocate(S) == IF "colloc" \in Keys(S) THEN Text(S, "colloc") ELSE Text(S, "type")

LineValue(S, line, fid, lid) ==
  LET f == Split(line, "\t") IN
  [ty |-> Compose(S, f, Text(S, "type")), co |-> Compose(S, f, Collocate(S)),
   to |-> Compose(S, f, NameFormat(S)) \o "/" \o fid \o "/" \o lid,
   word |-> f[Column(S, "word")], lemma |-> f[Column(S, "lemma")], pos |-> f[Column(S, "pos")]]

=============================================================================
