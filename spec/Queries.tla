------------------------------- MODULE Queries --------------------------------
(***************************************************************************)
(* Word query files.  A line is blank, a comment, one word, or fields       *)
(* corpus:word separated by tabs.  An entry is [dict |-> FALSE, word] or     *)
(* [dict |-> TRUE, tab], tab a set of pairs <<corpus, word>> in which the    *)
(* default key stands for the default word.                                 *)
(***************************************************************************)
EXTENDS Util, Json

Kept(line) == LET s == Strip(line) IN s # "" /\ Char(s, 1) # "#"

Pairs(line) ==
  LET fs == Split(Strip(line), "\t")
      ps == [i \in 1..Len(fs) |-> LET e == Split(fs[i], ":") IN
               IF Len(e) = 2 THEN <<Strip(e[1]), Strip(e[2])>> ELSE <<"", "">>]
  IN  SelectSeq(ps, LAMBDA p : p # <<"", "">>)

Table(ps, def) ==
  LET said == {ps[i] : i \in 1..Len(ps)}
  IN  said \cup (IF \E p \in said : p[1] = def \/ ps = <<>> THEN {} ELSE {<<def, ps[1][2]>>})

Entry(line, def) ==
  IF HasText(Strip(line), "\t") THEN [dict |-> TRUE, tab |-> Table(Pairs(line), def), word |-> ""]
  ELSE [dict |-> FALSE, tab |-> {}, word |-> Strip(line)]

Read(lines, def) ==
  LET kept == SelectSeq(lines, LAMBDA x : Kept(x)) IN [i \in 1..Len(kept) |-> Entry(kept[i], def)]

Lookup(e, specific, corpus, def) ==
  IF ~e.dict THEN e.word
  ELSE LET key == IF specific /\ \E p \in e.tab : p[1] = corpus THEN corpus ELSE def
       IN  (CHOOSE p \in e.tab : p[1] = key)[2]

(* ---- a reader that takes one field at a time, against the meaning above ---- *)
CONSTANTS Variant, Corpora, Words, MaxFields
VARIABLES line, at, tab
qvars == <<line, at, tab>>

Default == "D"
\* at most one word per corpus in a line
Lines == {s \in UNION {[1..n -> (Corpora \cup {Default}) \X Words] : n \in 1..MaxFields} :
            \A i, j \in 1..Len(s) : s[i][1] = s[j][1] => i = j}
QInit == line = <<>> /\ at = 0 /\ tab = {}
PickLine == at = 0 /\ line' \in Lines /\ at' = 1 /\ tab' = {}
HasKey(t, k) == \E p \in t : p[1] = k
Set(t, k, w) == {p \in t : p[1] # k} \cup {<<k, w>>}
ReadField ==
  /\ at \in 1..Len(line)
  /\ LET k == line[at][1] w == line[at][2]
         said == IF Variant = "keeps-first" /\ HasKey(tab, k) THEN tab ELSE Set(tab, k, w)
     IN  tab' = IF Variant = "last-word" \/ ~HasKey(said, Default) THEN Set(said, Default, w) ELSE said
  /\ at' = at + 1 /\ line' = line
QNext == PickLine \/ ReadField
\* the default is the explicit one, else the first word; every corpus has its word
Finished == at = Len(line) + 1 /\ at > 1
\* the lines, to be replayed into the real code
Out == at = 1 => PrintT("LINE " \o ToJson(line))
Right == Finished => tab = Table(line, Default)
Defaulted == Finished => \E p \in tab : p[1] = Default
=============================================================================
