------------------------------- MODULE FileSel --------------------------------
(***************************************************************************)
(* Which files a run processes.  A corpus is a set of file paths, each a     *)
(* sequence of names below the corpus directory (its last element is the    *)
(* file's own name).  A list file is a sequence of lines.                   *)
(*                                                                         *)
(* The declarative meaning (All, Listed) is followed by two machines: one   *)
(* that walks a directory tree and one that reads a list line by line.      *)
(* Variant "right" has the declared meaning; the others are broken.         *)
(***************************************************************************)
EXTENDS Util, Json

\* every file below the corpus directory
All(tree) == tree
\* a path as text, relative to the corpus directory
Path(p) == Join(p, "/")

Skipped(line) == LET s == Strip(line) IN s = "" \/ Char(s, 1) = "#"
\* the path a name on a list stands for: <<"corpus", name>> or <<"given", name>>
Named(line) == LET s == Strip(line) IN IF HasText(s, "/") THEN <<"given", s>> ELSE <<"corpus", s>>
Listed(lines) == LET kept == SelectSeq(lines, LAMBDA x : ~Skipped(x))
                 IN  [i \in 1..Len(kept) |-> Named(kept[i])]

\* the list file meant by a name that may lack the extension
ListFile(name, ext) == IF EndsWith(name, ext) THEN name ELSE name \o ext

(* ---- the walk: a worklist of directories, each entry looked at once ---- *)
CONSTANT Variant
VARIABLES tree, todo, found
walk == <<tree, todo, found>>

Below(t, d) == {p \in t : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
FilesIn(t, d) == {p \in Below(t, d) : Len(p) = Len(d) + 1}
DirsIn(t, d) == {SubSeq(p, 1, Len(d) + 1) : p \in {q \in Below(t, d) : Len(q) > Len(d) + 1}}

Names == {"a", "b"}
Trees == SUBSET ([1..1 -> Names] \cup [1..2 -> Names] \cup [1..3 -> Names])
\* a name is a file or a directory, not both
Proper(t) == \A p, q \in t : p # q => ~(Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p)

Init == tree = {} /\ todo = {<<"start">>} /\ found = <<>>
PickTree == /\ todo = {<<"start">>}
            /\ tree' \in {t \in Trees : Proper(t)} /\ todo' = {<<>>} /\ found' = <<>>
Seen(p) == \E i \in 1..Len(found) : Last(found[i]) = Last(p)
Visit(d) ==
  /\ d \in todo /\ todo # {<<"start">>}
  /\ LET new == IF Variant = "names-once" THEN {p \in FilesIn(tree, d) : ~Seen(p)} ELSE FilesIn(tree, d)
         subs == IF Variant = "two-levels" /\ Len(d) = 1 THEN {} ELSE DirsIn(tree, d)
     IN  /\ found' = found \o SetToSeq(new)
         /\ todo' = IF Variant = "again" THEN todo \cup subs ELSE (todo \ {d}) \cup subs
  /\ tree' = tree
Next == PickTree \/ \E d \in todo : Visit(d)
Bounded == Len(found) <= 9

\* the trees, to be replayed into the real code
Out == (todo = {<<>>} /\ found = <<>>) => PrintT("TREE " \o ToJson(SetToSeq({Path(p) : p \in tree})))

EachOnce == IsInjectiveSeq(found)
NothingElse == Range0(found) \subseteq All(tree)
AtTheEnd == todo = {} => Range0(found) = All(tree)
=============================================================================
