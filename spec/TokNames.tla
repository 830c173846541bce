------------------------------- MODULE TokNames -------------------------------
(***************************************************************************)
(* Names of tokens and types, and the lines of a concordance.  A format is   *)
(* a sequence of parts joined by "/"; a name has the parts in that order.    *)
(***************************************************************************)
EXTENDS Util

Cols(fmt) == Split(fmt, "/")
NameOf(parts, fmt) == LET cs == Cols(fmt) IN Join([i \in 1..Len(cs) |-> parts[cs[i]]], "/")

\* a name fits a format of known columns with as many parts
Known == {"word", "lemma", "pos", "fid", "lid"}
Fits(name, fmt, known) == Len(Cols(name)) = Len(Cols(fmt)) /\ Range0(Cols(fmt)) \subseteq known
PartOf(name, fmt, c, else) ==
  LET cs == Cols(fmt) at == {i \in 1..Len(cs) : cs[i] = c} IN IF at = {} THEN else ELSE Cols(name)[Max(at)]

\* a line: name, left contexts, the word itself, right contexts
Line(name, left, item, right) == Join(<<name, Join(left, " "), item, Join(right, " ")>>, "\t")

(* ---- names built and taken apart, for every order of the parts ---- *)
CONSTANTS Variant, Texts, Words, MaxParts
VARIABLES parts, fmt, name, back, left, right, txt
nvars == <<parts, fmt, name, back, left, right, txt>>

Formats == {Join(s, "/") : s \in UNION {{q \in [1..n -> Known] : IsInjectiveSeq(q)} : n \in 1..MaxParts}}
Order == <<"word", "lemma", "pos", "fid", "lid">>
NInit == parts = [c \in Known |-> ""] /\ fmt = "" /\ name = "" /\ back = [c \in Known |-> ""]
         /\ left = <<>> /\ right = <<>> /\ txt = ""
Choice == fmt = "" /\ fmt' \in Formats /\ parts' \in [Known -> Texts]
          /\ left' \in UNION {[1..n -> Words] : n \in 0..2} /\ right' \in UNION {[1..n -> Words] : n \in 0..1}
          /\ UNCHANGED <<name, back, txt>>
Made(p, f) == IF Variant = "usual-order"
              THEN Join(SelectSeq([i \in 1..5 |-> IF Order[i] \in Range0(Cols(f)) THEN p[Order[i]] ELSE "-"],
                                  LAMBDA s : s # "-"), "/")
              ELSE NameOf(p, f)
Taken(n, f, c) == IF Variant = "place-last" /\ c \in {"fid", "lid"} /\ Len(Cols(f)) >= 2
                  THEN Cols(n)[Len(Cols(f)) - (IF c = "fid" THEN 1 ELSE 0)]
                  ELSE PartOf(n, f, c, "")
Build == fmt # "" /\ name = "" /\ name' = Made(parts, fmt)
         /\ txt' = Line(name', IF Variant = "nearest-first" THEN Reverse(left) ELSE left, parts["word"], right)
         /\ UNCHANGED <<parts, fmt, back, left, right>>
Take == name # "" /\ back["word"] = "" /\ back' = [c \in Known |-> Taken(name, fmt, c)]
        /\ UNCHANGED <<parts, fmt, name, left, right, txt>>
NNext == Choice \/ Build \/ Take

InName == Range0(Cols(fmt))
Rebuilt == (name # "" /\ \E c \in Known : back[c] # "") =>
             /\ \A c \in InName : back[c] = parts[c]
             /\ \A c \in Known \ InName : back[c] = ""
             /\ NameOf(back, fmt) = name
Readable == name # "" => LET f == Split(txt, "\t") IN
  /\ Len(f) = 4 /\ f[1] = name /\ f[3] = parts["word"]
  /\ (IF f[2] = "" THEN <<>> ELSE Split(f[2], " ")) = left
  /\ (IF f[4] = "" THEN <<>> ELSE Split(f[4], " ")) = right
=============================================================================
