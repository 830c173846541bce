------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* The scanner that walks a file with a sliding window (core/terms.py      *)
(* Window, core/handler.py update_one_file, process_right_window of the    *)
(* co-occurrence and token handlers): a left buffer, a centre node and a   *)
(* right buffer that is filled ahead of the node, flushed at separators    *)
(* and at the end of the file.  Correct says that what it counts is the    *)
(* declarative meaning of the spans, for every text and every span.        *)
(* Stop = "early" is the scanner as first found, whose flush stops one     *)
(* node before the end of a short segment.                                 *)
(***************************************************************************)
EXTENDS Util

CONSTANTS MaxLen, MaxSpan, Stop

VARIABLES text,         \* sequence of "w" (word) and "s" (separator)
          ls, rs,       \* spans
          pos,          \* lines read
          left, node, right,   \* the window; 0 is an empty place
          mode,         \* "scan" | "lead" | "drain" | "flush" | "done"
          steps,        \* flush steps so far
          out           \* pairs counted, in order

vars == <<text, ls, rs, pos, left, node, right, mode, steps, out>>

Texts == UNION {[1..n -> {"w", "s"}] : n \in 0..MaxLen}

Empty(n) == [i \in 1..n |-> 0]

Init == /\ text \in Texts /\ ls \in 0..MaxSpan /\ rs \in 0..MaxSpan
        /\ pos = 0 /\ left = Empty(ls) /\ node = 0 /\ right = Empty(rs)
        /\ mode = "scan" /\ steps = 0 /\ out = <<>>

\* Window.update(cur)
Shift(cur) ==
  /\ left' = IF ls > 0 THEN Append(Tail(left), node) ELSE left
  /\ node' = IF rs > 0 THEN right[1] ELSE cur
  /\ right' = IF rs > 0 THEN Append(Tail(right), cur) ELSE right

\* update_one_match: pairs of the node with everything in the window
Seen(n, lf, rt) ==
  IF n = 0 THEN <<>>
  ELSE LET some == SelectSeq(lf \o rt, LAMBDA x : x # 0)
       IN  [i \in 1..Len(some) |-> <<n, some[i]>>]

Word == /\ mode = "scan" /\ pos < Len(text) /\ text[pos + 1] = "w"
        /\ pos' = pos + 1
        /\ Shift(pos + 1)
        /\ out' = out \o Seen(node', left', right')
        /\ UNCHANGED <<text, ls, rs, mode, steps>>

\* a separator, or the end of the file
Bound == /\ mode = "scan"
         /\ (IF pos = Len(text) THEN TRUE ELSE text[pos + 1] = "s")
         /\ mode' = IF node = 0 THEN "lead" ELSE "flush"
         /\ steps' = 0
         /\ UNCHANGED <<text, ls, rs, pos, left, node, right, out>>

Reset == /\ left' = Empty(ls) /\ node' = 0 /\ right' = Empty(rs)
         /\ pos' = pos + 1
         /\ mode' = IF pos >= Len(text) THEN "done" ELSE "scan"
         /\ UNCHANGED <<text, ls, rs, steps, out>>

\* the window has not filled up: move the first word to the centre
Lead == /\ mode = "lead"
        /\ IF node = 0 /\ steps < rs
           THEN Shift(0) /\ steps' = steps + 1 /\ UNCHANGED <<text, ls, rs, pos, mode, out>>
           ELSE mode' = "drain" /\ UNCHANGED <<text, ls, rs, pos, left, node, right, steps, out>>

Drain == /\ mode = "drain"
         /\ IF node # 0 /\ (Stop = "early" => steps < rs)
            THEN /\ out' = out \o Seen(node, left, right)
                 /\ Shift(0) /\ steps' = steps + 1 /\ UNCHANGED <<text, ls, rs, pos, mode>>
            ELSE Reset

Flush == /\ mode = "flush"
         /\ IF node # 0
            THEN /\ Shift(0) /\ out' = out \o Seen(node', left', right')
                 /\ UNCHANGED <<text, ls, rs, pos, mode, steps>>
            ELSE Reset

Next == Word \/ Bound \/ Lead \/ Drain \/ Flush

Seg(i) == Cardinality({s \in 1..i : text[s] = "s"})
Nth(i) == Cardinality({s \in 1..i : text[s] = "w"})   \* words have no distance to other lines
Want == {p \in (1..Len(text)) \X (1..Len(text)) :
           /\ text[p[1]] = "w" /\ text[p[2]] = "w" /\ p[1] # p[2]
           /\ Seg(p[1]) = Seg(p[2])
           /\ p[2] - p[1] >= -ls /\ p[2] - p[1] <= rs}

Correct == mode = "done" => (IsInjectiveSeq(out) /\ Range0(out) = Want)
=============================================================================
