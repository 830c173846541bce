----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading recorded behaviours of the real code.  Line 1 is a header, every *)
(* further line is one recorded behaviour.  A trace specification consumes  *)
(* one line per step; the verdict on a line is total: the set of names of   *)
(* the clauses it breaks, printed and never a stuck trace.                  *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Header == Trace[1]

VARIABLE l

Report(i, clauses) == \A c \in clauses : PrintT(<<"FAIL", i, c>>)

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) - 1

\* clause helpers: the set of broken clause names
Must(cond, name) == IF cond THEN {} ELSE {name}

Ok(o) == o.st = "ok"
\* verdict of an observation that must be a normal result judged by body
OnOk(o, body) == IF o.st = "ok" THEN body
                 ELSE {CASE o.st = "exc" -> "exception" [] o.st = "hang" -> "hang"
                         [] OTHER -> "shape"}
=============================================================================
