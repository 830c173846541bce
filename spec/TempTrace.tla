----------------------------- MODULE TempTrace -----------------------------
(***************************************************************************)
(* Recorded file system events of handlers (C26), replayed on a model of    *)
(* the file system: a partial function from path to the actor that created  *)
(* the file (0: it was there before).  An event is                          *)
(* <<actor, "write" | "remove" | "mkdir" | "rmdir", path>>.                 *)
(* c.conf[h]: tmp, out ("" if not configured); c.home; c.before/c.after:    *)
(* <<path, content digest>> of every file.                                  *)
(***************************************************************************)
EXTENDS TraceBase

\* where a handler may put working files
TmpDir(c, h) == LET s == c.conf[h] IN
                IF s.tmp # "" THEN s.tmp ELSE IF s.out # "" THEN s.out \o "/tmp" ELSE c.home \o "/tmp"
Below(p, d) == StartsWith(p, d \o "/")

\* another handler's different directory that does not contain ours
Foreign(c, h, p) == \E g \in 1..Len(c.conf) : /\ g # h /\ TmpDir(c, g) # TmpDir(c, h)
                                              /\ Below(p, TmpDir(c, g))
                                              /\ ~Below(TmpDir(c, h), TmpDir(c, g))

Step(c, acc, e) ==
  LET h == e[1]
      p == e[3]
      own == Below(p, TmpDir(c, h)) /\ ~Foreign(c, h, p)
  IN  CASE e[2] = "write" ->
             [fs |-> {x \in acc.fs : x[1] # p} \cup {<<p, h>>},
              bad |-> acc.bad \cup Must(own, "writes-outside-its-temporary-directory")]
        [] e[2] = "remove" ->
             [fs |-> {x \in acc.fs : x[1] # p},
              bad |-> acc.bad \cup Must(own, "removes-outside-its-temporary-directory")
                              \cup Must(~\E x \in acc.fs : x[1] = p /\ x[2] \notin {0, h}, "removes-a-file-of-another-handler")]
        [] OTHER -> acc

Run(c, o) ==
  OnOk(o,
    LET r == FoldLeft(LAMBDA acc, e : Step(c, acc, e),
                      [fs |-> {<<b[1], 0>> : b \in Range0(o.v.before)}, bad |-> {}], o.v.events)
        before == {<<b[1], b[2]>> : b \in Range0(o.v.before)}
        after == {<<b[1], b[2]>> : b \in Range0(o.v.after)}
        paths(S) == {x[1] : x \in S}
        \* files that no handler's own directory contains
        public(S) == {x \in S : \A h \in 1..Len(c.conf) : ~Below(x[1], TmpDir(c, h))}
    IN  r.bad
        \cup Must({x \in r.fs : x[2] # 0} = {}, "working-file-left-behind")
        \cup Must(paths(after) \subseteq paths(before), "file-left-behind")
        \cup Must(public(before) \subseteq after, "other-file-changed")
        \cup Must(o.v.result, "wrong-result"))

Verdict(c) == UNION {Run(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
