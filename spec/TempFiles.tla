----------------------------- MODULE TempFiles -----------------------------
(***************************************************************************)
(* Working files of handlers that live at the same time.  A handler is      *)
(* constructed, its workers write partial results below its own temporary   *)
(* directory, the main process reads and removes them.  User is somebody    *)
(* else's file, which lies in the default directory.                        *)
(* CleanDefault: constructing a handler empties the default directory (the  *)
(* code as originally found).                                               *)
(***************************************************************************)
EXTENDS Util, Json

CONSTANTS NH, Chunks, CleanDefault, Tidy, Emit

H == 1..NH
\* directory 0 is the default one, directory h one that only handler h is given
User == <<0, 0, 0>>
\* a working file: <<directory, owner, number>>

VARIABLES dir, pc, fs, seen, hist
vars == <<dir, pc, fs, seen, hist>>

Init == /\ dir \in [H -> {0} \cup H]
        /\ \A h \in H : dir[h] \in {0, h}
        /\ pc = [h \in H |-> "none"]
        /\ fs = {User}
        /\ seen = [h \in H |-> {}]
        /\ hist = <<>>

Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist

Construct(h) == /\ pc[h] = "none"
                /\ fs' = IF CleanDefault THEN {f \in fs : f[1] # 0} ELSE fs
                /\ pc' = [pc EXCEPT ![h] = "ready"]
                /\ Log(<<"con", h>>) /\ UNCHANGED <<dir, seen>>
Work(h) == /\ pc[h] = "ready"
           /\ fs' = fs \cup {<<dir[h], h, c>> : c \in 1..Chunks}
           /\ pc' = [pc EXCEPT ![h] = "written"]
           /\ Log(<<"work", h>>) /\ UNCHANGED <<dir, seen>>
Collect(h) == /\ pc[h] = "written"
              /\ seen' = [seen EXCEPT ![h] = {f \in fs : f[1] = dir[h] /\ f[2] = h}]
              /\ fs' = IF Tidy THEN fs \ seen'[h] ELSE fs
              /\ pc' = [pc EXCEPT ![h] = "done"]
              /\ Log(<<"collect", h>>) /\ UNCHANGED dir

Next == \E h \in H : Construct(h) \/ Work(h) \/ Collect(h)

Complete == \A h \in H : pc[h] = "done" => Cardinality(seen[h]) = Chunks
NothingLeft == \A h \in H : pc[h] = "done" => ~\E f \in fs : f[2] = h
OthersKept == User \in fs

Out == (Emit /\ \A h \in H : pc[h] = "done") => PrintT("STEPS " \o ToJson(hist))
=============================================================================
