------------------------------- MODULE CbcRun -------------------------------
(***************************************************************************)
(* Clustering by committee as a machine over what is observable: the       *)
(* elements of a recursion go to a pool of processes that look at the       *)
(* neighbourhood of each (step 1); the clusters found are cleaned (step 2)  *)
(* and every element joins a committee or is a residue (step 3).            *)
(*  Store   "task": the clusters of a group are kept with the group         *)
(*          "process": kept with the process, a second group overwrites     *)
(*  Dedup   "all" / "adjacent": copies of a cluster that are dropped        *)
(*  Empty   "keep" / "lose": what happens to the elements when there is no  *)
(*          committee                                                       *)
(***************************************************************************)
EXTENDS Cbc, Json
CONSTANTS NE, NP, NG, Limit, Store, Dedup, Empty, MaxL, Emit

VARIABLES pc, rs, els, todo, ran, out, lst, kept
vars == <<pc, rs, els, todo, ran, out, lst, kept>>
All == 1..NE
Procs == 1..NP
Ord(S) == SetToSortSeq(S, <)

Init == /\ pc = "start" /\ rs = <<>> /\ els = Ord(All)
        /\ todo = <<>> /\ ran = <<>> /\ out = <<>> /\ lst = <<>> /\ kept = {}

\* the elements are dealt out over the groups
GroupOf(i) == ((i - 1) % NG) + 1
Begin == /\ pc = "start"
         /\ IF Len(rs) = Limit \/ els = <<>> THEN pc' = "done" /\ UNCHANGED <<todo, ran, out>>
            ELSE /\ pc' = "pool" /\ todo' = Ord(1..NG) /\ ran' = <<>>
                 /\ out' = [p \in IF Store = "task" THEN 1..NG ELSE Procs |-> {}]
         /\ UNCHANGED <<rs, els, lst, kept>>
\* a process takes the next group; what it finds is named by the elements
Run(p) == /\ pc = "pool" /\ todo # <<>>
          /\ (Emit => ran = <<>> \/ \A q \in 1..p : q = p \/ q \in Range0(ran))   \* processes are alike
          /\ LET g == Head(todo)  es == {els[i] : i \in {j \in 1..Len(els) : GroupOf(j) = g}} IN
             out' = [out EXCEPT ![IF Store = "task" THEN g ELSE p] = es]
          /\ ran' = Append(ran, p) /\ todo' = Tail(todo)
          /\ UNCHANGED <<pc, rs, els, lst, kept>>
Collect == /\ pc = "pool" /\ todo = <<>>
           /\ pc' = IF Emit THEN "end" ELSE "clean"
           /\ (Emit => PrintT("POOL " \o ToJson(ran)))
           /\ UNCHANGED <<rs, els, todo, ran, out, lst, kept>>
\* the clusters found, best score first: any list (same score: any order)
Clean == /\ pc = "clean"
         /\ \E n \in 0..MaxL : \E l \in [1..n -> {S \in SUBSET Range0(els) : Cardinality(S) > 1}] :
              LET keep == {i \in 1..n : IF Dedup = "all" THEN \A j \in 1..(i - 1) : l[j] # l[i]
                                        ELSE i = 1 \/ l[i - 1] # l[i]}
              IN  /\ lst' = l
                  /\ kept' = {i \in keep : ~\E j \in keep : j # i /\ l[j] \subseteq l[i]}
         /\ pc' = "assign"
         /\ UNCHANGED <<rs, els, todo, ran, out>>
Assign == /\ pc = "assign"
          /\ LET C == {lst[i] : i \in kept} IN
             \E R \in SUBSET Range0(els) :
               /\ C = {} => R = (IF Empty = "keep" THEN Range0(els) ELSE {})
               /\ LET join == Range0(els) \ (R \cup UNION C)
                      cs == IF C = {} THEN <<>>
                            ELSE [k \in 1..Cardinality(C) |->
                                    Ord(SetToSeq(C)[k] \cup (IF k = 1 THEN join ELSE {}))]
                      r == [comms |-> cs, res |-> Ord(R)]
                      stop == Cardinality(R) <= 2 \/ Cardinality(R) = Len(els)
                  IN  /\ rs' = Append(rs, r) /\ els' = r.res
                      /\ pc' = IF stop THEN "done" ELSE "start"
          /\ UNCHANGED <<todo, ran, out, lst, kept>>
Next == Begin \/ (\E p \in Procs : Run(p)) \/ Collect \/ Clean \/ Assign
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every element's neighbourhood has been looked at when the pool is done
NothingLost == pc \in {"clean", "end"} => UNION {out[x] : x \in DOMAIN out} = Range0(els)
\* the kept clusters cover all clusters, without copies or nesting
Covered == pc = "assign" => /\ \A i \in 1..Len(lst) : \E k \in kept : lst[k] \subseteq lst[i]
                            /\ \A i, j \in kept : i # j => ~(lst[i] \subseteq lst[j])
Accounted == pc = "done" => AccountClauses(Ord(All), rs, Limit) = {}
Terminates == <>(pc = "done")
=============================================================================
