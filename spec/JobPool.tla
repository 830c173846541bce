------------------------------ MODULE JobPool ------------------------------
(***************************************************************************)
(* The worker pool behind every corpus pass (core/handler.py Paralleler    *)
(* and the handlers built on it): the main process queues one job per file *)
(* and one end marker per worker, workers take jobs and put results, the   *)
(* main process joins the workers and collects the results.                *)
(*                                                                         *)
(* Mode    "perFile"   every job puts its own result (item frequencies,    *)
(*                     dependencies)                                       *)
(*         "perWorker" a worker accumulates and puts one result when it    *)
(*                     meets the end marker, and an indicator for each job *)
(*                     after its first one (tokens)                        *)
(*         "chunk"     a worker puts one result at the end, and only when  *)
(*                     it found something (co-occurrences)                 *)
(* Collect "n"         the main process reads as many entries as files     *)
(*         "all"       it reads every entry that is in the queue           *)
(* CheckExit           the main process looks at the workers' exit state   *)
(*                     before it collects                                  *)
(* Bad      files whose processing kills the worker; Deaths: how many      *)
(*          workers may in addition die at any moment                      *)
(***************************************************************************)
EXTENDS Util, Json

CONSTANTS NF, NW, Mode, Collect, CheckExit, Bad, Deaths, Silent, Emit

Files   == 1..NF
Workers == 1..NW
End     == 0

VARIABLES jobs,    \* the job queue
          put,     \* how many jobs and markers the main process has queued
          pc,      \* worker -> "idle" | "busy" | "last" | "exit" | "dead"
          cur,     \* worker -> the file it is processing
          acc,     \* worker -> files it has processed, in order
          res,     \* the result queue: sequences of files, <<>> for an indicator
          main,    \* "run" | "collect" | "done" | "error"
          got,     \* entries read from the result queue
          result,  \* files whose contribution is in the final result, in order
          died,    \* workers that died on their own
          hist     \* schedule, kept only when Emit

vars == <<jobs, put, pc, cur, acc, res, main, got, result, died, hist>>

Init == /\ jobs = <<>> /\ put = 0
        /\ pc = [w \in Workers |-> "idle"]
        /\ cur = [w \in Workers |-> End]
        /\ acc = [w \in Workers |-> <<>>]
        /\ res = <<>> /\ main = "run" /\ got = 0 /\ result = <<>> /\ died = 0
        /\ hist = <<>>

Log(e) == IF Emit THEN hist' = Append(hist, e) ELSE UNCHANGED hist

Put == /\ main = "run" /\ put < NF + NW
       /\ jobs' = Append(jobs, IF put < NF THEN put + 1 ELSE End)
       /\ put' = put + 1
       /\ UNCHANGED <<pc, cur, acc, res, main, got, result, died, hist>>

\* with Emit the jobs are all queued before the first one is taken
Take(w) == /\ pc[w] = "idle" /\ jobs # <<>>
           /\ (Emit => put = NF + NW)
           /\ jobs' = Tail(jobs)
           /\ cur' = [cur EXCEPT ![w] = Head(jobs)]
           /\ pc' = [pc EXCEPT ![w] = IF Head(jobs) = End THEN "last" ELSE "busy"]
           /\ Log(<<w, Head(jobs)>>)
           /\ UNCHANGED <<put, acc, res, main, got, result, died>>

Work(w) == /\ pc[w] = "busy" /\ cur[w] \notin Bad
           /\ IF Mode = "perFile"
              THEN res' = Append(res, <<cur[w]>>) /\ acc' = acc
              ELSE /\ acc' = [acc EXCEPT ![w] = Append(@, cur[w])]
                   /\ res' = IF Mode = "perWorker" /\ acc[w] # <<>>
                             THEN Append(res, <<>>) ELSE res
           /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ UNCHANGED <<jobs, put, cur, main, got, result, died, hist>>

\* processing a bad file raises inside the worker: the process ends
Fail(w) == /\ pc[w] = "busy" /\ cur[w] \in Bad
           /\ pc' = [pc EXCEPT ![w] = "dead"]
           /\ UNCHANGED <<jobs, put, cur, acc, res, main, got, result, died, hist>>

Finish(w) == /\ pc[w] = "last"
             /\ res' = CASE Mode = "perFile" -> res
                         [] Mode = "perWorker" -> Append(res, acc[w])
                         [] Mode = "chunk" -> IF \E i \in 1..Len(acc[w]) : acc[w][i] \notin Silent
                                              THEN Append(res, acc[w]) ELSE res
             /\ pc' = [pc EXCEPT ![w] = "exit"]
             /\ UNCHANGED <<jobs, put, cur, acc, main, got, result, died, hist>>

\* a worker is killed at any moment
Die(w) == /\ died < Deaths /\ pc[w] \in {"idle", "busy", "last"}
          /\ pc' = [pc EXCEPT ![w] = "dead"] /\ died' = died + 1
          /\ UNCHANGED <<jobs, put, cur, acc, res, main, got, result, hist>>

Over(w) == pc[w] \in {"exit", "dead"}

Join_ == /\ main = "run" /\ put = NF + NW /\ \A w \in Workers : Over(w)
         /\ main' = IF CheckExit /\ \E w \in Workers : pc[w] = "dead"
                    THEN "error" ELSE "collect"
         /\ UNCHANGED <<jobs, put, pc, cur, acc, res, got, result, died, hist>>

\* reading an empty queue blocks: no step
Get == /\ main = "collect" /\ res # <<>>
       /\ (Collect = "n" => got < NF)
       /\ result' = result \o Head(res)
       /\ res' = Tail(res) /\ got' = got + 1
       /\ UNCHANGED <<jobs, put, pc, cur, acc, main, died, hist>>

Stop == /\ main = "collect"
        /\ IF Collect = "n" THEN got = NF ELSE res = <<>>
        /\ main' = "done"
        /\ IF Emit THEN PrintT("SCHED " \o ToJson(hist)) ELSE TRUE
        /\ UNCHANGED <<jobs, put, pc, cur, acc, res, got, result, died, hist>>

Next == \/ Put \/ Join_ \/ Get \/ Stop
        \/ \E w \in Workers : Take(w) \/ Work(w) \/ Fail(w) \/ Finish(w) \/ Die(w)

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Put \/ Join_ \/ Get \/ Stop)
        /\ \A w \in Workers : WF_vars(Take(w) \/ Work(w) \/ Fail(w) \/ Finish(w))

(* ---- what users rely on ---- *)
Wanted == {f \in Files : Mode # "chunk" \/ f \notin Silent}

\* C01..C04: a finished run contains every file's contribution exactly once
ExactlyOnce ==
  main = "done" =>
    /\ IsInjectiveSeq(result)
    /\ Wanted \subseteq Range0(result)

\* C05: a run in which a file could not be processed is never a success
NoSilentLoss == (main = "done") => (\A w \in Workers : pc[w] = "exit")

\* C05: every run ends
Terminates == <>(main \in {"done", "error"})

\* sanity of the model: a file is never processed by two workers
NoDoubleWork ==
  \A v, w \in Workers : v # w => Range0(acc[v]) \cap Range0(acc[w]) = {}
=============================================================================
