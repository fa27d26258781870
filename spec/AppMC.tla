--------------------------------- MODULE AppMC ---------------------------------
(* The concurrent program for a few files, every schedule and every failure: *)
(* the walker finds files (or fails on some) and hands each to the workers   *)
(* of a pool, a worker reads, fixes, writes and reports its file, messages   *)
(* go through one unbounded queue to the output thread, which ends when all  *)
(* senders are gone.  Writing is not atomic; a failed write is undone.       *)
EXTENDS App
CONSTANTS Files, Workers, Broken, Fix
(* Broken: entries the walker fails on                                        *)
Outcomes == {"clean", "warned", "unreadable", "fixed", "endless", "unwritable"}
Done == {"reported", "failed"}

VARIABLES outcome, left, todo, at, step, disk, chan, senders, main, got, output, result
vars == <<outcome, left, todo, at, step, disk, chan, senders, main, got, output, result>>

Init == /\ outcome \in [Files -> IF Fix THEN Outcomes ELSE {"clean", "warned", "unreadable"}]
        /\ left = Files \cup Broken           \* entries the walker has not seen yet
        /\ todo = {}                          \* files waiting for a worker
        /\ at = [w \in Workers |-> "none"]    \* the file of each worker
        /\ step = [f \in Files |-> "new"]
        /\ disk = [f \in Files |-> "original"]
        /\ chan = <<>> /\ senders = {"main", "walker"}
        /\ main = "walking" /\ got = None /\ output = "receiving" /\ result = [counts |-> <<>>, code |-> 9]

Send(m) == chan' = Append(chan, m)
Walk == /\ main = "walking"
        /\ \E e \in left :
             /\ left' = left \ {e}
             /\ IF e \in Broken THEN Send("error") /\ UNCHANGED <<todo, senders>>
                ELSE todo' = todo \cup {e} /\ senders' = senders \cup {e} /\ UNCHANGED chan
        /\ UNCHANGED <<outcome, at, step, disk, main, got, output, result>>
Walked == /\ main = "walking" /\ left = {} /\ main' = "waiting" /\ senders' = senders \ {"walker"}
          /\ UNCHANGED <<outcome, left, todo, at, step, disk, chan, got, output, result>>
Take(w) == /\ at[w] = "none"
           /\ \E f \in todo : todo' = todo \ {f} /\ at' = [at EXCEPT ![w] = f] /\ step' = [step EXCEPT ![f] = "file"] /\ Send("file")
           /\ UNCHANGED <<outcome, left, disk, senders, main, got, output, result>>
To(f, s) == step' = [step EXCEPT ![f] = s]
Fail(f) == To(f, "failed") /\ Send("error") /\ UNCHANGED disk
Work(w) ==
  LET f == at[w]  o == outcome[f] IN
  /\ f # "none" /\ step[f] \notin Done
  /\ CASE step[f] = "file" -> IF o = "unreadable" THEN Fail(f) ELSE To(f, "checked") /\ UNCHANGED <<chan, disk>>
       [] step[f] = "checked" ->
            IF Fix /\ o = "endless" THEN Fail(f)
            ELSE IF Fix /\ o \in {"fixed", "unwritable"} THEN To(f, "writing") /\ disk' = [disk EXCEPT ![f] = "partial"] /\ UNCHANGED chan
            ELSE To(f, "reporting") /\ UNCHANGED <<chan, disk>>
       [] step[f] = "writing" ->
            IF o = "unwritable" THEN To(f, "undone") /\ disk' = [disk EXCEPT ![f] = "original"] /\ UNCHANGED chan
            ELSE To(f, "reporting") /\ disk' = [disk EXCEPT ![f] = "fixed"] /\ UNCHANGED chan
       [] step[f] = "undone" -> Fail(f)
       [] step[f] = "reporting" -> IF o = "warned" THEN To(f, "counted") /\ Send("warning") /\ UNCHANGED disk ELSE To(f, "counted") /\ UNCHANGED <<chan, disk>>
       [] step[f] = "counted" -> To(f, "reported") /\ Send("message") /\ UNCHANGED disk
  /\ UNCHANGED <<outcome, left, todo, at, senders, main, got, output, result>>
Release(w) == /\ at[w] # "none" /\ step[at[w]] \in Done
              /\ senders' = senders \ {at[w]} /\ at' = [at EXCEPT ![w] = "none"]
              /\ UNCHANGED <<outcome, left, todo, step, disk, chan, main, got, output, result>>
Idle == todo = {} /\ \A w \in Workers : at[w] = "none"
Drop == /\ main = "waiting" /\ Idle /\ main' = "joining" /\ senders' = senders \ {"main"}
        /\ UNCHANGED <<outcome, left, todo, at, step, disk, chan, got, output, result>>
Receive == /\ output = "receiving" /\ chan # <<>>
           /\ got' = [got EXCEPT ![Head(chan)] = @ + 1] /\ chan' = Tail(chan)
           /\ UNCHANGED <<outcome, left, todo, at, step, disk, senders, main, output, result>>
Conclude == /\ output = "receiving" /\ chan = <<>> /\ senders = {} /\ output' = "over"
            /\ result' = [counts |-> Counts(got), code |-> ExitCode(Counts(got))]
            /\ UNCHANGED <<outcome, left, todo, at, step, disk, chan, senders, main, got>>
(* the program ends here, with whatever the workers have left undone        *)
Exit == /\ main = "joining" /\ output = "over" /\ main' = "over"
        /\ UNCHANGED <<outcome, left, todo, at, step, disk, chan, senders, got, output, result>>
Next == main # "over" /\ (Walk \/ Walked \/ Drop \/ Receive \/ Conclude \/ Exit \/ \E w \in Workers : Take(w) \/ Work(w) \/ Release(w))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bad == {"unreadable", "endless", "unwritable"}
Of(o) == { f \in Files : outcome[f] = o }
Failing == { f \in Files : outcome[f] \in Bad }
TypeOK == /\ \A f \in Files : step[f] \in {"new", "file", "checked", "writing", "undone", "reporting", "counted", "reported", "failed"}
          /\ \A w1, w2 \in Workers : w1 # w2 /\ at[w1] # "none" => at[w1] # at[w2]
          /\ main \in {"walking", "waiting", "joining", "over"}
(* every file is original or completely fixed at the end                    *)
FilesIntact == main = "over" => \A f \in Files : disk[f] = IF outcome[f] = "fixed" THEN "fixed" ELSE "original"
AllProcessed == main = "over" => \A f \in Files : step[f] = IF f \in Failing THEN "failed" ELSE "reported"
(* the summary depends on what was found, and not on the schedule           *)
Expected == <<Cardinality(Files), Cardinality(Broken) + Cardinality(Failing), Cardinality(Of("warned")), 0, 0>>
SummaryExact == main = "over" => result.counts = Expected /\ result.code = ExitCode(Expected)
Ends == <>(main = "over")
=============================================================================
