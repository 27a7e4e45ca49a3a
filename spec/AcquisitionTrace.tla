---- MODULE AcquisitionTrace ----
(* Recorded sessions with the real acquisition functions against Acquisition. *)
EXTENDS Acquisition, TraceInput
VARIABLES tr, pos, st
vars == <<tr, pos, st>>
Init == tr = 1 /\ pos = 1 /\ st = NoState
Consume == /\ tr <= Len(Traces)
           /\ pos <= Len(Traces[tr].ev)
           /\ LET e == Traces[tr].ev[pos] IN
              /\ Report(tr, pos, Bad(st, e))
              /\ st' = Eff(st, e)
           /\ pos' = pos + 1
           /\ UNCHANGED tr
NextTrace == /\ tr <= Len(Traces)
             /\ pos > Len(Traces[tr].ev)
             /\ Done(tr)
             /\ tr' = tr + 1 /\ pos' = 1 /\ st' = NoState
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_vars
====
