---- MODULE TraceInput ----
(* Reading recorded traces (one JSON object {id, ev} per line of the file   *)
(* named by the environment variable TRACES) and reporting verdicts.        *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
(* one line of JSON each: TLC breaks structured values over lines           *)
Report(t, k, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<Traces[t].id, k, bad>>))
Done(t) == PrintT("DONE " \o ToJson(<<Traces[t].id, Len(Traces[t].ev)>>))
====
