---------------------------- MODULE OrtReadTrace -----------------------------
(* Are recorded verdicts on documents those of OrtWellFormed?                 *)
EXTENDS OrtWellFormed, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

CONSTANT Configs
VARIABLES tid, l
tvars == <<heard, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ heard = "nothing"
  /\ l = 1

Conf == Configs[Traces[tid].cfg]

Step ==
  \/ l <= Len(Evs) /\ Ev.k = "read" /\ Read(Traces[tid].docs, Conf, Ev.status, Ev.out, Ev.err)
  (* The bytes are no text of the language at all, or nobody says what is     *)
  (* right: an orderly answer is all that is asked for.                      *)
  \/ l <= Len(Evs) /\ Ev.k = "orderly"
     /\ \/ Ev.status = 0 /\ Ev.out = 1
        \/ Ev.status = 1 /\ Ev.out = 0 /\ Ev.err = 1
     /\ heard' = IF Ev.status = 0 THEN "accepted" ELSE "refused"

Syntax == \A i \in Idx(Traces[tid].docs) : IsDocument(Traces[tid].docs[i])

(* Which faults were seen: for the record of what was covered.                *)
Tell ==
  IF l = 1 /\ Traces[tid].tell = 1
  THEN PrintT(<<"FAULTS", tid, IF Syntax THEN Faults(Conf) ELSE {"syntax"}>>) ELSE TRUE

TraceNext ==
  /\ Tell
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
