---------------------------- MODULE OrtValidTrace -----------------------------
(* Are recorded runs of generated validators behaviours of OrtValid?          *)
EXTENDS OrtValid, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, taken, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ taken = <<>>
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("accept") /\ Accept(Ev.s, Ev.f, Ev.in, Ev.v)
  \/ Is("reject") /\ Reject(Ev.s, Ev.f, Ev.in)
  \/ Is("none") /\ RejectNone(Ev.s, Ev.f)
  \/ Is("table") /\ Table(RangeOf(Ev.names))

Explain ==
  IF Verbose /\ (Is("accept") \/ Is("reject"))
  THEN LET fd == TheField(Configs[cur], Ev.s, Ev.f) IN
       PrintT(<<"EXPLAIN", tid, l, fd.type, "odd", Odd(fd, Ev.in), "plain", Plain(fd, Ev.in),
                "value", IF Odd(fd, Ev.in) /\ Known(fd, Ev.in) THEN ValueOf(fd, Ev.in) ELSE <<>>>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
