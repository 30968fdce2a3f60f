--------------------------- MODULE OrtProgramTrace ---------------------------
(* Is what became of generated code what OrtProgram says?                     *)
EXTENDS OrtProgram, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, units, stage, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ units = {} /\ stage = "building"
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("compile") /\ Compile([base |-> Ev.base, flags |-> RangeOf(Ev.flags)], RangeOf(Ev.defined), Ev.complaints)
  \/ Is("link") /\ Link(RangeOf(Ev.used), Ev.complaints)
  \/ Is("prepare") /\ Prepare(RangeOf(Ev.given))
  \/ Is("call") /\ Call(RangeOf(Ev.calls))
  \/ Is("understand") /\ Understand(Ev.complaints)

Explain ==
  IF ~Verbose THEN TRUE
  ELSE IF Is("compile")
  THEN PrintT(<<"EXPLAIN", tid, l, "missing", Provides(Configs[cur], [base |-> Ev.base, flags |-> RangeOf(Ev.flags)]) \ RangeOf(Ev.defined)>>)
  ELSE IF Is("link")
  THEN PrintT(<<"EXPLAIN", tid, l, units, "missing", Provided(Configs[cur], units) \ RangeOf(Ev.used),
                "spurious", RangeOf(Ev.used) \ Provided(Configs[cur], units)>>)
  ELSE IF Is("prepare")
  THEN PrintT(<<"EXPLAIN", tid, l, "missing", {s \in Shapes(Configs[cur]) : Shape(s) \notin RangeOf(Ev.given)},
                Fetched(Configs[cur]) \ RangeOf(Ev.given)>>)
  ELSE IF Is("call")
  THEN PrintT(<<"EXPLAIN", tid, l, "shapes", {s \in Shapes(Configs[cur]) : \A x \in RangeOf(Ev.calls) :
                ~(x[1] = s[1] /\ Len(x[2]) > 0 /\ Len(x[2][1]) = 4 /\ <<x[2][1][1], x[2][1][2], x[2][1][3]>> = Shape(s))}>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
