---------------------------- MODULE OrtNamesTrace ----------------------------
(* Is what the back ends were seen to write what OrtNames derives?            *)
EXTENDS OrtNames, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Said(e) ==
  [consts |-> [enums |-> {<<e.enums[i][1], RangeOf(e.enums[i][2])>> : i \in Idx(e.enums)},
               bits |-> {<<e.bits[i][1], {<<e.bits[i][2][j][1], e.bits[i][2][j][2], RangeOf(e.bits[i][2][j][3])>>
                                          : j \in Idx(e.bits[i][2])}>> : i \in Idx(e.bits)}],
   tops |-> RangeOf(e.tops),
   layout |-> RangeOf(e.layout),
   functions |-> RangeOf(e.functions),
   roles |-> RangeOf(e.roles),
   helpers |-> RangeOf(e.helpers)]

(* A field that is a reference may be validated, too.                         *)
Step ==
  \/ Is("emit") /\ Emit(Ev.lang, Said(Ev), RangeOf(Ev.flags))
  \/ Is("restate") /\ Restate(Ev.to)

Diff(a, b) == <<"spurious", a \ b, "missing", b \ a>>
Explain ==
  IF Verbose /\ Is("emit")
  THEN LET s == Said(Ev) c == Configs[cur] IN
       PrintT(<<"EXPLAIN", tid, l, Ev.lang, "enums", Diff(s.consts.enums, Consts(c).enums),
                "bits", Diff(s.consts.bits, Consts(c).bits),
                "tops", Diff(s.tops, Tops(c)),
                "layout", Diff(s.layout, Layout(Ev.lang, c)),
                "functions", Diff(s.functions, Functions(Ev.lang, c)),
                "roles", Diff(s.roles, Roles(c)),
                "helpers", Diff(s.helpers, Helpers(c, RangeOf(Ev.flags)))>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
