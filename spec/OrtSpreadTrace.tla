--------------------------- MODULE OrtSpreadTrace ----------------------------
(* Are recorded histories of layouts behaviours of OrtSpread?                 *)
EXTENDS OrtSpread, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<first, cur, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ first = Traces[tid].cfg
  /\ cur = first
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Said(e) ==
  [consts |-> [enums |-> {<<e.enums[i][1], RangeOf(e.enums[i][2])>> : i \in Idx(e.enums)},
               bits |-> {<<e.bits[i][1], {<<e.bits[i][2][j][1], e.bits[i][2][j][2], RangeOf(e.bits[i][2][j][3])>>
                                          : j \in Idx(e.bits[i][2])}>> : i \in Idx(e.bits)}],
   layout |-> RangeOf(e.layout),
   functions |-> RangeOf(e.functions),
   roles |-> RangeOf(e.roles),
   helpers |-> RangeOf(e.helpers)]

ToDerived(s) ==
  {IF s[i][1] \in {"role", "mask"} THEN <<s[i][1], s[i][2], s[i][3], RangeOf(s[i][4])>> ELSE s[i]
   : i \in {i \in Idx(s) : s[i][1] # "roles"}}
  \cup {<<"roles", s[i][2], s[i][3], s[i][4], RangeOf(s[i][5])>> : i \in {i \in Idx(s) : s[i][1] = "roles"}}

ToCat(j) == [n \in DOMAIN j |-> [cols |-> RangeOf(j[n].cols),
                                 uniq |-> {RangeOf(u) : u \in RangeOf(j[n].uniq)},
                                 refs |-> RangeOf(j[n].refs)]]

Step ==
  \/ Is("layout") /\ Layout(Ev.to)
  \/ Is("written") /\ Written(Ev.to, Ev.status)
  \/ Is("json") /\ Json(Ev.to, Ev.status, ToDerived(Ev.derived))
  \/ Is("emit") /\ Emitted(Ev.lang, Said(Ev), RangeOf(Ev.flags))
  \/ Is("tables") /\ Tables(ToCat(Ev.cat))
  \/ Is("compared") /\ Compared(Ev.status, Ev.said)

TraceNext ==
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
