--------------------------- MODULE OrtSchemaTrace ----------------------------
(* Are recorded histories of schemas printed by ort-sql behaviours of         *)
(* OrtSchema?                                                                *)
EXTENDS OrtSchema, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<vars, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]
ToDb(j) == [s \in DOMAIN j |-> RangeOf(j[s])]
Obs == IF Ev.same = 1 THEN db ELSE ToDb(Ev.db)
ToCat(j) == [n \in DOMAIN j |-> [cols |-> RangeOf(j[n].cols),
                                 uniq |-> {RangeOf(u) : u \in RangeOf(j[n].uniq)},
                                 refs |-> RangeOf(j[n].refs)]]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cid = Traces[tid].cfg
  /\ l = 1
  /\ open = TRUE
  /\ role = "default"
  /\ db = ToDb(Traces[tid].init)
  /\ tx = NoTx
  /\ held = <<>>

Is(k) == l <= Len(Evs) /\ Ev.k = k
St == StructOf(cfg, Ev.s)

Consume ==
  \/ Is("catalogue") /\ Catalogued(ToCat(Ev.cat))
  \/ Is("insert") /\ SqlInsert(St, Ev.given, Ev.res, Obs)
  \/ Is("update") /\ SqlUpdate(St, Ev.id, Ev.given, Ev.res, Obs)
  \/ Is("delete") /\ SqlDelete(St, Ev.id, Ev.res, Obs)

TraceNext ==
  /\ Consume
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
