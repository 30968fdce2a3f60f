--------------------------- MODULE OrtEvolveTrace ----------------------------
(* Are recorded runs of ort-diff, ort-sql and ort-sqldiff behaviours of       *)
(* OrtEvolve?                                                                *)
EXTENDS OrtEvolve, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<evars, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]
ToCat(j) == [n \in DOMAIN j |-> [cols |-> RangeOf(j[n].cols),
                                 uniq |-> {RangeOf(u) : u \in RangeOf(j[n].uniq)},
                                 refs |-> RangeOf(j[n].refs)]]
ToRows(j) == [n \in DOMAIN j |-> RangeOf(j[n])]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ l = 1
  /\ cat = <<>>
  /\ rows = <<>>

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("create") /\ Create(ToCat(Ev.cat))
  \/ Is("fill") /\ Fill(ToRows(Ev.rows))
  \/ Is("compare") /\ Compare(Ev.to, Ev.status, RangeOf(Ev.entries))
  \/ Is("sqldiff") /\ Refuse(Ev.to, Ev.destruct, Ev.status)
  \/ Is("migrate") /\ Migrate(Ev.to, Ev.destruct, Ev.status, Ev.empty, Ev.done,
                              ToCat(Ev.cat), ToRows(Ev.rows))

Explain ==
  IF Verbose /\ Is("compare")
  THEN LET d == Diff(Configs[cur], Configs[Ev.to]) e == RangeOf(Ev.entries)
       IN PrintT(<<"EXPLAIN", tid, l, "missing", d \ e, "spurious", e \ d>>)
  ELSE IF Verbose /\ Is("migrate")
  THEN PrintT(<<"EXPLAIN", tid, l, "incompatible", Incompatible(Configs[cur], Configs[Ev.to], Ev.destruct),
                "same", SameSchema(Configs[cur], Configs[Ev.to]),
                "intheway", InTheWay(Configs[cur], Configs[Ev.to]),
                "cat", [n \in {n \in DOMAIN NewCatalogue(Configs[cur], Configs[Ev.to]) :
                          n \notin DOMAIN Ev.cat \/ ToCat(Ev.cat)[n] # NewCatalogue(Configs[cur], Configs[Ev.to])[n]}
                        |-> NewCatalogue(Configs[cur], Configs[Ev.to])[n]],
                "rows", {n \in DOMAIN NewRows(Configs[cur], Configs[Ev.to]) :
                          n \notin DOMAIN Ev.rows \/ ToRows(Ev.rows)[n] # NewRows(Configs[cur], Configs[Ev.to])[n]}>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Checked on every compared pair and on every step.                          *)
DiffLaws ==
  Is("compare") => /\ Antisymmetric(Configs[cur], Configs[Ev.to])
                   /\ Sound(Configs[cur], Configs[Ev.to])
NeverLost == [][NothingLost]_evars
=============================================================================
