-------------------------- MODULE OrtTranslateTrace ---------------------------
(* Are recorded chains of ort-xliff behaviours of OrtTranslate?               *)
EXTENDS OrtTranslate, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, file, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ file = <<>>
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

(* A joined configuration may be the one that is used further, or not.        *)
Step ==
  \/ Is("extract") /\ Extract(Ev.copy, Ev.status, Ev.out)
  \/ Is("translate") /\ Translate(Ev.out)
  \/ Is("edit") /\ Edit(Ev.to)
  \/ Is("update") /\ Update(Ev.copy, Ev.status, Ev.said, Ev.out)
  \/ Is("join") /\ Join(Ev.files, Ev.copy, Ev.status, Ev.said, Ev.to)

Explain ==
  IF Verbose /\ l <= Len(Evs)
  THEN LET c == Configs[cur] IN
       /\ IF Is("update") /\ Ev.status = 0 /\ file # <<>> /\ Usable(file[1])
          THEN PrintT(<<"EXPLAIN", tid, l, "missing", (Pairs(file[1]) \cup Fresh(c, file[1], Ev.copy)) \ Pairs(Ev.out),
                        "spurious", Pairs(Ev.out) \ (Pairs(file[1]) \cup Fresh(c, file[1], Ev.copy)),
                        "sound", Sound(file[1]), Sound(Ev.out), file[1].attrs, Ev.out.attrs>>)
          ELSE TRUE
       /\ IF Is("extract")
          THEN PrintT(<<"EXPLAIN", tid, l, Sources(c) \ Srcs(Ev.out), Srcs(Ev.out) \ Sources(c), Sound(Ev.out), Ev.out.bad>>)
          ELSE TRUE
       /\ IF Is("join") /\ Ev.status = 0
          THEN LET a == Meaning(JoinAll(c, Ev.files, Ev.copy)) b == Meaning(Configs[Ev.to]) IN
               PrintT(<<"EXPLAIN", tid, l, {<<n, a.enums[n], b.enums[n]>> : n \in {n \in DOMAIN a.enums \cap DOMAIN b.enums : a.enums[n] # b.enums[n]}},
                        {<<n, a.bits[n], b.bits[n]>> : n \in {n \in DOMAIN a.bits \cap DOMAIN b.bits : a.bits[n] # b.bits[n]}},
                        a.structs = b.structs, a.roles = b.roles>>)
          ELSE TRUE
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
