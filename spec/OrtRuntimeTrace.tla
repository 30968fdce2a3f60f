--------------------------- MODULE OrtRuntimeTrace ---------------------------
(* Are recorded executions of generated code behaviours of OrtRuntime?       *)
(* A run checks many executions: the initial state picks one.  An execution  *)
(* is accepted when all of its events have been consumed.                    *)
EXTENDS OrtRuntime, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<vars, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]
ToDb(j) == [s \in DOMAIN j |-> RangeOf(j[s])]
(* Events that leave the content as it was carry no copy of it.              *)
Obs == IF Ev.same = 1 THEN db ELSE ToDb(Ev.db)

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cid = Traces[tid].cfg
  /\ l = 1
  /\ open = FALSE
  /\ role = "none"
  /\ db = ToDb(Traces[tid].init)
  /\ tx = NoTx
  /\ held = <<>>

Is(k) == l <= Len(Evs) /\ Ev.k = k
St == StructOf(cfg, Ev.s)
QueryKinds == {"search", "list", "iterate", "count"}
KindOf == IF Ev.op = "query" THEN St.queries[Ev.i].kind ELSE Ev.op

Consume ==
  \/ Is("open") /\ Open(Obs)
  \/ Is("close") /\ Close(Obs)
  \/ Is("role") /\ ChangeRole(Ev.to, Ev.res, Obs)
  \/ Is("cur") /\ CurrentRole(Ev.res)
  \/ Is("call") /\ DeniedCall(St, KindOf, Ev.i, Ev.res, Obs)
  \/ Is("call") /\ Ev.op = "insert" /\ Insert(St, Ev.args, Ev.res, Obs)
  \/ Is("call") /\ Ev.op = "query" /\ Query(St, Ev.i, Ev.args, Ev.res, Obs, Ev.h)
  \/ Is("call") /\ Ev.op = "update" /\ Update(St, Ev.i, Ev.args, Ev.res, Obs)
  \/ Is("call") /\ Ev.op = "delete" /\ Delete(St, Ev.i, Ev.args, Ev.res, Obs)
  \/ Is("begin") /\ Begin(Ev.mode, Ev.res, Obs)
  \/ Is("commit") /\ Commit(Ev.res, Obs)
  \/ Is("rollback") /\ Rollback(Ev.res, Obs)
  \/ Is("peek") /\ Peek(IF Ev.res[1] = "db" THEN <<"db", ToDb(Ev.res[2])>> ELSE Ev.res)
  \/ Is("writer") /\ OtherWriter(Ev.res)
  \/ Is("export") /\ Export(Ev.h, Ev.res)

TraceNext ==
  /\ Consume
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
