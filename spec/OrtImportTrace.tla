---------------------------- MODULE OrtImportTrace ----------------------------
(* Are recorded runs of generated importers behaviours of OrtImport?          *)
EXTENDS OrtImport, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, read, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ read = <<>>
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("import") /\ Import(Ev.s, Ev.j, Ev.o) /\ read'[1] = Ev.n
  \/ Is("refuse") /\ Refuse(Ev.s, Ev.j)
  \/ Is("importall") /\ ImportAll(Ev.s, Ev.j, Ev.o) /\ read'[1] = Ev.n
  \/ Is("refuseall") /\ RefuseAll(Ev.s, Ev.j)
  \/ Is("trip") /\ RoundTrip(Ev.s, Ev.o, Ev.n, Ev.o2)

(* The fields that do not come of the document.                               *)
Wrong(st, v, x) ==
  {st.fields[i].name : i \in {i \in Idx(st.fields) :
     LET at == {j \in Idx(v[2]) : i \in FieldKeyed(st, Key(v[2][j]))} IN
     IF at = {} THEN x[2][i] # ZeroField(C, st, st.fields[i])
     ELSE \A j \in at : ~FitsField(C, st, st.fields[i], v[2][j][2], x[2][i])}}

Explain ==
  IF Verbose /\ (Is("import") \/ Is("refuse"))
  THEN LET st == StructOf(C, Ev.s) IN
       PrintT(<<"EXPLAIN", tid, l, "must", MustObj(C, st, Ev.j), "tokens", Tokens(Ev.j),
                "wrong", IF Is("import") /\ Ev.j[1] = "obj" THEN Wrong(st, Ev.j, Ev.o) ELSE {}>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
