---------------------------- MODULE OrtAuditTrace ----------------------------
(* Are recorded audits what OrtAudit allows?                                  *)
EXTENDS OrtAudit, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, told, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ AuditInit
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("silent") /\ NoAnswer(Ev.role, Ev.status, Ev.said)
  \/ Is("audit") /\ ToolAudit(Ev.role, Ev.status, Ev.ops, Ev.reach)
  \/ Is("paths") /\ ToolPaths(Ev.role, Ev.status, Ev.ops, Ev.reach)
  \/ Is("json") /\ JsonAudit(Ev.role, Ev.status, Ev.doc, Ev.access, Ev.functions, Ev.fields)

Diff(a, b) == <<"spurious", a \ b, "missing", b \ a>>
Explain ==
  IF Verbose /\ l <= Len(Evs) /\ Ev.k \in {"audit", "paths", "json"}
  THEN LET c == Configs[cur] R == Reached(c, Ev.role) IN
       IF Ev.k = "json"
       THEN PrintT(<<"EXPLAIN", tid, l, Ev.role,
                     "access", {a.name : a \in {a \in RangeOf(Ev.access) : ~AccessOK(c, Ev.role, Ops(c, Ev.role), R, a)}},
                     "functions", Diff(RangeOf(Ev.functions), {<<o.fn, o.kind, o.doc>> : o \in Ops(c, Ev.role)}),
                     "fields", {f \in RangeOf(Ev.fields) :
                        ~\E st \in RangeOf(c.structs) : \E g \in RangeOf(st.fields) :
                           f = <<st.name, g.name, ~Withheld(c, st, g, Ev.role), g.doc>>},
                     "agrees", Agrees(Ev.role, JsonFlags(R, Ev.access))>>)
       ELSE PrintT(<<"EXPLAIN", tid, l, Ev.role, "ops", Diff(RangeOf(Ev.ops), OpLines(c, Ev.role)),
                     "reached", R, told>>)
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
