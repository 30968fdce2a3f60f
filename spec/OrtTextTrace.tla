---------------------------- MODULE OrtTextTrace -----------------------------
(* Are recorded runs of the tools on documents behaviours of OrtText?         *)
EXTENDS OrtText, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cur, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cur = Traces[tid].cfg
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

(* The last member of these is a set.                                         *)
ToDerived(s) ==
  {IF s[i][1] \in {"role", "mask", "roles"}
   THEN <<s[i][1], s[i][2], s[i][3], RangeOf(s[i][4])>> \o <<>>
   ELSE s[i] : i \in {i \in Idx(s) : s[i][1] # "roles"}}
  \cup {<<"roles", s[i][2], s[i][3], s[i][4], RangeOf(s[i][5])>> : i \in {i \in Idx(s) : s[i][1] = "roles"}}

Step ==
  \/ Is("format") /\ Format(Ev.to, Ev.status, Ev.again)
  \/ Is("json") /\ ToJson(Ev.to, Ev.status, ToDerived(Ev.derived), RangeOf(Ev.misplaced))
  \/ Is("unjson") /\ FromJson(Ev.to, Ev.status)
  \/ Is("spread") /\ Spread(Ev.to, Ev.status)

Differing(a, b) ==
  {k \in DOMAIN a : a[k] # b[k]}
Explain ==
  IF Verbose /\ l <= Len(Evs) /\ Ev.to > 0
  THEN LET a == Loose(Meaning(Configs[cur])) b == Loose(Meaning(Configs[Ev.to])) IN
       /\ PrintT(<<"EXPLAIN", tid, l, Differing(a, b),
                 {n \in DOMAIN a.structs \cap DOMAIN b.structs : a.structs[n] # b.structs[n]},
                 UNION {{<<n, k, a.structs[n][k], b.structs[n][k]>> : k \in Differing(a.structs[n], b.structs[n])}
                        : n \in DOMAIN a.structs \cap DOMAIN b.structs}>>)
       /\ IF Is("json") THEN LET d == ToDerived(Ev.derived) e == Derived(Configs[cur])
                             IN PrintT(<<"DERIVED", tid, "missing", e \ d, "spurious", d \ e>>) ELSE TRUE
  ELSE TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
