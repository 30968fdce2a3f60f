----------------------------- MODULE OrtFillTrace -----------------------------
(* Are recorded runs of generated browser code behaviours of OrtFill?         *)
EXTENDS OrtFill, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
TraceConfigs == Data.configs
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, l
tvars == <<cfg, page, lang, tid, l>>

Evs == Traces[tid].evs
Ev == Evs[l]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ cfg = Traces[tid].cfg
  /\ FInit
  /\ l = 1

Is(k) == l <= Len(Evs) /\ Ev.k = k

Step ==
  \/ Is("load") /\ Load(Ev.page)
  \/ Is("lang") /\ Speak(Ev.lang)
  \/ Is("fill") /\ Fill(Ev.s, Ev.os, Ev.p, Ev.inc = 1, Ev.cb, Ev.calls)
  \/ Is("class") /\ FillByClass(Ev.s, Ev.os, Ev.p, Ev.by, Ev.inc = 1, Ev.cb, Ev.calls)
  \/ Is("array") /\ FillArray(Ev.s, Ev.os, Ev.p, Ev.cb, Ev.calls)
  \/ Is("arrayclass") /\ FillArrayByClass(Ev.s, Ev.os, Ev.p, Ev.by, Ev.cb, Ev.calls)
  \/ Is("arrayor") /\ FillArrayOr(Ev.s, Ev.os, Ev.p, Ev.q, Ev.show = 1, Ev.cb, Ev.calls)
  \/ Is("format") /\ Label(Ev.h, Ev.p, Ev.name, Ev.v)
  \/ Is("look") /\ Look(Ev.page)

(* Where two pages differ: <<path, as specified, as seen>>.                   *)
RECURSIVE Differ(_, _, _)
Differ(a, b, p) ==
  IF a = b THEN <<>>
  ELSE IF IsText(a) \/ IsText(b) THEN <<<<p, a, b>>>>
  ELSE IF Len(a.k) # Len(b.k) \/ a.c # b.c \/ a.a # b.a THEN <<<<p, a, b>>>>
  ELSE FlattenSeq2([i \in Idx(a.k) |-> Differ(a.k[i], b.k[i], Append(p, i))])

Explain ==
  CASE Verbose /\ Is("look") -> PrintT(<<"EXPLAIN", tid, l, Differ(page, Norm(Ev.page), <<>>)>>)
    [] Verbose /\ Is("fill") /\ Ev.p # Nowhere ->
         PrintT(<<"EXPLAIN", tid, l, [i \in Idx(Ev.calls) |-> Tell(Ev.calls[i])],
                  LET w == FillCalls(C, Ev.cb, Ev.inc = 1, First(StructOf(C, Ev.s), Ev.os), Ev.p, At(page, Ev.p))
                  IN [i \in Idx(w) |-> Tell(w[i])]>>)
    [] OTHER -> TRUE

TraceNext ==
  /\ Explain
  /\ Step
  /\ l' = l + 1
  /\ tid' = tid
  /\ IF Verbose THEN PrintT(<<"STEP", tid, l>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
