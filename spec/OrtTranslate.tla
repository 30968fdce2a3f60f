----------------------------- MODULE OrtTranslate -----------------------------
(* Labels and their translations: extraction into a translation file, its     *)
(* maintenance as the configuration changes, and joining it into the          *)
(* configuration.  A translation file is                                      *)
(*   [bad, lang, attrs, units]                                                *)
(* where "bad" is "must" for what is no translation file, "may" for what only *)
(* need not be taken for one, and else ""; "lang" is the target language as   *)
(* configurations spell it, "attrs" what else is said of the file, and a unit *)
(* is [id, source, target] with target <<>> or <<text>>.                      *)
EXTENDS OrtForm

CONSTANT Configs
VARIABLES cur,     \* index of the configuration
          file     \* <<>> or <<translation file>>
tvars0 == <<cur, file>>

(* --------------------------------- labels --------------------------------- *)
DefaultOf(ls) == {ls[i][2] : i \in {i \in Idx(ls) : ls[i][1] = ""}}
LangOf(ls, g) == {ls[i][2] : i \in {i \in Idx(ls) : ls[i][1] = g}}

(* Everything that may be labelled.                                           *)
Labelled(c) ==
  UNION {{e.items[i].labels : i \in Idx(e.items)} \cup {e.isnull} : e \in RangeOf(c.enums)}
  \cup UNION {{b.items[i].labels : i \in Idx(b.items)} \cup {b.isunset, b.isnull} : b \in RangeOf(c.bits)}

Sources(c) == UNION {DefaultOf(ls) : ls \in Labelled(c)}

(* Are there labels where one may be missed?                                  *)
Complete(c) ==
  /\ \A e \in RangeOf(c.enums) : \A i \in Idx(e.items) : DefaultOf(e.items[i].labels) # {}
  /\ \A e \in RangeOf(c.enums) : e.isnull = <<>> \/ DefaultOf(e.isnull) # {}
  /\ \A b \in RangeOf(c.bits) : /\ \A i \in Idx(b.items) : DefaultOf(b.items[i].labels) # {}
                                /\ DefaultOf(b.isunset) # {}
                                /\ DefaultOf(b.isnull) # {}

(* ---------------------------- translation files --------------------------- *)
Srcs(f) == {f.units[i].source : i \in Idx(f.units)}
Target(f, s) == LET u == f.units[CHOOSE i \in Idx(f.units) : f.units[i].source = s] IN u.target
Distinct(f) ==
  /\ Cardinality({f.units[i].id : i \in Idx(f.units)}) = Len(f.units)
  /\ Cardinality(Srcs(f)) = Len(f.units)

(* All units of a file that is read are translated.                           *)
Usable(f) == f.bad # "must" /\ \A i \in Idx(f.units) : f.units[i].target # <<>>
Sound(f) == f.bad = "" /\ Distinct(f)

Fresh(c, f, copy) == {[source |-> s, target |-> IF copy = 1 THEN <<s>> ELSE <<>>] : s \in Sources(c) \ Srcs(f)}
Pairs(f) == {[source |-> f.units[i].source, target |-> f.units[i].target] : i \in Idx(f.units)}

(* ------------------------------- joining ---------------------------------- *)
Given(f, s, copy) == IF s \in Srcs(f) THEN Target(f, s) ELSE IF copy = 1 THEN <<s>> ELSE <<>>
JoinLabels(ls, f, copy) ==
  IF DefaultOf(ls) = {} \/ LangOf(ls, f.lang) # {} THEN ls
  ELSE LET s == CHOOSE s \in DefaultOf(ls) : TRUE
           t == Given(f, s, copy)
       IN IF t = <<>> THEN ls ELSE Append(ls, <<f.lang, t[1]>>)

JoinCfg(c, f, copy) ==
  [c EXCEPT !.enums = [k \in Idx(c.enums) |-> LET e == c.enums[k] IN
                         [e EXCEPT !.items = [i \in Idx(e.items) |->
                                                [e.items[i] EXCEPT !.labels = JoinLabels(@, f, copy)]],
                                   !.isnull = JoinLabels(@, f, copy)]],
            !.bits = [k \in Idx(c.bits) |-> LET b == c.bits[k] IN
                         [b EXCEPT !.items = [i \in Idx(b.items) |->
                                                [b.items[i] EXCEPT !.labels = JoinLabels(@, f, copy)]],
                                   !.isunset = JoinLabels(@, f, copy),
                                   !.isnull = JoinLabels(@, f, copy)]]]
RECURSIVE JoinAll(_, _, _)
JoinAll(c, fs, copy) == IF fs = <<>> THEN c ELSE JoinAll(JoinCfg(c, Head(fs), copy), Tail(fs), copy)

(* A label without a translation, of a kind that has none yet.                *)
Untranslated(c, f) ==
  {ls \in Labelled(c) : LangOf(ls, f.lang) = {} /\ DefaultOf(ls) # {} /\ ~(DefaultOf(ls) \subseteq Srcs(f))}
MayMiss(c, f) == ~(Sources(c) \subseteq Srcs(f))

(* ------------------------------- transitions ------------------------------ *)
TInit == cur \in 1..Len(Configs) /\ file = <<>>

Extract(copy, status, out) ==
  LET c == Configs[cur] IN
  /\ status = 0
  /\ Sound(out)
  /\ Pairs(out) = {[source |-> s, target |-> IF copy = 1 THEN <<s>> ELSE <<>>] : s \in Sources(c)}
  /\ file' = <<out>>
  /\ cur' = cur

(* What others do: translate, and change the configuration.                   *)
Translate(out) == file' = <<out>> /\ cur' = cur
Edit(to) == cur' = to /\ file' = file

Refused(status, said) == status = 1 /\ said = 0 /\ UNCHANGED tvars0

Update(copy, status, said, out) ==
  LET c == Configs[cur] f == file[1] IN
  /\ file # <<>>
  /\ \/ /\ Refused(status, said)
        /\ ~Usable(f) \/ ~Sound(f) \/ ~Complete(c)
     \/ /\ status = 0
        /\ Usable(f)
        /\ Sound(f) => /\ Sound(out)
                       /\ out.attrs = f.attrs /\ out.lang = f.lang
                       /\ RangeOf(f.units) \subseteq RangeOf(out.units)
                       /\ Pairs(out) = Pairs(f) \cup Fresh(c, f, copy)
                       /\ Len(out.units) = Len(f.units) + Cardinality(Fresh(c, f, copy))
        /\ file' = <<out>>
        /\ cur' = cur

(* The files are joined in turn.                                              *)
Join(fs, copy, status, said, to) ==
  LET c == Configs[cur] IN
  /\ fs # <<>>
  /\ \/ /\ Refused(status, said)
        /\ \/ \E f \in RangeOf(fs) : ~Usable(f) \/ ~Sound(f)
           \/ ~Complete(c)
           \/ copy = 0 /\ \E f \in RangeOf(fs) : MayMiss(c, f)
     \/ /\ status = 0
        /\ \A f \in RangeOf(fs) : Usable(f)
        /\ copy = 0 => \A f \in RangeOf(fs) : Untranslated(c, f) = {}
        /\ (\A f \in RangeOf(fs) : Sound(f)) => Meaning(Configs[to]) = Meaning(JoinAll(c, fs, copy))
        /\ cur' = to
        /\ file' = file
=============================================================================
