---------------------------- MODULE OrtTranslateMC ----------------------------
(* All configurations with labels from a small set, all translation files for *)
(* them, and everything that can be done.  The configurations and files are   *)
(* written down, so that every step is also taken with ort-xliff.             *)
EXTENDS OrtTranslate, SequencesExt, Json, IOUtils

Texts == {"one", "two", "more"}
Item(n, ls) == [name |-> n, num |-> <<>>, doc |-> <<>>, labels |-> ls]
Bit(n, b, ls) == [name |-> n, bit |-> b, doc |-> <<>>, labels |-> ls]
LabelSets == {<<>>} \cup {<<<<"", t>>>> : t \in {"one", "two"}} \cup {<<<<"", "one">>, <<"xx", "old">>>>}
Id == [name |-> "id", type |-> "int", aux |-> "", null |-> 0, unique |-> 0, rowid |-> 1,
       noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
       limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
St == [name |-> "main", fields |-> <<Id>>, insert |-> 0, queries |-> <<>>, updates |-> <<>>,
       deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Cfg(es, bs) == [hasroles |-> 0, roles |-> <<>>, enums |-> es, bits |-> bs, structs |-> <<St>>]
AllConfigs ==
  SetToSeq(
    {Cfg(<<[name |-> "ea", doc |-> <<>>, isnull |-> n, items |-> <<Item("ia", a), Item("ib", b)>>]>>, <<>>)
      : n \in {<<>>, <<<<"", "two">>>>}, a \in LabelSets, b \in LabelSets}
    \cup {Cfg(<<>>, <<[name |-> "ba", doc |-> <<>>, isunset |-> u, isnull |-> n, items |-> <<Bit("ia", 0, a)>>]>>)
      : u \in LabelSets, n \in {<<>>, <<<<"", "one">>>>}, a \in {<<<<"", "two">>>>, <<<<"xx", "new">>>>}})

Unit(k, s, t) == [id |-> ToString(k), source |-> s, target |-> t]
FilesOver(lang) ==
  UNION {{[bad |-> "", lang |-> lang, attrs |-> <<"yy", "o">>,
           units |-> [k \in 1..Len(q) |-> Unit(k, q[k], <<"t" \o ToString(k)>>)]]
          : q \in {q \in UNION {[1..n -> Texts] : n \in 0..2} : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}}}
AllFiles == SetToSeq(FilesOver("xx"))

ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> AllConfigs, files |-> AllFiles])

(* ------------------------------- behaviours ------------------------------- *)
(* What the tool writes, and what a translator makes of it.                   *)
Out(f, pairs) ==
  LET old == SelectSeq(f.units, LAMBDA u : TRUE)
      new == SetToSeq(pairs)
  IN [f EXCEPT !.units = old \o [k \in 1..Len(new) |-> Unit(100 + k, new[k].source, new[k].target)]]
Empty == [bad |-> "", lang |-> "xx", attrs |-> <<"yy", "o">>, units |-> <<>>]
Filled(f) == [f EXCEPT !.units = [i \in Idx(f.units) |->
                [f.units[i] EXCEPT !.target = IF @ = <<>> THEN <<"t of " \o f.units[i].source>> ELSE @]]]

VARIABLE joined        \* has a join put the file into the configuration?
mvars == <<cur, file, joined>>

MInit == cur \in 1..Len(Configs) /\ file = <<>> /\ joined = FALSE

MNext ==
  \/ \E copy \in {0, 1} :
       /\ Extract(copy, 0, Out(Empty, Fresh(Configs[cur], Empty, copy)))
       /\ joined' = FALSE
  \/ /\ file # <<>> /\ file[1] # Filled(file[1])
     /\ Translate(Filled(file[1]))
     /\ joined' = FALSE
  \/ \E to \in 1..Len(Configs) : Edit(to) /\ joined' = FALSE
  \/ \E copy \in {0, 1} :
       /\ file # <<>> /\ Usable(file[1])
       /\ Update(copy, 0, 1, Out(file[1], Fresh(Configs[cur], file[1], copy)))
       /\ joined' = FALSE
MSpec == MInit /\ [][MNext]_mvars

(* Files stay in order, and what was translated is never lost by the tool.    *)
FileOK == file # <<>> => Sound(file[1])
Kept == [][\A copy \in {0, 1} :
             (file # <<>> /\ file' # <<>> /\ cur' = cur /\ Srcs(file[1]) # {} /\ Usable(file[1])
              /\ Update(copy, 0, 1, file'[1])) => Pairs(file[1]) \subseteq Pairs(file'[1])]_mvars

(* Laws of joining, for all configurations and files at hand.                 *)
Laws ==
  file # <<>> =>
  LET c == Configs[cur] f == file[1] g == [f EXCEPT !.lang = "zz"] IN
  \A copy \in {0, 1} :
    LET j == JoinCfg(c, f, copy) IN
    \* the second time changes nothing; languages do not meet; defaults stay
    /\ JoinCfg(j, f, copy) = j
    /\ Meaning(JoinCfg(j, g, copy)) = Meaning(JoinCfg(JoinCfg(c, g, copy), f, copy))
    /\ Sources(j) = Sources(c)
    \* with all translated or copied, no label lacks the language
    /\ (copy = 1 \/ Sources(c) \subseteq Srcs(f)) /\ Usable(f) =>
         /\ \A ls \in Labelled(j) : DefaultOf(ls) # {} => LangOf(ls, f.lang) # {}
         /\ Untranslated(j, f) = {}
    \* what has the language keeps what it has
    /\ \A ls \in Labelled(c) : LangOf(ls, f.lang) # {} => ls \in Labelled(j)
    \* an updated and completed file translates everything
    /\ LET u == Filled(Out(f, Fresh(c, f, copy))) IN Untranslated(c, u) = {} /\ Fresh(c, u, copy) = {}
==============================================================================
