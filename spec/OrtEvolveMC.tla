----------------------------- MODULE OrtEvolveMC -----------------------------
(* All configurations around one field, all migrations between them.          *)
(*                                                                           *)
(* The variants are written to the file named by VARIANTS, so that the same   *)
(* pairs are run through ort-diff and ort-sqldiff and judged by               *)
(* OrtEvolveTrace.                                                           *)
EXTENDS OrtEvolve, SequencesExt, Json, IOUtils

Item(n, v) == [name |-> n, num |-> v, doc |-> <<>>, labels |-> <<>>]
En(n, a, b) == [name |-> n, doc |-> <<>>, isnull |-> <<>>, items |-> <<Item("ia", a), Item("ib", b)>>]
I64(k) == I64AddN(I64Zero, k)
Field(n, t) == [name |-> n, type |-> t, aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0,
                noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
                limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
St(n, fs, us) == [name |-> n, fields |-> fs, insert |-> 1, queries |-> <<>>, updates |-> <<>>,
                  deletes |-> <<>>, uniques |-> us, grants |-> <<>>, doc |-> <<>>]

(* The field that varies.                                                     *)
Flagged(f) == {[f EXCEPT !.null = n, !.unique = u] : n \in {0, 1}, u \in {0, 1}}
Defaulted(f, d, v) == {f, [f EXCEPT !.default = <<d>>, !.defv = v]}
Acted(f) == {[f EXCEPT !.actdel = x, !.actup = y] : x \in {"none", "cascade"}, y \in {"none", "restrict"}}
Variants ==
  LET int == [Field("var", "int") EXCEPT !.type = "int"]
      txt == Field("var", "text")
      enm(n) == [Field("var", "enum") EXCEPT !.aux = n]
      ints == Defaulted(int, "7", <<I64(7)>>)
      refs == UNION {Acted([f EXCEPT !.ref = <<<<"tgt", k>>>>]) : f \in {int}, k \in {"id", "alt"}}
      txts == Defaulted(txt, "seven", <<<<"t", <<115, 101, 118, 101, 110>>>>>>)
      enms == UNION {Defaulted(enm(n), "ib", <<>>) : n \in {"ea", "eb"}}
  IN UNION {Flagged(f) : f \in ints \cup refs \cup txts \cup enms}

Rest == <<En("ea", <<>>, <<>>), En("eb", <<I64(4)>>, <<>>)>>
Tgt == St("tgt", <<Id, [Field("alt", "int") EXCEPT !.unique = 1]>>, <<>>)
Cfg(sts) == [hasroles |-> 0, roles |-> <<>>, enums |-> Rest, bits |-> <<>>, structs |-> sts]
Main(fs) ==
  LET other == Field("oth", "int")
      us == IF Len(fs) = 0 THEN {<<>>} ELSE {<<>>, <<<<"oth", "var">>>>}
  IN {St("main", <<Id, other>> \o fs, u) : u \in us}

All == SetToSeq({Cfg(<<Tgt, m>>) : m \in UNION {Main(<<f>>) : f \in Variants} \cup Main(<<>>)}
                \cup {Cfg(<<Tgt>>)})
AllConfigs == All

ASSUME "VARIANTS" \in DOMAIN IOEnv => JsonSerialize(IOEnv.VARIANTS, All)

(* ------------------------------ behaviours -------------------------------- *)
Contents(c) ==
  [n \in StructNames(c) |->
     {<<I64(k), [m \in {f.name : f \in {f \in RangeOf(StructOf(c, n).fields) : Stored(f)}} |->
                   IF m = "id" THEN I64(k)
                   ELSE LET f == FieldOf(StructOf(c, n), m) IN
                        IF f.null = 1 THEN Null
                        ELSE IF f.type = "text" THEN <<"t", <<k>>>> ELSE I64(k)]>> : k \in {1, 2}}]

Init ==
  /\ cur \in 1..Len(Configs)
  /\ cat = Catalogue(Configs[cur])
  /\ rows \in {Contents(Configs[cur]), [n \in StructNames(Configs[cur]) |-> {}]}

Next ==
  \E to \in 1..Len(Configs), d \in {0, 1} :
    \/ Refuse(to, d, 1)
    \/ LET a == Configs[cur] b == Configs[to] IN
       /\ ~InTheWay(a, b)
       \* one step beyond a removal
       /\ DOMAIN cat = StructNames(a)
       /\ \A n \in StructNames(a) : cat[n] = Table(StructOf(a, n))
       /\ Migrate(to, d, 0, IF SameSchema(a, b) THEN 1 ELSE 0, "ok", NewCatalogue(a, b), NewRows(a, b))
Spec == Init /\ [][Next]_evars

(* A migration without removals gives the schema that ort-sql would.          *)
Reached ==
  \A n \in StructNames(Configs[cur]) :
     Table(StructOf(Configs[cur], n)) = cat[n] \/ \E m \in cat[n].cols : m \notin Table(StructOf(Configs[cur], n)).cols
NeverLost == [][NothingLost]_evars
(* Migrations that need no removal are reversible only through -d.           *)
Complete ==
  \A to \in 1..Len(Configs) :
    LET a == Configs[cur] b == Configs[to] IN
    /\ Antisymmetric(a, b)
    /\ Sound(a, b)
    /\ Diff(a, b) = {} => SameSchema(a, b) /\ ~Incompatible(a, b, 0)
    /\ Incompatible(a, b, 1) => Incompatible(a, b, 0)
==============================================================================
