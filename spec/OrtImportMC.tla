------------------------------ MODULE OrtImportMC -----------------------------
(* One field of every type, nullable or not, and all short values over small  *)
(* alphabets; a structure that refers to another, and all objects and short   *)
(* arrays of few values.  All of it is written down and also given to         *)
(* generated importers.                                                       *)
EXTENDS OrtImport, SequencesExt, Json, IOUtils

Id == [name |-> "f", nameb |-> <<102>>, type |-> "int", aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0,
       noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
       limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
Field(t, n) == [Id EXCEPT !.type = t, !.null = n, !.aux = IF t = "enum" THEN "e" ELSE IF t = "bits" THEN "b" ELSE ""]
Named(n, b, f) == [f EXCEPT !.name = n, !.nameb = b]
Strct(n, fs) ==
  [name |-> n, fields |-> fs, insert |-> 0, queries |-> <<>>,
   updates |-> <<>>, deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Item(n, v) == [name |-> n, num |-> <<v>>, doc |-> <<>>, labels |-> <<>>]
En == [name |-> "e", doc |-> <<>>, isnull |-> <<>>,
       items |-> <<Item("a", I64Zero), Item("b", DecI64(ToDec(<<50>>))), Item("c", DecI64(ToDec(<<45, 49>>)))>>]
Bi == [name |-> "b", doc |-> <<>>, isnull |-> <<>>, isunset |-> <<>>,
       items |-> <<[name |-> "a", bit |-> 0, doc |-> <<>>, labels |-> <<>>]>>]
Base == [hasroles |-> 0, roles |-> <<>>, enums |-> <<>>, bits |-> <<>>]
One(t, n) == [hasroles |-> 0, roles |-> <<>>, enums |-> IF t = "enum" THEN <<En>> ELSE <<>>,
              bits |-> IF t = "bits" THEN <<Bi>> ELSE <<>>, structs |-> <<Strct("s", <<Field(t, n)>>)>>]

(* s refers to t by r, the object is q; x is text, h is not exported.         *)
Two(n) ==
  [hasroles |-> 0, roles |-> <<>>, enums |-> <<>>, bits |-> <<>>,
   structs |-> <<
     Strct("s", <<[Named("r", <<114>>, Field("int", n)) EXCEPT !.ref = <<<<"t", "id">>>>],
                  [Named("q", <<113>>, Field("struct", 0)) EXCEPT !.src = "r"],
                  Named("x", <<120>>, Field("text", 1)),
                  [Named("h", <<104>>, Field("int", 0)) EXCEPT !.noexport = 1]>>),
     Strct("t", <<[Named("id", <<105, 100>>, Field("int", 0)) EXCEPT !.rowid = 1],
                  Named("z", <<122>>, Field("text", 0)),
                  Named("b", <<98>>, Field("blob", 1))>>)>>]

Types == {"bit", "bits", "date", "epoch", "int", "real", "enum", "text", "email", "password", "blob"}
All == SetToSeq({One(t, n) : t \in Types, n \in {0, 1}}) \o <<Two(0), Two(1)>>
AllConfigs == All

(* ---------------------------------- values -------------------------------- *)
Over(S, n) == UNION {[1..k -> S] : k \in 0..n}
Over1(S, n) == Over(S, n) \ {<<>>}
Num_(s) == <<"num", s>>
Str_(s) == <<"str", s>>
NullV == <<"null">>
Others == {NullV, <<"true">>, <<"false">>, <<"arr", <<>>>>, <<"arr", <<Num_(<<49>>)>>>>, <<"obj", <<>>>>,
           <<"obj", <<<<<<102>>, Num_(<<49>>)>>>>>>, Num_(<<55>>), Str_(<<55>>), Str_(<<>>), Str_(<<97>>)}
Units == {<<97>>, <<195, 169>>, <<92, 34>>, <<92, 92>>, <<92, 47>>, <<92, 110>>, <<92, 117, 48, 48, 48, 48>>,
          <<92, 117, 48, 48, 101, 57>>, <<92, 117, 100, 56, 51, 100>>, <<92, 117, 68, 69, 48, 48>>, <<92, 117, 55, 100, 52, 50>>}
Spellings(t) ==
  CASE t = "real" -> Over1({45, 46, 48, 53, 101}, 4)
    [] OTHER -> Over1({45, 46, 48, 49, 57, 101}, 3)
        \cup {<<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
              <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,57>>,
              <<54,51>>, <<54,52>>, <<48,49,50>>}
Values(t) ==
  Others \cup
  CASE t \in {"text", "email", "password"} -> {Str_(FlattenSeq(q)) : q \in Over(Units, 3)}
    [] t = "blob" -> {Str_(q) : q \in Over({65, 81, 119, 61}, 4)} \cup {Str_(<<81,85,74,68>> \o q) : q \in Over({65, 119, 61}, 4)}
    [] OTHER -> {Num_(s) : s \in Spellings(t)} \cup {Str_(s) : s \in Spellings(t)}
F(c) == Configs[c].structs[1].fields[1]
Object1(v) == <<"obj", <<<<<<102>>, v>>>>>>

(* Objects with at most one member of each key, in every order.               *)
Members_(ks) == UNION {{<<k[1], v>> : v \in k[2]} : k \in ks}
ObjectsOf(ks, n) ==
  {<<"obj", ms>> : ms \in {q \in Over(Members_(ks), n) : \A i, j \in Idx(q) : q[i][1] = q[j][1] => i = j}}
IdKey == <<<<105, 100>>, {Num_(<<49>>), Num_(<<45>>)}>>
Inner == ObjectsOf({IdKey, <<<<122>>, {Str_(<<97>>), NullV}>>, <<<<98>>, {Str_(<<81, 81, 61, 61>>), NullV}>>}, 2)
Outer == ObjectsOf({<<<<114>>, {Num_(<<50>>), NullV}>>,
                    <<<<113>>, Inner \cup {NullV}>>,
                    <<<<120>>, {Str_(<<98>>), NullV, Num_(<<51>>)}>>,
                    <<<<104>>, {Num_(<<52>>)}>>}, 2)
Good == {v \in Outer : MustObj(Two(1), Two(1).structs[1], v)}
Few == {v \in Outer : Len(v[2]) <= 1 /\ \A i \in Idx(v[2]) : v[2][i][1] # <<113>> \/ v[2][i][2] \in {NullV, <<"obj", <<>>>>}}
Arrays == {<<"arr", q>> : q \in Over(Few, 2)}
(* The same thing twice.                                                      *)
Doubles == {<<"obj", <<a, b>>>> : a, b \in {<<<<120>>, Str_(<<98>>)>>, <<<<120>>, NullV>>, <<<<113>>, <<"obj", <<>>>>>>,
                                            <<<<113>>, <<"obj", <<<<<<122>>, Str_(<<97>>)>>>>>>>>}}

Docs == [i \in Idx(All) |->
  IF Len(All[i].structs) = 1 THEN {Object1(v) : v \in Values(All[i].structs[1].fields[1].type)}
  ELSE Outer \cup Doubles \cup Others]

ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> All, docs |-> [i \in Idx(All) |-> SetToSeq(Docs[i])], arrays |-> SetToSeq(Arrays)])

(* ----------------------------------- laws --------------------------------- *)
Spell(d) ==
  (IF d.neg THEN <<45>> ELSE <<>>) \o (IF d.int = <<>> THEN <<48>> ELSE d.int)
    \o (IF d.frac = <<>> THEN <<>> ELSE <<46>> \o d.frac)
Decs == {ToDec(s) : s \in {s \in Over1({45, 46, 48, 53}, 4) : IsDec(s)}}
ASSUME \A d \in Decs : JsonNumber(Spell(d)) /\ JsonDec(Spell(d)) = d
(* Moving the point and back.                                                 *)
ASSUME \A d \in Decs : d.int # <<>> /\ d.frac = <<>> =>
         JsonDec(Spell(d) \o <<101, 50>>) = ToDec(Spell(d) \o <<48, 48>>)
ASSUME \A d \in Decs : JsonDec(Spell(JsonDec(Spell(d) \o <<101, 51>>)) \o <<101, 45, 51>>) = d
ASSUME Decode(<<92, 117, 100, 56, 51, 100, 92, 117, 68, 69, 48, 48>>) = <<240, 159, 152, 128>>
ASSUME Utf8(32456) = <<231, 187, 136>> /\ Utf8(233) = <<195, 169>>
(* Base64 is the inverse of the usual way to write it.                        *)
Alphabet == [n \in 0..63 |-> CASE n < 26 -> n + 65 [] n < 52 -> n + 71 [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47]
To64(s) ==
  LET g(k) == IF k > Len(s) THEN 0 ELSE s[k]
      four == <<Alphabet[g(1) \div 4], Alphabet[((g(1) % 4) * 16) + (g(2) \div 16)],
                IF Len(s) < 2 THEN 61 ELSE Alphabet[((g(2) % 16) * 4) + (g(3) \div 64)],
                IF Len(s) < 3 THEN 61 ELSE Alphabet[g(3) % 64]>>
  IN IF s = <<>> THEN <<>> ELSE four
ASSUME \A s \in Over({0, 1, 63, 128, 255}, 3) : IsB64(To64(s)) /\ Canonical64(To64(s)) /\ From64(To64(s)) = s

(* Objects are written so that they are read.                                 *)
RECURSIVE Write(_, _, _)
WriteField(c, st, f, x) ==
  CASE x = Null -> NullV
    [] f.type = "struct" -> Write(c, ObjectOf(c, st, f), x)
    [] f.type = "real" -> Num_(Spell(x[2]))
    [] TextLike(f.type) -> Str_(FlattenSeq([i \in Idx(x[2]) |->
         IF x[2][i] < 32 THEN <<92, 117, 48, 48, 48 + (x[2][i] \div 16), Alphabet[(x[2][i] % 16) + 52]>>
         ELSE IF x[2][i] \in {34, 92} THEN <<92, x[2][i]>> ELSE <<x[2][i]>>]))
    [] f.type = "blob" -> Str_(To64(x[2]))
    [] OTHER -> Num_(x[2])
Write(c, st, o) ==
  LET is == SelectSeq([i \in Idx(st.fields) |-> i],
                      LAMBDA i : st.fields[i].noexport = 0 /\ st.fields[i].type # "password") IN
  <<"obj", [k \in Idx(is) |-> <<st.fields[is[k]].nameb, WriteField(c, st, st.fields[is[k]], o[2][is[k]])>>]>>
Samples(c, st, f) ==
  CASE f.type \in {"text", "email", "password"} -> {<<"t", s>> : s \in Over({1, 34, 92, 97}, 2)}
    [] f.type = "blob" -> {<<"b", s>> : s \in Over({0, 7, 255}, 3)}
    [] OTHER -> {}
ASSUME \A t \in {"text", "email", "blob"} : LET c == One(t, 0) st == c.structs[1] IN
  \A x \in Samples(c, st, st.fields[1]) :
    LET v == Write(c, st, <<"o", <<x>>>>) IN MustObj(c, st, v) /\ FitsObj(c, st, v, Exported(c, st, <<"o", <<x>>>>))
ASSUME LET c == One("password", 0) st == c.structs[1] o == <<"o", <<<<"t", <<97>>>>>>>> IN
  FitsObj(c, st, Write(c, st, o), Exported(c, st, o))

(* -------------------------------- behaviours ------------------------------ *)
(* What is read of a document, where that is one thing.                       *)
RECURSIVE Reading(_, _, _)
ReadField(c, st, f, v) ==
  CASE v[1] = "null" -> Null
    [] f.type = "struct" -> Reading(c, ObjectOf(c, st, f), v)
    [] IntLike(f.type) -> DecI64(JsonDec(Spelled(v)))
    [] f.type = "real" -> <<"d", JsonDec(Spelled(v))>>
    [] TextLike(f.type) -> <<"t", Decode(v[2])>>
    [] OTHER -> <<"b", From64(NoSpace(Decode(v[2])))>>
Reading(c, st, v) ==
  <<"o", [i \in Idx(st.fields) |->
    LET at == {j \in Idx(Members(v)) : i \in FieldKeyed(st, Key(Members(v)[j]))} IN
    IF at = {} THEN ZeroField(c, st, st.fields[i])
    ELSE ReadField(c, st, st.fields[i], Members(v)[CHOOSE j \in at : TRUE][2])]>>

VARIABLE given
mvars == <<cur, read, given>>
MInit == IInit /\ given = <<>>
MNext ==
  \E v \in Docs[cur] :
    /\ given' = v
    /\ \/ MustObj(C, C.structs[1], v) /\ Import("s", v, Reading(C, C.structs[1], v))
       \/ Refuse("s", v)
MSpec == MInit /\ [][given = <<>> /\ MNext]_mvars

(* A document that is read takes its tokens, one at least for each member;    *)
(* what nobody may refuse is not refused.                                     *)
Consistent ==
  given # <<>> =>
    /\ read[1] # 0 => read[1] = Tokens(given) /\ read[1] >= 1 + (2 * Len(given[2]))
    /\ MustObj(C, C.structs[1], given) <=> read[1] # 0
=============================================================================
