------------------------------ MODULE OrtValidMC ------------------------------
(* One field of every type with limits from a small set, and all short input  *)
(* over small alphabets (all dates of some years).  The fields and the input  *)
(* are written down, so that all of it is also given to generated validators. *)
EXTENDS OrtValid, SequencesExt, Json, IOUtils

Id == [name |-> "id", type |-> "int", aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0,
       noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
       limits |-> <<>>, limb |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
Spell(n) == IF n = 0 THEN <<48>> ELSE IF n < 0 THEN <<45>> \o Show(-n) ELSE Show(n)
Field(t, ls) ==
  [Id EXCEPT !.name = "f", !.type = t, !.aux = IF t = "enum" THEN "e" ELSE IF t = "bits" THEN "b" ELSE "",
             !.limits = [i \in Idx(ls) |-> <<ls[i][1], ToString(ls[i][2])>>],
             !.limb = [i \in Idx(ls) |-> <<ls[i][1], Spell(ls[i][2])>>]]
Item(n, v) == [name |-> n, num |-> <<v>>, doc |-> <<>>, labels |-> <<>>]
En == [name |-> "e", doc |-> <<>>, isnull |-> <<>>,
       items |-> <<Item("a", I64Zero), Item("b", DecI64(ToDec(<<50>>))), Item("c", DecI64(ToDec(<<45, 49>>)))>>]
Bi == [name |-> "b", doc |-> <<>>, isnull |-> <<>>, isunset |-> <<>>,
       items |-> <<[name |-> "a", bit |-> 0, doc |-> <<>>, labels |-> <<>>]>>]
Cfg(t, ls) ==
  [hasroles |-> 0, roles |-> <<>>, enums |-> IF t = "enum" THEN <<En>> ELSE <<>>,
   bits |-> IF t = "bits" THEN <<Bi>> ELSE <<>>,
   structs |-> <<[name |-> "s", fields |-> <<Field(t, ls)>>, insert |-> 0, queries |-> <<>>,
                  updates |-> <<>>, deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]>>]

Ops == {"ge", "le", "gt", "lt", "eq"}
Days == 86400
Bounds(t) == CASE t \in {"enum", "bits"} -> {}
               [] t = "date" -> {0, -Days, 951782400}
               [] t \in {"text", "email", "password", "blob"} -> {0, 2, 6}
               [] t = "bit" -> {0, 2}
               [] OTHER -> {-1, 0, 2}
Types == {"bit", "bits", "date", "epoch", "int", "real", "enum", "text", "email", "password", "blob"}
LimitSets(t) ==
  {<<>>} \cup {<<<<op, b>>>> : op \in Ops, b \in Bounds(t)}
  \cup {<<<<"gt", b>>, <<"le", d>>>> : b \in Bounds(t), d \in Bounds(t)}
AllFields == SetToSeq(UNION {{Cfg(t, ls) : ls \in LimitSets(t)} : t \in Types})
AllConfigs == AllFields   \* (TLC keeps the value of the former only)

(* ---------------------------------- input --------------------------------- *)
Over(S, n) == UNION {[1..k -> S] : k \in 0..n}
Two(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
Dates == {Two(y \div 100) \o Two(y % 100) \o <<45>> \o Two(m) \o <<45>> \o Two(d) :
            y \in {0, 1900, 1970, 2000, 2019, 2020, 9999}, m \in {0, 1, 2, 3, 4, 11, 12, 13}, d \in {0, 1, 2, 27, 28, 29, 30, 31, 32}}
Chars(S, n) == {FlattenSeq(q) : q \in Over(S, n)}
Input(t) ==
  CASE t \in {"int", "epoch", "bit", "bits", "enum"} -> Over({32, 45, 48, 49, 50}, 4)
    [] t = "real" -> Over({45, 46, 48, 50}, 5)
    [] t = "date" -> Dates
    [] t = "email" -> Over({97, 64, 46}, 7)
    [] OTHER -> Chars({<<97>>, <<195, 169>>, <<32>>, <<240, 159, 152, 128>>}, 4)

Inputs == [t \in Types |-> Input(t)]

ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> AllConfigs, input |-> [t \in Types |-> SetToSeq(Input(t))]])

(* ----------------------------------- laws --------------------------------- *)
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
ASSUME \A a, b \in -120..120 : Sign(DecCmp(ToDec(Spell(a)), ToDec(Spell(b)))) = Sign(a - b)
ASSUME \A a \in -1200..1200 : I64Sub(DecI64(ToDec(Spell(a + 1))), DecI64(ToDec(Spell(a)))) = I64One
ASSUME DecI64(MaxInt) = <<"i", TopLimb - 1, Limb - 1, Limb - 1>> /\ DecI64(MinInt) = <<"i", 0, 0, 0>>
ASSUME DecI64(MaxUint) = I64Sub(I64Zero, I64One)
(* Every day follows the one before.                                          *)
Date(y, m, d) == Two(y \div 100) \o Two(y % 100) \o <<45>> \o Two(m) \o <<45>> \o Two(d)
Second(s) == DecI64(DateValue(s))
OneDay == DecI64(ToDec(Spell(Days)))
ASSUME Second(Date(1970, 1, 1)) = I64Zero
ASSUME \A y \in {0, 1, 4, 100, 399, 400, 1899, 1900, 1969, 1970, 2000, 2023, 2024, 9998}, m \in 1..12 :
         \A d \in 1..DaysIn(y, m) :
           LET next == IF d < DaysIn(y, m) THEN Date(y, m, d + 1)
                       ELSE IF m < 12 THEN Date(y, m + 1, 1) ELSE Date(y + 1, 1, 1)
           IN I64Sub(Second(next), Second(Date(y, m, d))) = OneDay
(* Input that nobody may refuse is understood; limits are what they say.      *)
Fd(t) == Field(t, <<>>)
ASSUME \A t \in Types : \A s \in Input(t) :
         /\ Plain(Fd(t), s) => Odd(Fd(t), s) /\ Known(Fd(t), s)
         /\ Known(Fd(t), s) /\ Odd(Fd(t), s) /\ t \notin {"text", "email", "password", "blob"} =>
              LET v == ValueOf(Fd(t), s) IN
              \A b \in Bounds(t) : LET h(op) == LimitHolds(Fd(t), op, Spell(b), v) IN
                /\ h("ge") = ~h("lt") /\ h("le") = ~h("gt") /\ h("eq") = (h("ge") /\ h("le"))

(* -------------------------------- behaviours ------------------------------ *)
VARIABLE last                    \* what was given, and whether it was accepted
mvars == <<cur, taken, last>>
MInit == VInit /\ last = <<>>
F(c) == Configs[c].structs[1].fields[1]
MNext ==
  \E in \in Inputs[F(cur).type] :
    \/ /\ Known(F(cur), in)
       /\ Accept("s", "f", in, ValueOf(F(cur), in))
       /\ last' = <<in, TRUE>>
    \/ /\ Reject("s", "f", in)
       /\ last' = <<in, FALSE>>
(* Nothing is given twice: what follows does not depend on it.                *)
MSpec == MInit /\ [][last = <<>> /\ MNext]_mvars

(* Plain input has one answer.                                                *)
Decided ==
  last # <<>> /\ Plain(F(cur), last[1])
    => last[2] = MayBe(Configs[cur], F(cur), ValueOf(F(cur), last[1]))
=============================================================================
