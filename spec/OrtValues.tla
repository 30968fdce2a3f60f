------------------------------ MODULE OrtValues ------------------------------
(* Values stored by, passed to and returned from the generated data layer.   *)
(*                                                                           *)
(*   <<"null">>            absent value                                      *)
(*   <<"i", a, b, c>>      64-bit integer v as v + 2^63 in three limbs of    *)
(*                         20, 22 and 22 bits (TLC integers have 32 bits)    *)
(*   <<"r", k>>            real number k/64                                  *)
(*   <<"t", s>>            text, as a sequence of code points                *)
(*   <<"b", s>>            blob, as a sequence of bytes                      *)
(*   <<"hash", salt, s>>   the salted hash of clear text s                   *)
(*   <<"-">>               the place of a struct field in a stored row       *)
(*   <<"o", vs>>           an object: one value per field of its struct      *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

Null == <<"null">>
IsNull(v) == v[1] = "null"
NoCol == <<"-">>

Limb == 4194304            \* 2^22
TopBit == 524288           \* 2^19: the sign bit within the first limb
TopLimb == 1048576         \* 2^20

I64Zero == <<"i", TopBit, 0, 0>>
I64One == <<"i", TopBit, 0, 1>>

(* (x + y) mod 2^64 and (x - y) mod 2^64 in the offset representation.       *)
I64Add(x, y) ==
  LET c == x[4] + y[4]
      b == x[3] + y[3] + (c \div Limb)
      a == x[2] + y[2] + (b \div Limb) - TopBit
  IN <<"i", a % TopLimb, b % Limb, c % Limb>>
I64Sub(x, y) ==
  LET c == x[4] - y[4]
      b == x[3] - y[3] + (IF c < 0 THEN -1 ELSE 0)
      a == x[2] - y[2] + (IF b < 0 THEN -1 ELSE 0) + TopBit
  IN <<"i", a % TopLimb, b % Limb, c % Limb>>

Raw(x) == <<x[2] ^^ TopBit, x[3], x[4]>>
I64AndNZ(x, y) == \E i \in 1..3 : (Raw(x)[i] & Raw(y)[i]) # 0
I64OrNZ(x, y) == \E i \in 1..3 : (Raw(x)[i] | Raw(y)[i]) # 0

RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexCmp(a, b, i + 1)

(* Order of two non-null values of the same type.                            *)
Cmp(a, b) ==
  CASE a[1] # b[1] -> 1
    [] a[1] = "i" -> LexCmp(Tail(a), Tail(b), 1)
    [] a[1] = "r" -> IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
    [] a[1] \in {"t", "b"} -> LexCmp(a[2], b[2], 1)
    [] OTHER -> IF a = b THEN 0 ELSE 1

(* SQL ordering: null is smaller than everything.                            *)
OrdCmp(a, b) ==
  CASE IsNull(a) /\ IsNull(b) -> 0
    [] IsNull(a) -> -1
    [] IsNull(b) -> 1
    [] OTHER -> Cmp(a, b)

Fold(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
(* SQL LIKE: % any sequence, _ any one character, ASCII case ignored.        *)
RECURSIVE Like(_, _)
Like(p, t) ==
  IF p = <<>> THEN t = <<>>
  ELSE IF p[1] = 37 THEN \E i \in 0..Len(t) : Like(Tail(p), SubSeq(t, i + 1, Len(t)))
  ELSE t # <<>> /\ (p[1] = 95 \/ Fold(p[1]) = Fold(t[1])) /\ Like(Tail(p), Tail(t))

(* A hash whose salt the specification does not know.                        *)
HashOf(clear) == <<"hash", <<-1>>, clear>>
Unknown(v) == v[1] = "hash" /\ v[2] = <<-1>>

(* Does the observed value fit the specified one?                            *)
Fits(spec, got) ==
  IF Unknown(spec) THEN got[1] = "hash" /\ got[3] = spec[3] ELSE spec = got

(* A condition on a column holding "stored", with parameter "arg".           *)
CondHolds(type, op, stored, arg) ==
  CASE op = "isnull" -> IsNull(stored)
    [] op = "notnull" -> ~IsNull(stored)
    [] IsNull(stored) \/ IsNull(arg) -> FALSE
    [] type = "password" /\ op = "eq" -> stored[1] = "hash" /\ stored[3] = arg[2]
    [] type = "password" /\ op = "neq" -> ~(stored[1] = "hash" /\ stored[3] = arg[2])
    [] op \in {"eq", "streq"} -> Cmp(stored, arg) = 0
    [] op \in {"neq", "strneq"} -> Cmp(stored, arg) # 0
    [] op = "lt" -> Cmp(stored, arg) < 0
    [] op = "gt" -> Cmp(stored, arg) > 0
    [] op = "le" -> Cmp(stored, arg) <= 0
    [] op = "ge" -> Cmp(stored, arg) >= 0
    [] op = "like" -> Like(arg[2], stored[2])
    [] op = "and" -> I64AndNZ(stored, arg)
    [] op = "or" -> I64OrNZ(stored, arg)

Unary(op) == op \in {"isnull", "notnull"}

(* The value of a column after an update modifier.                           *)
Modified(type, mod, old, arg) ==
  CASE mod = "set" /\ type = "password" -> IF IsNull(arg) THEN Null ELSE HashOf(arg[2])
    [] mod \in {"set", "strset"} -> arg
    [] mod \in {"inc", "dec", "concat"} /\ IsNull(arg) -> Null
    [] mod = "concat" /\ IsNull(old) -> arg
    [] mod = "concat" -> <<old[1], old[2] \o arg[2]>>
    [] IsNull(old) -> Null
    [] mod = "inc" /\ type = "real" -> <<"r", old[2] + arg[2]>>
    [] mod = "dec" /\ type = "real" -> <<"r", old[2] - arg[2]>>
    [] mod = "inc" -> I64Add(old, arg)
    [] mod = "dec" -> I64Sub(old, arg)
=============================================================================
