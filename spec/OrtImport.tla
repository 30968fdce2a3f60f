------------------------------- MODULE OrtImport ------------------------------
(* Objects read by generated C from JSON documents, and written as them.      *)
(*                                                                           *)
(* A JSON value is one of                                                     *)
(*   <<"null">>, <<"true">>, <<"false">>                                      *)
(*   <<"num", s>>      a number as it is spelled (bytes)                      *)
(*   <<"str", s>>      the bytes between the quotes of a string               *)
(*   <<"arr", vs>>     an array                                               *)
(*   <<"obj", ms>>     an object: pairs of a key (as it is spelled) and value *)
(* and an object of a structure is <<"o", vs>>, with one value per field:     *)
(*   <<"null">>        absent (nullable fields only)                          *)
(*   <<"i", ...>>      an integer of any kind (OrtValues)                     *)
(*   <<"d", x>>        a real number: the shortest decimal it is read from    *)
(*   <<"t", s>>        text, <<"b", s>> a blob: bytes                         *)
(*   <<"none">>        no text or blob at all                                 *)
(*   <<"o", vs>>       the object of a field of type struct                   *)
EXTENDS OrtDecimal

(* ------------------------------ numbers of JSON --------------------------- *)
LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Zeros(n) == [i \in 1..n |-> 48]
ExpAt(s) == {i \in Idx(s) : s[i] \in {69, 101}}
Mantissa(s) == IF ExpAt(s) = {} THEN s ELSE SubSeq(s, 1, LastOf(ExpAt(s)) - 1)
Exponent(s) == IF ExpAt(s) = {} THEN <<>> ELSE SubSeq(s, LastOf(ExpAt(s)) + 1, Len(s))
(* [-] digits [. digits] [e [sign] digits], without redundant zeros before.   *)
JsonNumber(s) ==
  LET m == Mantissa(s) e == Exponent(s)
      u == IF Negative(m) THEN Tail(m) ELSE m
      d == DotAt(u)
      int == IF d = {} THEN u ELSE SubSeq(u, 1, LastOf(d) - 1)
  IN /\ Cardinality(ExpAt(s)) <= 1 /\ Cardinality(d) <= 1
     /\ Digits(int) /\ (int[1] = 48 => Len(int) = 1)
     /\ d # {} => Digits(SubSeq(u, LastOf(d) + 1, Len(u)))
     /\ ExpAt(s) # {} => Digits(Unsign(e))
(* So much may be read as a number by those who are not strict.               *)
Loose(s) ==
  /\ IsDec(Mantissa(s)) /\ Cardinality(ExpAt(s)) <= 1
  /\ ExpAt(s) # {} => Digits(Unsign(Exponent(s))) /\ Len(Exponent(s)) <= 4
(* Exponents of more than three digits are beyond what is of interest.        *)
Meant(s) == JsonNumber(s) /\ Len(Exponent(s)) <= 4
(* The number meant: the point moves by the exponent.                         *)
JsonDec(s) ==
  LET m == ToDec(Mantissa(s)) e == Exponent(s) n == IF e = <<>> THEN 0 ELSE Num(Unsign(e)) IN
  IF n = 0 THEN m
  ELSE IF Negative(e)
       THEN LET a == Zeros(n) \o m.int IN
            Dec(m.neg, SubSeq(a, 1, Len(a) - n), SubSeq(a, Len(a) - n + 1, Len(a)) \o m.frac)
       ELSE LET b == m.frac \o Zeros(n) IN
            Dec(m.neg, m.int \o SubSeq(b, 1, n), SubSeq(b, n + 1, Len(b)))
Beyond(d) == Len(d.int) > 308     \* what no double is left open
Whole(d) == d.frac = <<>> /\ DecCmp(d, MaxInt) <= 0 /\ DecCmp(MinInt, d) <= 0

(* ------------------------------ strings of JSON --------------------------- *)
Hex(b) == IF Digit(b) THEN b - 48 ELSE IF Upper(b) THEN b - 55 ELSE b - 87
HexAt(s, i) == (4096 * Hex(s[i])) + (256 * Hex(s[i + 1])) + (16 * Hex(s[i + 2])) + Hex(s[i + 3])
EscapeOf(b) == CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> b
Surrogate(n) == n \in 55296..57343
Utf8(n) ==
  CASE n < 128 -> <<n>>
    [] n < 2048 -> <<192 + (n \div 64), 128 + (n % 64)>>
    [] n < 65536 -> <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    [] OTHER -> <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
(* What a string says, in UTF-8; <<-1>> stands for what is no character.      *)
RECURSIVE Said(_, _)
Said(s, i) ==
  CASE i > Len(s) -> <<>>
    [] s[i] # 92 -> <<s[i]>> \o Said(s, i + 1)
    [] s[i + 1] # 117 -> <<EscapeOf(s[i + 1])>> \o Said(s, i + 2)
    [] OTHER ->
         LET n == HexAt(s, i + 2) IN
         IF ~Surrogate(n) THEN Utf8(n) \o Said(s, i + 6)
         ELSE IF n < 56320 /\ i + 11 <= Len(s) /\ s[i + 6] = 92 /\ s[i + 7] = 117
                 /\ HexAt(s, i + 8) \in 56320..57343
              THEN Utf8(65536 + ((n - 55296) * 1024) + (HexAt(s, i + 8) - 56320)) \o Said(s, i + 12)
              ELSE <<-1>> \o Said(s, i + 6)
Decode(s) == Said(s, 1)
(* Text of C has no zero, and no text has half a surrogate pair.              *)
Sayable(b) == \A i \in Idx(b) : b[i] > 0

(* ---------------------------------- base64 -------------------------------- *)
B64(b) == CASE Upper(b) -> b - 65 [] Lower(b) -> b - 71 [] Digit(b) -> b + 4 [] b = 43 -> 62 [] b = 47 -> 63
            [] OTHER -> -1
Pads(s) == Cardinality({i \in Idx(s) : s[i] = 61})
IsB64(s) ==
  /\ Len(s) % 4 = 0 /\ Pads(s) <= 2
  /\ \A i \in Idx(s) : IF i > Len(s) - Pads(s) THEN s[i] = 61 ELSE B64(s[i]) >= 0
V64(b) == IF b = 61 THEN 0 ELSE B64(b)
RECURSIVE Groups64(_)
Groups64(s) ==
  IF s = <<>> THEN <<>>
  ELSE <<(V64(s[1]) * 4) + (V64(s[2]) \div 16), ((V64(s[2]) % 16) * 16) + (V64(s[3]) \div 4),
         ((V64(s[3]) % 4) * 64) + V64(s[4])>> \o Groups64(SubSeq(s, 5, Len(s)))
From64(s) == LET g == Groups64(s) IN SubSeq(g, 1, Len(g) - Pads(s))
(* The bits left over are zero.                                               *)
Canonical64(s) == LET g == Groups64(s) IN \A i \in Len(g) - Pads(s) + 1..Len(g) : g[i] = 0
NoSpace(s) == SelectSeq(s, LAMBDA b : ~Space(b))

(* --------------------------------- structures ----------------------------- *)
IntLike(t) == t \in {"int", "epoch", "date", "bit", "bits", "enum"}
TextLike(t) == t \in {"text", "email", "password"}
Optional(st, f) == IF f.type = "struct" THEN SrcOf(st, f).null = 1 ELSE f.null = 1
ObjectOf(c, st, f) == StructOf(c, SrcOf(st, f).ref[1][1])

RECURSIVE ZeroOf(_, _)
ZeroField(c, st, f) ==
  CASE Optional(st, f) -> Null
    [] f.type = "struct" -> ZeroOf(c, ObjectOf(c, st, f))
    [] IntLike(f.type) -> I64Zero
    [] f.type = "real" -> <<"d", Zero>>
    [] OTHER -> <<"none">>
ZeroOf(c, st) == <<"o", [i \in Idx(st.fields) |-> ZeroField(c, st, st.fields[i])]>>

(* ----------------------------- values of fields --------------------------- *)
Spelled(v) == IF v[1] = "str" THEN Decode(v[2]) ELSE v[2]
Scalar(v) == v[1] \in {"num", "str"}

RECURSIVE FitsObj(_, _, _, _), MustObj(_, _, _)
(* May value x of field f come of v?                                          *)
FitsField(c, st, f, v, x) ==
  CASE v[1] = "null" -> Optional(st, f) /\ x = Null
    [] f.type = "struct" -> FitsObj(c, ObjectOf(c, st, f), v, x)
    [] IntLike(f.type) ->
         /\ Scalar(v)
         /\ LET s == Spelled(v) IN
            Loose(s) /\ Whole(JsonDec(s)) /\ x = DecI64(JsonDec(s))
    [] f.type = "real" ->
         /\ Scalar(v)
         /\ LET s == Spelled(v) IN
            Loose(s) /\ (Beyond(JsonDec(s)) \/ x = <<"d", JsonDec(s)>>)
    [] TextLike(f.type) -> v[1] = "str" /\ Sayable(Decode(v[2])) /\ x = <<"t", Decode(v[2])>>
    [] OTHER ->
         /\ v[1] = "str"
         /\ LET s == NoSpace(Decode(v[2])) IN IsB64(s) /\ x = <<"b", From64(s)>>

(* The integers a field stands for, of those that fit.                        *)
Sensible(c, f, d) ==
  CASE f.type = "bit" -> ~d.neg /\ DecCmp(d, MaxBit) < 0
    [] f.type = "enum" -> \E i \in Idx(EnumOf(c, f.aux).items) : ItemValue(EnumOf(c, f.aux), i) = DecI64(d)
    [] OTHER -> TRUE
(* Is it wrong to refuse v for field f?                                       *)
MustField(c, st, f, v) ==
  CASE v[1] = "null" -> Optional(st, f)
    [] f.type = "struct" -> MustObj(c, ObjectOf(c, st, f), v)
    [] IntLike(f.type) ->
         Scalar(v) /\ LET s == v[2] IN
           /\ JsonNumber(s) /\ DotAt(s) = {} /\ ExpAt(s) = {} /\ Len(s) <= 20
           /\ s # <<45, 48>> /\ Whole(ToDec(s)) /\ Sensible(c, f, ToDec(s))
    [] f.type = "real" -> v[1] = "num" /\ Len(v[2]) <= 100 /\ Meant(v[2]) /\ ~Beyond(JsonDec(v[2]))
    [] TextLike(f.type) -> v[1] = "str" /\ Sayable(Decode(v[2]))
    [] OTHER -> v[1] = "str" /\ IsB64(v[2]) /\ Canonical64(v[2])

(* --------------------------------- objects -------------------------------- *)
Members(v) == v[2]
Key(m) == Decode(m[1])
FieldKeyed(st, k) == {i \in Idx(st.fields) : st.fields[i].nameb = k /\ st.fields[i].noexport = 0}
Distinct(v) == \A i, j \in Idx(Members(v)) : Key(Members(v)[i]) = Key(Members(v)[j]) => i = j
Plainly(v) == \A i \in Idx(Members(v)) : Key(Members(v)[i]) = Members(v)[i][1]
AllKnown(st, v) == \A i \in Idx(Members(v)) : FieldKeyed(st, Key(Members(v)[i])) # {}
(* Whatever members that say the same thing twice mean is left open.          *)
FitsObj(c, st, v, x) ==
  /\ v[1] = "obj" /\ AllKnown(st, v)
  /\ x[1] = "o" /\ Len(x[2]) = Len(st.fields)
  /\ Distinct(v) =>
       \A i \in Idx(st.fields) :
         LET f == st.fields[i]
             at == {j \in Idx(Members(v)) : i \in FieldKeyed(st, Key(Members(v)[j]))}
         IN IF at = {} THEN x[2][i] = ZeroField(c, st, f)
            ELSE \E j \in at : FitsField(c, st, f, Members(v)[j][2], x[2][i])
MustObj(c, st, v) ==
  /\ v[1] = "obj" /\ AllKnown(st, v) /\ Distinct(v) /\ Plainly(v)
  /\ \A j \in Idx(Members(v)) : \A i \in FieldKeyed(st, Key(Members(v)[j])) :
       MustField(c, st, st.fields[i], Members(v)[j][2])

RECURSIVE Tokens(_), TokensOf(_)
Tokens(v) ==
  CASE v[1] = "arr" -> 1 + TokensOf(v[2])
    [] v[1] = "obj" -> 1 + Len(v[2]) + TokensOf([i \in Idx(v[2]) |-> v[2][i][2]])
    [] OTHER -> 1
TokensOf(vs) == IF vs = <<>> THEN 0 ELSE Tokens(vs[1]) + TokensOf(Tail(vs))

(* ------------------------------- transitions ------------------------------ *)
CONSTANT Configs
VARIABLES cur, read              \* the configuration, what has been read
ivars == <<cur, read>>
C == Configs[cur]

IInit == cur \in Idx(Configs) /\ read = <<>>

(* jsmn_<s>: the number of tokens it took, and the object.                    *)
Import(s, v, o) ==
  /\ FitsObj(C, StructOf(C, s), v, o) = TRUE      \* (TLC takes it as a condition, not as alternatives)
  /\ read' = <<Tokens(v), o>>
  /\ UNCHANGED cur
(* Parse failure: zero tokens.                                                *)
Refuse(s, v) ==
  /\ ~MustObj(C, StructOf(C, s), v)
  /\ read' = <<0>>
  /\ UNCHANGED cur
(* jsmn_<s>_array.                                                            *)
ImportAll(s, v, os) ==
  /\ v[1] = "arr" /\ Len(v[2]) = Len(os)
  /\ (\A i \in Idx(os) : FitsObj(C, StructOf(C, s), v[2][i], os[i])) = TRUE
  /\ read' = <<Tokens(v), os>>
  /\ UNCHANGED cur
RefuseAll(s, v) ==
  /\ ~(v[1] = "arr" /\ \A i \in Idx(v[2]) : MustObj(C, StructOf(C, s), v[2][i]))
  /\ read' = <<0>>
  /\ UNCHANGED cur

(* ------------------------------- round trips ------------------------------ *)
RECURSIVE Exported(_, _, _)
(* What is left of an object that is written and read.                        *)
Exported(c, st, o) ==
  <<"o", [i \in Idx(st.fields) |->
    LET f == st.fields[i] x == o[2][i] IN
    IF f.noexport = 1 \/ f.type = "password" THEN ZeroField(c, st, f)
    ELSE IF f.type = "struct" /\ x # Null THEN Exported(c, ObjectOf(c, st, f), x)
    ELSE x]>>
(* json_<s>_data of o, then jsmn_<s>, which takes n tokens.                   *)
RoundTrip(s, o, n, o2) ==
  /\ o2 = Exported(C, StructOf(C, s), o)
  /\ n > 0
  /\ read' = <<n, o2>>
  /\ UNCHANGED cur
=============================================================================
