------------------------------- MODULE OrtValid -------------------------------
(* Input to the fields of a configuration: what of it may be taken for a      *)
(* value of the field, which value that is, and what the limits of the field  *)
(* permit.  Input is a sequence of bytes.  A form collects the values that    *)
(* were accepted.                                                             *)
EXTENDS OrtDecimal

CONSTANT Configs     \* fields have "limb": the limits as <<operator, bytes>>
VARIABLES cur, taken \* configuration; accepted values by <<structure, field>>
vvars == <<cur, taken>>

(* ---------------------------------- dates --------------------------------- *)
DateForm(s) == Len(s) = 10 /\ s[5] = 45 /\ s[8] = 45
               /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : Digit(s[i])
Year(s) == Num(SubSeq(s, 1, 4))
Month(s) == Num(SubSeq(s, 6, 7))
Day(s) == Num(SubSeq(s, 9, 10))
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>[m]
DateOK(s) == DateForm(s) /\ Month(s) \in 1..12 /\ Day(s) \in 1..DaysIn(Year(s), Month(s))
(* Days since the first of January of year 0, then since 1970.                *)
YearDays(y) == 365 * y + (IF y = 0 THEN 0 ELSE ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1)
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + MonthDays(y, m - 1)
DayNo(s) == YearDays(Year(s)) + MonthDays(Year(s), Month(s)) + Day(s) - 1 - YearDays(1970)
(* In seconds: 86400 is 864 hundreds, taken in two parts as numbers of TLC    *)
(* have 32 bits.                                                              *)
DateValue(s) ==
  LET n == DayNo(s) m == IF n < 0 THEN -n ELSE n
      lo == 864 * (m % 1000) hi == (864 * (m \div 1000)) + (lo \div 1000)
      pad(k) == <<48 + ((k \div 100) % 10), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
  IN Dec(n < 0, (Show(hi) \o pad(lo % 1000)) \o <<48, 48>>, <<>>)

(* --------------------------------- fields --------------------------------- *)
Integral(fd) == fd.type \in {"bit", "bits", "epoch", "int", "enum"}
Sized(fd) == fd.type \in {"text", "email", "password", "blob"}

TheField(c, s, f) ==
  LET st == c.structs[CHOOSE i \in Idx(c.structs) : c.structs[i].name = s] IN st.fields[CHOOSE i \in Idx(st.fields) : st.fields[i].name = f]
(* The fields there are validators for: all but structures.                   *)
Checked(c) ==
  UNION {{<<c.structs[i].name, c.structs[i].fields[j].name>> :
            j \in {j \in Idx(c.structs[i].fields) : c.structs[i].fields[j].type # "struct"}} :
          i \in Idx(c.structs)}

EnumHas(c, fd, v) ==
  LET e == EnumOf(c, fd.aux) IN \E i \in Idx(e.items) : ItemValue(e, i) = DecI64(v)
InRange(v, lo, hi) == ~v.nan /\ DecCmp(v, lo) >= 0 /\ DecCmp(v, hi) <= 0 /\ v.frac = <<>>
OfType(c, fd, v) ==
  CASE fd.type \in {"int", "epoch", "date", "bits"} -> InRange(v, MinInt, MaxInt)
    [] fd.type = "bit" -> InRange(v, Zero, MaxBit)
    [] fd.type = "enum" -> InRange(v, MinInt, MaxInt) /\ EnumHas(c, fd, v)
    [] OTHER -> TRUE

(* Texts are limited in their number of bytes, all others by value.           *)
LimitHolds(fd, op, lim, v) ==
  LET n == IF Sized(fd) THEN Count(Len(v)) ELSE v
      k == DecCmp(n, ToDec(lim))
  IN ~n.nan /\ CASE op = "ge" -> k >= 0 [] op = "le" -> k <= 0 [] op = "gt" -> k > 0
                 [] op = "lt" -> k < 0 [] op = "eq" -> k = 0
LimitsHold(fd, v) == \A i \in Idx(fd.limb) : LimitHolds(fd, fd.limb[i][1], fd.limb[i][2], v)
MayBe(c, fd, v) == OfType(c, fd, v) /\ LimitsHold(fd, v)

(* ---------------------------------- input --------------------------------- *)
(* Doubles tell numbers of fifteen digits apart.                              *)
Short(s) == Cardinality({i \in Idx(s) : Digit(s[i])}) <= 15

(* Spelled the one way that nobody may refuse.                                *)
PlainInt(s) ==
  LET u == IF Negative(s) THEN Tail(s) ELSE s IN
  Digits(u) /\ (u[1] # 48 \/ (Len(u) = 1 /\ ~Negative(s)))
PlainReal(s) ==
  LET u == IF Negative(s) THEN Tail(s) ELSE s IN
  /\ IsDec(u) /\ Digit(u[1]) /\ Digit(u[Len(u)]) /\ Short(u)
  /\ ~Negative(s) \/ \E i \in Idx(u) : u[i] \in 49..57
Word(s) == s # <<>> /\ \A i \in Idx(s) : Lower(s[i]) \/ Digit(s[i])
PlainMail(s) ==
  \E a \in Idx(s) : \E d \in Idx(s) :
    /\ a < d /\ s[a] = 64 /\ s[d] = 46
    /\ Word(SubSeq(s, 1, a - 1)) /\ Word(SubSeq(s, a + 1, d - 1)) /\ Len(s) - d \in 2..6
    /\ a <= 40 /\ d - a <= 40
    /\ \A i \in (d + 1)..Len(s) : Lower(s[i])
Plain(fd, s) ==
  CASE Integral(fd) -> PlainInt(s)
    [] fd.type = "date" -> DateOK(s)
    [] fd.type = "real" -> PlainReal(s)
    [] fd.type = "email" -> PlainMail(s)
    [] fd.type = "blob" -> TRUE
    [] OTHER -> \A i \in Idx(s) : s[i] # 0

(* Spelled in some way that may be understood.                                *)
Radix(t) == Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120, 79, 111, 66, 98}
HexReal(t) ==
  LET u == Unsign(t) IN
  Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120} /\ \A i \in Idx(u) : Alnum(u[i]) \/ u[i] \in {43, 45, 46}
ExpAt(t) == {i \in Idx(t) : t[i] \in {69, 101}}
ExpReal(t) ==
  \E i \in ExpAt(t) : IsDec(SubSeq(t, 1, i - 1)) /\ Digits(Unsign(SubSeq(t, i + 1, Len(t))))
WordReal(t) ==
  LET u == Small(Unsign(t)) IN u \in {<<110,97,110>>, <<105,110,102>>, <<105,110,102,105,110,105,116,121>>}
Odd(fd, s) ==
  LET t == Trim(s) IN
  CASE Integral(fd) -> Digits(Unsign(t)) \/ (Radix(t) /\ \A i \in Idx(t) : Alnum(t[i]))
    [] fd.type = "date" -> DateOK(t)
    [] fd.type = "real" -> IsDec(t) \/ ExpReal(t) \/ HexReal(t) \/ WordReal(t)
    [] fd.type = "email" -> \E i \in 2..(Len(t) - 1) : t[i] = 64
    [] OTHER -> TRUE

(* Its value, if nothing but one can be meant.                                *)
Known(fd, s) ==
  LET t == Trim(s) IN
  CASE Integral(fd) -> Digits(Unsign(t))
    [] fd.type = "real" -> IsDec(t) /\ Short(t)
    [] fd.type = "email" -> PlainMail(s)
    [] OTHER -> TRUE
ValueOf(fd, s) ==
  LET t == Trim(s) IN
  CASE fd.type = "date" -> DateValue(t)
    [] Integral(fd) \/ fd.type = "real" -> ToDec(t)
    [] OTHER -> s

(* Bit fields may be given unsigned, and are then the same 64 bits.           *)
Unsigned(fd, s) ==
  LET t == Trim(s) IN
  /\ fd.type = "bits" /\ Digits(Unsign(t)) /\ ~Negative(t)
  /\ DecCmp(ToDec(t), MaxInt) > 0 /\ DecCmp(ToDec(t), MaxUint) <= 0
SameBits(s, v) == v.neg /\ DecI64(ToDec(Trim(s))) = DecI64(v)

(* ------------------------------- transitions ------------------------------ *)
VInit == cur \in 1..Len(Configs) /\ taken = <<>>

Accept(s, f, in, v) ==
  LET c == Configs[cur] fd == TheField(c, s, f) IN
  /\ <<s, f>> \in Checked(c)
  /\ Odd(fd, in)
  /\ MayBe(c, fd, v)
  /\ IF Unsigned(fd, in) THEN SameBits(in, v) ELSE Known(fd, in) => v = ValueOf(fd, in)
  /\ taken' = [x \in DOMAIN taken \cup {<<s, f>>} |-> IF x = <<s, f>> THEN v ELSE taken[x]]
  /\ cur' = cur

Reject(s, f, in) ==
  LET c == Configs[cur] fd == TheField(c, s, f) IN
  /\ <<s, f>> \in Checked(c)
  /\ ~(Plain(fd, in) /\ MayBe(c, fd, ValueOf(fd, in)))
  /\ UNCHANGED vvars

(* No input at all.                                                           *)
RejectNone(s, f) == <<s, f>> \in Checked(Configs[cur]) /\ UNCHANGED vvars

(* The fields there is a validator for.                                       *)
Table(names) == names = Checked(Configs[cur]) /\ UNCHANGED vvars

Valid == \A x \in DOMAIN taken : MayBe(Configs[cur], TheField(Configs[cur], x[1], x[2]), taken[x])
=============================================================================
