------------------------------ MODULE OrtDecimal ------------------------------
(* Text as bytes, and the numbers written in it.                              *)
EXTENDS OrtForm

(* ---------------------------------- bytes --------------------------------- *)
Digit(b) == b \in 48..57
Upper(b) == b \in 65..90
Lower(b) == b \in 97..122
Alnum(b) == Digit(b) \/ Upper(b) \/ Lower(b)
Space(b) == b \in {9, 10, 11, 12, 13, 32}

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Space(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

Negative(s) == s # <<>> /\ s[1] = 45
Unsign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Digits(s) == s # <<>> /\ \A i \in Idx(s) : Digit(s[i])
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
RECURSIVE NoZerosR(_)
NoZerosR(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoZerosR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Small(s) == [i \in Idx(s) |-> Fold(s[i])]

(* ------------------------------ decimal numbers --------------------------- *)
(* [nan, neg, int, frac]: digits without redundant zeros; zero is not         *)
(* negative.  What is not a number satisfies no comparison.                   *)
Dec(neg, i, f) ==
  LET a == NoZeros(i) b == NoZerosR(f) IN
  [nan |-> FALSE, neg |-> neg /\ (a # <<>> \/ b # <<>>), int |-> a, frac |-> b]
DotAt(s) == {i \in Idx(s) : s[i] = 46}
IsDec(s) ==
  LET u == Unsign(s) IN
  /\ Cardinality(DotAt(u)) <= 1
  /\ \E i \in Idx(u) : Digit(u[i])
  /\ \A i \in Idx(u) : Digit(u[i]) \/ u[i] = 46
ToDec(s) ==
  LET u == Unsign(s) d == DotAt(u) IN
  IF d = {} THEN Dec(Negative(s), u, <<>>)
  ELSE LET k == CHOOSE k \in d : TRUE IN
       Dec(Negative(s), SubSeq(u, 1, k - 1), SubSeq(u, k + 1, Len(u)))

MagCmp(a, b) ==
  CASE Len(a.int) < Len(b.int) -> -1
    [] Len(a.int) > Len(b.int) -> 1
    [] OTHER -> LET c == LexCmp(a.int, b.int, 1) IN IF c # 0 THEN c ELSE LexCmp(a.frac, b.frac, 1)
DecCmp(a, b) ==
  CASE a.neg /\ ~b.neg -> -1
    [] ~a.neg /\ b.neg -> 1
    [] a.neg -> MagCmp(b, a)
    [] OTHER -> MagCmp(a, b)

MaxInt == ToDec(<<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>)
MinInt == ToDec(<<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>)
MaxUint == ToDec(<<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>)
Zero == ToDec(<<48>>)
MaxBit == ToDec(<<54, 52>>)

(* The same as 64 bits of two's complement.                                   *)
I64Twice(x) == I64Add(x, x)
I64Tenfold(x) == I64Add(I64Twice(x), I64Twice(I64Twice(I64Twice(x))))
I64Digit(b) == <<"i", I64Zero[2], 0, b - 48>>
RECURSIVE I64Digits(_, _)
I64Digits(s, acc) == IF s = <<>> THEN acc ELSE I64Digits(Tail(s), I64Add(I64Tenfold(acc), I64Digit(s[1])))
DecI64(d) == LET m == I64Digits(d.int, I64Zero) IN IF d.neg THEN I64Sub(I64Zero, m) ELSE m

(* Numbers of TLC.                                                            *)
RECURSIVE NumFrom(_, _)
NumFrom(s, acc) == IF s = <<>> THEN acc ELSE NumFrom(Tail(s), (acc * 10) + (s[1] - 48))
Num(s) == NumFrom(s, 0)
RECURSIVE Show(_)
Show(n) == IF n = 0 THEN <<>> ELSE Append(Show(n \div 10), 48 + (n % 10))
Count(n) == Dec(FALSE, Show(n), <<>>)
=============================================================================
