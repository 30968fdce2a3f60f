-------------------------------- MODULE OrtFill -------------------------------
(* What the browser code does to a page.  A page is a tree:                   *)
(*   [t |-> "#", x |-> text]                                                  *)
(*   [t |-> tag, c |-> classes, a |-> attributes, k |-> children]             *)
(* An object is <<"o", id, values>>, with a value for every field:            *)
(*   <<"u">>          not given (not exported)                                *)
(*   <<"n">>          null                                                    *)
(*   <<"v", k, x, i, d, e>>  of JavaScript type k, x as text; i is the       *)
(*                   integer it is (all of it signed, if e = 1), d the day   *)
(*   an object                                                                *)
(* Callbacks are <<key, <<handlers>>>>; a handler is <<"record">> or the      *)
(* formatter <<"enum", name>> or <<"bits", name>>.                            *)
EXTENDS OrtForm

CONSTANT Configs
VARIABLES cfg,     \* index of the configuration
          page,    \* the body of the document
          lang     \* its language
fvars == <<cfg, page, lang>>
C == Configs[cfg]

(* -------------------------------- elements -------------------------------- *)
IsText(n) == n.t = "#"
Text(s) == [t |-> "#", x |-> s]
RECURSIVE Norm(_)
Norm(n) == IF IsText(n) THEN n
           ELSE [t |-> n.t, c |-> RangeOf(n.c), a |-> RangeOf(n.a), k |-> [i \in Idx(n.k) |-> Norm(n.k[i])]]

Has(n, cls) == ~IsText(n) /\ cls \in n.c
Hide(n) == [n EXCEPT !.c = @ \cup {"hide"}]
Show(n) == [n EXCEPT !.c = @ \ {"hide"}]
Attr(n, k) == {p[2] : p \in {p \in n.a : p[1] = k}}
Set(n, k, v) == [n EXCEPT !.a = {p \in @ : p[1] # k} \cup {<<k, v>>}]
Unset(n, k) == [n EXCEPT !.a = {p \in @ : p[1] # k}]
Put(n, s) == [n EXCEPT !.k = <<Text(s)>>]

RECURSIVE TextOf(_)
TextOf(n) == IF IsText(n) THEN n.x
             ELSE LET RECURSIVE cat(_)
                      cat(ks) == IF ks = <<>> THEN "" ELSE TextOf(Head(ks)) \o cat(Tail(ks))
                  IN cat(n.k)
(* The value that an element has in a form: {} or {text}.                     *)
ValueOf(n) ==
  CASE n.t = "input" -> IF Attr(n, "value") # {} THEN Attr(n, "value")
                        ELSE IF Attr(n, "type") \in {{"checkbox"}, {"radio"}} THEN {"on"} ELSE {""}
    [] n.t = "option" -> IF Attr(n, "value") # {} THEN Attr(n, "value") ELSE {TextOf(n)}
    [] OTHER -> {}
Mark(n, attr, on) == IF on THEN Set(n, attr, attr) ELSE Unset(n, attr)

RECURSIVE Select(_, _)
(* The options beneath an element.                                            *)
Select(n, s) ==
  [n EXCEPT !.k = [i \in Idx(n.k) |->
     IF IsText(n.k[i]) THEN n.k[i]
     ELSE LET m == Select(n.k[i], s) IN IF m.t = "option" THEN Mark(m, "selected", ValueOf(m) = {s}) ELSE m]]

RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.k[Head(p)], Tail(p))
RECURSIVE Replace(_, _, _)
Replace(n, p, m) == IF p = <<>> THEN m ELSE [n EXCEPT !.k[Head(p)] = Replace(@, Tail(p), m)]

(* --------------------------------- values --------------------------------- *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Pad(_, _)
Pad(n, w) == (IF n > 9 \/ w > 1 THEN Pad(n \div 10, w - 1) ELSE "") \o Digit[(n % 10) + 1]
(* The day of the given number, counted from 1 January 1970.                  *)
DateText(d) ==
  LET z == d + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      day == doy - (((153 * mp) + 2) \div 5) + 1
      mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + (era * 400) + (IF mon <= 2 THEN 1 ELSE 0)
  IN Pad(y, 4) \o "-" \o Pad(mon, 2) \o "-" \o Pad(day, 2)

BitOf(v, b) ==
  LET r == Raw(v) IN
  (CASE b < 22 -> r[3] \div (2 ^ b) [] b < 44 -> r[2] \div (2 ^ (b - 22)) [] OTHER -> r[1] \div (2 ^ (b - 44))) % 2 = 1
IsZero(v) == v = I64Zero
BitNames == [b \in 0..64 |-> ToString(b)]
(* Indices start from one, and zero stands for no bits at all.                *)
BitMatch(v, s) == \/ IsZero(v) /\ s = BitNames[0]
                  \/ \E b \in 1..64 : s = BitNames[b] /\ BitOf(v, b - 1)

(* --------------------------------- labels --------------------------------- *)
LabelIn(ls, g) ==
  LET of(x) == {i \in Idx(ls) : ls[i][1] = x} IN
  IF of(g) # {} THEN ls[CHOOSE i \in of(g) : TRUE][2]
  ELSE IF of("") # {} THEN ls[CHOOSE i \in of("") : TRUE][2] ELSE ""
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Join(Tail(ss))
NoEmpty(s) == s # ""

(* What a formatter writes into an element.                                   *)
Format(c, g, h, v, n) ==
  IF h[1] = "enum"
  THEN LET e == EnumOf(c, h[2])
           is == {i \in Idx(e.items) : v[1] = "v" /\ v[6] = 1 /\ v[4] = ItemValue(e, i)} IN
       IF v[1] = "n" THEN Put([n EXCEPT !.c = @ \cup {"ort-null"}], LabelIn(e.isnull, g))
       ELSE Put(n, IF is = {} THEN "" ELSE LabelIn(e.items[CHOOSE i \in is : TRUE].labels, g))
  ELSE LET b == BitsOf(c, h[2]) IN
       IF v[1] = "n" THEN Put([n EXCEPT !.c = @ \cup {"ort-null"}], LabelIn(b.isnull, g))
       ELSE IF IsZero(v[4]) THEN Put([n EXCEPT !.c = @ \cup {"ort-unset"}], LabelIn(b.isunset, g))
       ELSE Put(n, Join(SelectSeq([i \in Idx(b.items) |->
                    IF BitOf(v[4], b.items[i].bit) THEN LabelIn(b.items[i].labels, g) ELSE ""], NoEmpty)))

RECURSIVE FormatWithin(_, _, _, _, _, _)
FormatWithin(c, g, h, v, cls, n) ==
  [n EXCEPT !.k = [i \in Idx(n.k) |->
     IF IsText(n.k[i]) THEN n.k[i]
     ELSE LET m == FormatWithin(c, g, h, v, cls, n.k[i]) IN IF Has(m, cls) THEN Format(c, g, h, v, m) ELSE m]]

(* -------------------------------- filling --------------------------------- *)
Exported(f) == f.type # "password" /\ f.noexport = 0
MayNull(st, f) == f.null = 1 \/ (f.type = "struct" /\ SrcOf(st, f).null = 1)
IsObj(v) == v[1] = "o"

(* What the value of one field does to an element that is in reach.           *)
FieldTo(st, f, v, n) ==
  LET w == st.name \o "-" \o f.name
      null == v[1] = "n"
      n1 == IF ~MayNull(st, f) THEN n
            ELSE LET a == IF Has(n, st.name \o "-has-" \o f.name) THEN (IF null THEN Hide(n) ELSE Show(n)) ELSE n
                 IN IF Has(n, st.name \o "-no-" \o f.name) THEN (IF null THEN Show(a) ELSE Hide(a)) ELSE a
      bits == f.type \in {"bit", "bits"} /\ Has(n, w \o "-bits-checked")
      dated == f.type \in {"date", "epoch"}
      s == v[3]
      n2 == IF Has(n, w \o "-enum-select") THEN Select(n1, s) ELSE n1
      n3 == IF Has(n, w \o "-text") THEN Put(n2, s) ELSE n2
      n4 == IF Has(n, w \o "-value") THEN Set(n3, "value", s) ELSE n3
      n5 == IF Has(n, w \o "-value-checked") THEN Mark(n4, "checked", ValueOf(n4) = {s}) ELSE n4
      n6 == IF bits THEN Mark(n5, "checked", \E x \in ValueOf(n5) : BitMatch(v[4], x)) ELSE n5
      n7 == IF dated /\ Has(n, w \o "-date-value") THEN Set(n6, "value", DateText(v[5])) ELSE n6
  IN IF v[1] = "u" \/ ~Exported(f) THEN n
     ELSE IF null THEN (IF bits THEN Unset(n1, "checked") ELSE n1)
     ELSE IF f.type = "struct" THEN n1
     ELSE IF dated /\ Has(n, w \o "-date-text") THEN Put(n7, DateText(v[5])) ELSE n7

(* An object in reach of an element: of which structure, which object, and    *)
(* which of its fields (0: all).                                              *)
Reach(st, o, k) == [st |-> st, o |-> o, only |-> k]
ReachFields(r) == IF r.only = 0 THEN Idx(r.st.fields) ELSE {r.only}

RECURSIVE ToNode(_, _, _, _)
ToNode(r, n, i, m) ==
  IF i > Len(r.st.fields) THEN m
  ELSE ToNode(r, n, i + 1, IF i \in ReachFields(r) THEN FieldTo(r.st, r.st.fields[i], r.o[3][i], m) ELSE m)

RECURSIVE AllTo(_, _)
AllTo(rs, n) == IF rs = <<>> THEN n ELSE AllTo(Tail(rs), ToNode(Head(rs), n, 1, n))

(* The objects of structure fields that are filled into the children.         *)
RECURSIVE Subs(_, _, _)
Subs(c, rs, n) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs)
           is == SelectSeq([i \in Idx(r.st.fields) |-> i], LAMBDA i :
                   LET f == r.st.fields[i] IN
                   i \in ReachFields(r) /\ f.type = "struct" /\ Exported(f) /\ IsObj(r.o[3][i])
                   /\ Has(n, r.st.name \o "-" \o f.name \o "-obj"))
       IN [k \in Idx(is) |-> Reach(StructOf(c, TargetOf(r.st, r.st.fields[is[k]])[1]), r.o[3][is[k]], 0)]
          \o Subs(c, Tail(rs), n)

(* Labels of formatters that serve as callbacks: beneath the element only.    *)
Handlers(cb, key) == LET is == {i \in Idx(cb) : cb[i][1] = key} IN
                     IF is = {} THEN <<>> ELSE cb[CHOOSE i \in is : TRUE][2]
RECURSIVE Labelling(_, _, _, _, _, _, _)
Labelling(c, g, hs, key, v, i, n) ==
  IF i > Len(hs) THEN n
  ELSE Labelling(c, g, hs, key, v, i + 1,
                 IF hs[i][1] # "record" /\ Has(n, key \o "-label") THEN Format(c, g, hs[i], v, n) ELSE n)
RECURSIVE LabelField(_, _, _, _, _, _)
LabelField(c, g, cb, r, i, n) ==
  IF i > Len(r.st.fields) THEN n
  ELSE LET f == r.st.fields[i] v == r.o[3][i] key == r.st.name \o "-" \o f.name IN
       LabelField(c, g, cb, r, i + 1,
                  IF r.only = 0 /\ Exported(f) /\ v[1] # "u" THEN Labelling(c, g, Handlers(cb, key), key, v, 1, n) ELSE n)
RECURSIVE LabelTo(_, _, _, _, _)
LabelTo(c, g, cb, rs, n) == IF rs = <<>> THEN n ELSE LabelTo(c, g, cb, Tail(rs), LabelField(c, g, cb, Head(rs), 1, n))

(* Fill the objects "in" reach, of which those of "lab" label; below elements *)
(* of class "by", "more" are in reach as well (for "self", also at them).     *)
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(c, g, cb, by, self, more, rs, n) ==
  IF IsText(n) THEN n
  ELSE LET own == IF Has(n, by) THEN more ELSE <<>>
           here == rs.in \o (IF self THEN own ELSE <<>>)
           m == LabelTo(c, g, cb, rs.lab, AllTo(here, n))
           down == rs.in \o own \o Subs(c, here, n)
       IN [m EXCEPT !.k = [i \in Idx(m.k) |-> Walk(c, g, cb, by, self, more, [in |-> down, lab |-> down], m.k[i])]]
(* Beneath an element only.                                                   *)
Beneath(c, g, cb, by, self, more, rs, n) ==
  [n EXCEPT !.k = [i \in Idx(n.k) |-> Walk(c, g, cb, by, self, more, [in |-> rs, lab |-> rs], n.k[i])]]
Whole(c, g, cb, rs, n) == Walk(c, g, cb, "", FALSE, <<>>, [in |-> rs, lab |-> <<>>], n)

FillNode(c, g, cb, inc, rs, n) == IF inc THEN Whole(c, g, cb, rs, n) ELSE Beneath(c, g, cb, "", FALSE, <<>>, rs, n)
ClassNode(c, g, cb, by, inc, rs, n) ==
  IF inc THEN Walk(c, g, cb, by, TRUE, rs, [in |-> <<>>, lab |-> <<>>], n)
  ELSE Beneath(c, g, cb, by, FALSE, rs, <<>>, n)

(* -------------------------------- callbacks ------------------------------- *)
Repr(v) == CASE v[1] = "n" -> "null" [] v[1] = "o" -> v[2] [] v[1] = "v" -> v[2] \o ":" \o v[3]
(* All calls: <<key, handler, path, value, structure, id, field, inclusive>>. *)
Called(cb, key, p, v, r, k, inc) ==
  LET hs == Handlers(cb, key)
      is == SelectSeq([i \in Idx(hs) |-> i], LAMBDA i : hs[i][1] = "record") IN
  [i \in Idx(is) |-> [key |-> key, j |-> is[i], at |-> p, v |-> Repr(v), r |-> Reach(r.st, r.o, k), inc |-> inc]]
RECURSIVE FieldCalls(_, _, _, _, _)
FieldCalls(cb, r, p, inc, i) ==
  IF i > Len(r.st.fields) THEN Called(cb, r.st.name, p, r.o, r, 0, inc)
  ELSE LET f == r.st.fields[i] v == r.o[3][i] IN
       (IF Exported(f) /\ v[1] # "u" THEN Called(cb, r.st.name \o "-" \o f.name, p, v, r, i, inc) ELSE <<>>)
       \o FieldCalls(cb, r, p, inc, i + 1)
RECURSIVE CallsOf(_, _, _, _)
CallsOf(cb, rs, p, inc) == IF rs = <<>> THEN <<>> ELSE FieldCalls(cb, Head(rs), p, inc, 1) \o CallsOf(cb, Tail(rs), p, inc)

RECURSIVE Calls(_, _, _, _, _, _, _, _)
Calls(c, cb, by, self, more, rs, p, n) ==
  IF IsText(n) THEN <<>>
  ELSE LET own == IF Has(n, by) THEN more ELSE <<>>
           here == rs \o (IF self THEN own ELSE <<>>)
           subs == Subs(c, here, n)
       IN CallsOf(cb, own, p, self) \o CallsOf(cb, subs, p, FALSE)
          \o FlattenSeq2([i \in Idx(n.k) |-> Calls(c, cb, by, self, more, rs \o own \o subs, Append(p, i), n.k[i])])
CallsBeneath(c, cb, by, self, more, rs, p, n) ==
  FlattenSeq2([i \in Idx(n.k) |-> Calls(c, cb, by, self, more, rs, Append(p, i), n.k[i])])
FillCalls(c, cb, inc, rs, p, n) ==
  CallsOf(cb, rs, p, inc)
  \o (IF inc THEN Calls(c, cb, "", FALSE, <<>>, rs, p, n) ELSE CallsBeneath(c, cb, "", FALSE, <<>>, rs, p, n))
ClassCalls(c, cb, by, inc, rs, p, n) ==
  IF inc THEN Calls(c, cb, by, TRUE, rs, <<>>, p, n) ELSE CallsBeneath(c, cb, by, FALSE, rs, <<>>, p, n)

(* ---------------------------------- lists --------------------------------- *)
Elements(n) == SelectSeq(n.k, LAMBDA m : ~IsText(m))
ArrayNode(c, g, cb, st, os, n) ==
  IF Elements(n) = <<>> \/ os = <<>> THEN Hide(n)
  ELSE [Show(n) EXCEPT !.k = [i \in Idx(os) |-> Whole(c, g, cb, <<Reach(st, os[i], 0)>>, Elements(n)[1])]]
ArrayCalls(c, cb, st, os, p, n) ==
  IF Elements(n) = <<>> THEN <<>>
  ELSE FlattenSeq2([i \in Idx(os) |-> FillCalls(c, cb, TRUE, <<Reach(st, os[i], 0)>>, Append(p, i), Elements(n)[1])])
RECURSIVE ArrayWithin(_, _, _, _, _, _, _)
ArrayWithin(c, g, cb, by, st, os, n) ==
  [n EXCEPT !.k = [i \in Idx(n.k) |->
     IF IsText(n.k[i]) THEN n.k[i]
     ELSE IF Has(n.k[i], by) THEN ArrayNode(c, g, cb, st, os, n.k[i])
     ELSE ArrayWithin(c, g, cb, by, st, os, n.k[i])]]
RECURSIVE ArrayCallsWithin(_, _, _, _, _, _, _)
ArrayCallsWithin(c, cb, by, st, os, p, n) ==
  FlattenSeq2([i \in Idx(n.k) |->
     IF IsText(n.k[i]) THEN <<>>
     ELSE IF Has(n.k[i], by) THEN ArrayCalls(c, cb, st, os, Append(p, i), n.k[i])
     ELSE ArrayCallsWithin(c, cb, by, st, os, Append(p, i), n.k[i])])

(* ------------------------------- transitions ------------------------------ *)
FInit == page = Text("") /\ lang = ""

(* Others change the page.                                                    *)
Load(n) == page' = Norm(n) /\ UNCHANGED <<cfg, lang>>
Speak(g) == lang' = g /\ UNCHANGED <<cfg, page>>

Nowhere == <<0>>
First(st, os) == IF os = <<>> THEN <<>> ELSE <<Reach(st, os[1], 0)>>

(* Calls are as they should be (in whatever order, but for the handlers of    *)
(* one key, in turn), each after what it is for has been filled.              *)
Count(x, q) == Cardinality({i \in Idx(q) : q[i] = x})
Tell(x) == <<x.key, x.j, x.at, x.v>>
RECURSIVE InTurn(_, _, _)
InTurn(cb, got, last) ==
  IF got = <<>> THEN TRUE
  ELSE          LET x == Head(got)
                    hs == Handlers(cb, x.key)
                    recs == SelectSeq([i \in Idx(hs) |-> i], LAMBDA i : hs[i][1] = "record")
                    k == CHOOSE k \in Idx(recs) : recs[k] = x.j
                IN (IF k = 1 THEN TRUE ELSE last = <<x.key, recs[k - 1], x.at, x.v>>)
                   /\ InTurn(cb, Tail(got), Tell(x))
CallsFit(c, cb, want, got) ==
  LET w == [i \in Idx(want) |-> Tell(want[i])]
      h == [i \in Idx(got) |-> Tell(got[i])]
  IN /\ Len(w) = Len(h)
     /\ \A x \in RangeOf(w) : Count(x, w) = Count(x, h)
     /\ InTurn(cb, got, <<>>)
     /\ \A i \in Idx(got) :
          LET s == Norm(got[i].snap) IN
          \E k \in Idx(want) : w[k] = h[i] /\ FillNode(c, "", <<>>, want[k].inc, <<want[k].r>>, s) = s

Become(p, n) == page' = Replace(page, p, n) /\ UNCHANGED <<cfg, lang>>
Nothing(calls) == calls = <<>> /\ UNCHANGED fvars

Fill(s, os, p, inc, cb, calls) ==
  IF p = Nowhere THEN Nothing(calls)
  ELSE LET n == At(page, p) rs == First(StructOf(C, s), os) IN
       /\ CallsFit(C, cb, FillCalls(C, cb, inc, rs, p, n), calls) = TRUE
       /\ Become(p, FillNode(C, lang, cb, inc, rs, n))
FillByClass(s, os, p, by, inc, cb, calls) ==
  IF p = Nowhere THEN Nothing(calls)
  ELSE LET n == At(page, p) rs == First(StructOf(C, s), os) IN
       /\ CallsFit(C, cb, ClassCalls(C, cb, by, inc, rs, p, n), calls) = TRUE
       /\ Become(p, ClassNode(C, lang, cb, by, inc, rs, n))
FillArray(s, os, p, cb, calls) ==
  IF p = Nowhere THEN Nothing(calls)
  ELSE LET n == At(page, p) st == StructOf(C, s) IN
       /\ CallsFit(C, cb, ArrayCalls(C, cb, st, os, p, n), calls) = TRUE
       /\ Become(p, ArrayNode(C, lang, cb, st, os, n))
FillArrayByClass(s, os, p, by, cb, calls) ==
  IF p = Nowhere THEN Nothing(calls)
  ELSE LET n == At(page, p) st == StructOf(C, s) IN
       /\ CallsFit(C, cb, ArrayCallsWithin(C, cb, by, st, os, p, n), calls) = TRUE
       /\ Become(p, ArrayWithin(C, lang, cb, by, st, os, n))
(* The other element "q" is shown or hidden.                                  *)
FillArrayOr(s, os, p, q, show, cb, calls) ==
  LET n == At(page, p) st == StructOf(C, s)
      p1 == IF p = Nowhere THEN page ELSE Replace(page, p, ArrayNode(C, lang, cb, st, os, n))
      m == At(p1, q)
  IN /\ IF p = Nowhere THEN calls = <<>> ELSE CallsFit(C, cb, ArrayCalls(C, cb, st, os, p, n), calls) = TRUE
     /\ page' = IF q = Nowhere THEN p1
                ELSE Replace(p1, q, IF (os = <<>>) = show THEN Show(m) ELSE Hide(m))
     /\ UNCHANGED <<cfg, lang>>
(* Called by others: on an element, or elements of a class beneath it.        *)
Label(h, p, name, v) ==
  LET n == At(page, p) IN
  Become(p, IF name = <<>> THEN Format(C, lang, h, v, n)
            ELSE FormatWithin(C, lang, h, v, name[1] \o "-label", n))
(* Is the page as it has to be?                                               *)
Look(n) == page = Norm(n) /\ UNCHANGED fvars
=============================================================================
