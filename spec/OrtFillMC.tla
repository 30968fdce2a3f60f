------------------------------- MODULE OrtFillMC -------------------------------
(* A structure with one field of every type and a page with an element of     *)
(* every class for it: all calls with values of small sets, one after         *)
(* another.  Configurations, page and calls are written down, so that all     *)
(* pairs of calls are also made of generated code.                            *)
EXTENDS OrtFill, SequencesExt, Json, IOUtils

Field0 == [name |-> "f", type |-> "int", aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0,
           noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
           limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
Lab(a, b) == <<<<"", a>>, <<"fr", b>>>>
EnumE == [name |-> "e", doc |-> <<>>, isnull |-> Lab("none", "rien"),
          items |-> <<[name |-> "a", num |-> <<I64Zero>>, doc |-> <<>>, labels |-> Lab("No", "Non")],
                      [name |-> "b", num |-> <<I64One>>, doc |-> <<>>, labels |-> <<<<"", "Yes">>>>]>>]
BitsB == [name |-> "b", doc |-> <<>>, isnull |-> <<<<"fr", "rien">>>>, isunset |-> Lab("unset", "zero"),
          items |-> <<[name |-> "lo", bit |-> 0, doc |-> <<>>, labels |-> Lab("Low", "Bas")],
                      [name |-> "mid", bit |-> 1, doc |-> <<>>, labels |-> <<>>],
                      [name |-> "hi", bit |-> 63, doc |-> <<>>, labels |-> <<<<"", "High">>>>]>>]
Struct(n, fs) == [name |-> n, fields |-> fs, insert |-> 0, queries |-> <<>>, updates |-> <<>>, deletes |-> <<>>,
                  uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Types == {"int", "bit", "bits", "date", "epoch", "enum", "real", "text", "blob", "email", "password", "struct"}
Sub == Struct("t", <<[Field0 EXCEPT !.name = "x", !.type = "text"],
                     [Field0 EXCEPT !.name = "id", !.rowid = 1]>>)
Fields(t, z, nx) ==
  IF t = "struct"
  THEN <<[Field0 EXCEPT !.type = "struct", !.src = "r"],
         [Field0 EXCEPT !.name = "r", !.null = z, !.ref = <<<<"t", "id">>>>]>>
  ELSE <<[Field0 EXCEPT !.type = t, !.null = z, !.noexport = nx,
                        !.aux = IF t = "enum" THEN "e" ELSE IF t = "bits" THEN "b" ELSE ""],
         [Field0 EXCEPT !.name = "r"]>>
Cfg(t, z, nx) ==
  [hasroles |-> 0, roles |-> <<>>, enums |-> <<EnumE>>, bits |-> <<BitsB>>,
   structs |-> <<Struct("s", Fields(t, z, nx)), Sub>>]
Shapes == SetToSeq({<<t, z, 0>> : t \in Types, z \in {0, 1}} \cup {<<"int", 0, 1>>, <<"text", 1, 1>>})
All == [i \in Idx(Shapes) |-> Cfg(Shapes[i][1], Shapes[i][2], Shapes[i][3])]
AllConfigs == All
TypeOf(i) == All[i].structs[1].fields[1].type

(* ---------------------------------- pages --------------------------------- *)
Elem(tag, cls, at, ks) == [t |-> tag, c |-> cls, a |-> at, k |-> ks]
Box(cls, v) == Elem("input", cls, <<<<"type", "checkbox">>, <<"value", v>>>>, <<>>)
Span(cls) == Elem("span", cls, <<>>, <<Text("old")>>)
Opt_(v, on) == Elem("option", <<>>, IF on THEN <<<<"selected", "selected">>, <<"value", v>>>> ELSE <<<<"value", v>>>>, <<Text("o")>>)
Page0 == Elem("body", <<"s-has-f">>, <<>>,
  <<Text("x"),
    Elem("div", <<"any", "s-no-f">>, <<>>,
         <<Box(<<"s-f-bits-checked", "s-has-f">>, "0"), Box(<<"s-f-bits-checked">>, "1"), Box(<<"s-f-bits-checked">>, "64"),
           Box(<<"s-f-value-checked">>, "1")>>),
    Elem("input", <<"s-f-value-checked">>, <<<<"checked", "checked">>, <<"type", "radio">>>>, <<>>),
    Elem("select", <<"s-f-enum-select">>, <<>>, <<Opt_("0", TRUE), Opt_("1", FALSE)>>),
    Span(<<"s-f-text", "hide", "s-no-f", "any">>), Span(<<"s-f-label">>), Span(<<"s-f-date-text">>),
    Elem("input", <<"s-f-value">>, <<>>, <<>>), Elem("input", <<"s-f-date-value">>, <<<<"value", "v">>>>, <<>>),
    Elem("div", <<"s-f-obj">>, <<>>, <<Span(<<"t-x-text">>)>>), Span(<<"t-x-text", "s-f-other", "f-text">>),
    Elem("ul", <<"list">>, <<>>, <<Text(" "), Elem("li", <<"s-f-text">>, <<>>, <<>>), Span(<<"any">>)>>)>>)
DivAt == <<2>>
ListAt == <<12>>
SpanAt == <<5>>

(* --------------------------------- values --------------------------------- *)
V(k, x, i, d) == <<"v", k, x, i, d, IF i = <<>> THEN 0 ELSE 1>>
Neg == I64Sub(I64Zero, I64One)
Low == <<"i", 0, 0, 0>>        \* the least
NumText == [zero |-> V("s", "0", I64Zero, 0), one |-> V("n", "1", I64One, 0), two |-> V("s", "2", I64Add(I64One, I64One), 0),
            neg |-> V("n", "-1", Neg, -1), low |-> V("s", "-9223372036854775808", Low, 0)]
Values(t) ==
  CASE t = "struct" -> {<<"o", "#1", <<V("s", "1", <<>>, 0), V("n", "3", <<>>, 0)>>>>, <<"o", "#2", <<<<"u">>, <<"u">>>>>>}
    [] t \in {"bit", "bits"} -> {NumText.zero, NumText.one, NumText.two, NumText.neg, NumText.low}
    [] t \in {"date", "epoch"} -> {NumText.zero, NumText.neg, V("n", "951868799", Neg, 11016), V("s", "-62135596801", Neg, -719163)}
    [] t \in {"int", "enum"} -> {NumText.zero, NumText.one, NumText.two, NumText.neg}
    [] t = "real" -> {V("n", "0.5", <<>>, 0), NumText.one}
    [] OTHER -> {V("s", "", <<>>, 0), V("s", "on", <<>>, 0), NumText.zero}
Nul(i) == IF MayNull(All[i].structs[1], All[i].structs[1].fields[1]) THEN {<<"n">>} ELSE {}
Some == V("n", "7", <<>>, 0)
Objs(i) == {<<"o", "#0", <<v, Some>>>> : v \in Values(TypeOf(i)) \cup Nul(i) \cup {<<"u">>}}

Lists(i) == {<<>>} \cup {<<o>> : o \in Objs(i)}
            \cup {<<o, <<"o", "#9", <<<<"u">>, <<"u">>>>>>>> : o \in Objs(i)}
Handler(t) == IF t = "bits" THEN <<"bits", "b">> ELSE <<"enum", "e">>
Cb(t) == IF t \in {"int", "bits", "enum"} THEN <<<<"s-f", <<<<"record">>, Handler(t)>>>>, <<"s", <<<<"record">>>>>>>> ELSE <<>>

Call(i) ==
  {[k |-> "fill", p |-> p, inc |-> inc, os |-> <<o>>] : p \in {<<>>, DivAt, SpanAt}, inc \in {0, 1}, o \in Objs(i)}
  \cup {[k |-> "class", p |-> <<>>, by |-> "any", inc |-> inc, os |-> <<o>>] : inc \in {0, 1}, o \in Objs(i)}
  \cup {[k |-> "array", p |-> p, os |-> os] : p \in {ListAt, SpanAt}, os \in Lists(i)}
  \cup {[k |-> "arrayclass", p |-> <<>>, by |-> "list", os |-> os] : os \in Lists(i)}
  \cup {[k |-> "arrayor", p |-> ListAt, q |-> DivAt, show |-> show, os |-> os] : show \in {0, 1}, os \in {<<>>, <<CHOOSE o \in Objs(i) : TRUE>>}}
  \cup {[k |-> "lang", lang |-> "fr"]}
  \cup (IF TypeOf(i) \in {"enum", "bits"}
        THEN {[k |-> "format", p |-> IF name = <<>> THEN SpanAt ELSE <<>>, h |-> Handler(TypeOf(i)), name |-> name, v |-> v] :
                v \in Values(TypeOf(i)) \cup {<<"n">>}, name \in {<<>>, <<"s-f">>}}
        ELSE {})

ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> All, page |-> Page0, calls |-> [i \in Idx(All) |-> SetToSeq(Call(i))],
                                 cbs |-> [i \in Idx(All) |-> Cb(TypeOf(i))]])

(* ----------------------------------- laws --------------------------------- *)
ASSUME DateText(0) = "1970-01-01" /\ DateText(-1) = "1969-12-31" /\ DateText(11016) = "2000-02-29"
       /\ DateText(-719528) = "0000-01-01" /\ DateText(2932896) = "9999-12-31"
ASSUME \A x, y \in 1..64 : BitMatch(IF x = 64 THEN Low ELSE LET RECURSIVE pw(_) pw(n) == IF n = 0 THEN I64One ELSE I64Add(pw(n - 1), pw(n - 1)) IN
                                    IF x < 12 THEN pw(x - 1) ELSE I64One, BitNames[y]) <=> y = (IF x = 64 THEN 64 ELSE IF x < 12 THEN x ELSE 1)
ASSUME \A v \in {I64Zero, Neg, Low, I64One} : BitMatch(v, "0") <=> v = I64Zero

(* -------------------------------- behaviours ------------------------------ *)
VARIABLE done                     \* the calls that were made
mvars == <<cfg, page, lang, done>>
MInit == cfg \in Idx(All) /\ page = Norm(Page0) /\ lang = "" /\ done = <<>>
S == C.structs[1]
B(x) == x = 1
Result(c, g, x, n) ==
  LET st == c.structs[1] cb == Cb(st.fields[1].type) m == At(n, x.p) IN
  CASE x.k = "fill" -> Replace(n, x.p, FillNode(c, g, cb, B(x.inc), First(st, x.os), m))
    [] x.k = "class" -> Replace(n, x.p, ClassNode(c, g, cb, x.by, B(x.inc), First(st, x.os), m))
    [] x.k = "array" -> Replace(n, x.p, ArrayNode(c, g, cb, st, x.os, m))
    [] x.k = "arrayclass" -> Replace(n, x.p, ArrayWithin(c, g, cb, x.by, st, x.os, m))
    [] x.k = "arrayor" ->
         LET p1 == Replace(n, x.p, ArrayNode(c, g, cb, st, x.os, m)) o == At(p1, x.q) IN
         Replace(p1, x.q, IF (x.os = <<>>) = B(x.show) THEN Show(o) ELSE Hide(o))
    [] x.k = "format" ->
         Replace(n, x.p, IF x.name = <<>> THEN Format(c, g, x.h, x.v, m)
                         ELSE FormatWithin(c, g, x.h, x.v, x.name[1] \o "-label", m))
Make(x) ==
  /\ IF x.k = "lang" THEN lang' = x.lang /\ UNCHANGED <<cfg, page>>
     ELSE page' = Result(C, lang, x, page) /\ UNCHANGED <<cfg, lang>>
  /\ done' = Append(done, x)
MNext == \E x \in Call(cfg) : Make(x)
MSpec == MInit /\ [][Len(done) < 2 /\ MNext]_mvars

Recent == done[Len(done)]
RECURSIVE Nodes(_)
Nodes(n) == IF IsText(n) THEN {} ELSE {n} \cup UNION {Nodes(n.k[i]) : i \in Idx(n.k)}
(* The same call once more changes nothing (but lists are filled from copies  *)
(* of their first element).                                                   *)
Settled == done # <<>> /\ Recent.k # "lang" /\ (Recent.k \in {"array", "arrayclass"} => Len(Recent.os) < 2) => Result(C, lang, Recent, page) = page
(* Of has and no, one is shown: that of the value.                            *)
Told ==
  done # <<>> /\ Recent.k = "fill" /\ Recent.p = <<>> /\ Recent.inc = 1 /\ MayNull(S, S.fields[1]) /\ Exported(S.fields[1])
    => LET v == Recent.os[1][3][1] IN
       v[1] # "u" => \A n \in Nodes(page) :
         /\ Has(n, "s-has-f") /\ ~Has(n, "s-f-text") => (Has(n, "hide") <=> v[1] = "n")
         /\ Has(n, "s-no-f") => (Has(n, "hide") <=> v[1] # "n")
(* What is not exported stays out of the page.                                *)
Private ==
  ~Exported(S.fields[1]) => \A n \in Nodes(page) :
    /\ Has(n, "s-f-text") => TextOf(n) \in {"old", ""}
    /\ Has(n, "s-f-value") => Attr(n, "value") = {}
(* Lists have an element for every object, and are hidden without.            *)
Listed ==
  done # <<>> /\ Recent.k \in {"array", "arrayclass"} /\ (Recent.k = "array" => Recent.p = ListAt) =>
    LET n == At(page, ListAt) IN
    IF Recent.os = <<>> THEN Has(n, "hide") ELSE ~Has(n, "hide") /\ Len(n.k) = Len(Recent.os)
(* What is of other classes stays as it is.                                   *)
Apart == At(page, <<11>>) = At(Norm(Page0), <<11>>)
=============================================================================
