------------------------------ MODULE OrtDiffMC ------------------------------
(* Configurations that differ from a common one in every single respect that  *)
(* a document can state, and what any report of differences owes to all pairs *)
(* of them.  They are written to the file named by VARIANTS, so that ort-diff *)
(* is run on the same pairs.                                                  *)
EXTENDS OrtDiff, SequencesExt, Json, IOUtils

I64(k) == I64AddN(I64Zero, k)
Item(n, v) == [name |-> n, num |-> v, doc |-> <<>>, labels |-> <<>>]
Bit(n, b) == [name |-> n, bit |-> b, doc |-> <<>>, labels |-> <<>>]
En(n, is) == [name |-> n, doc |-> <<>>, isnull |-> <<>>, items |-> is]
Bf(n, is) == [name |-> n, doc |-> <<>>, isnull |-> <<>>, isunset |-> <<>>, items |-> is]
Field(n, t) == [name |-> n, type |-> t, aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0,
                noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
                limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
Grant(rs, ops) == [roles |-> rs, ops |-> ops]
St(n, fs) == [name |-> n, fields |-> fs, insert |-> 0, queries |-> <<>>, updates |-> <<>>,
              deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Role(n, p) == [name |-> n, parent |-> p, doc |-> <<>>]
Term(p, op) == [path |-> p, op |-> op]
Q(k, n, ts) == [kind |-> k, name |-> n, terms |-> ts, order |-> <<>>, limit |-> <<>>,
                offset |-> <<>>, distinct |-> <<>>, group |-> <<>>, doc |-> <<>>]
U(n, ms, cs) == [name |-> n, mods |-> ms, cons |-> cs, doc |-> <<>>]
D(n, cs) == [name |-> n, cons |-> cs, doc |-> <<>>]

Tgt == St("tgt", <<Id, [Field("alt", "int") EXCEPT !.unique = 1]>>)
Main == [St("main", <<Id, [Field("ta", "int") EXCEPT !.ref = <<<<"tgt", "id">>>>],
                      [Field("sub", "struct") EXCEPT !.src = "ta"],
                      Field("num", "int"), Field("txt", "text"),
                      [Field("kind", "enum") EXCEPT !.aux = "ea"],
                      [Field("bset", "bits") EXCEPT !.aux = "ba"]>>)
         EXCEPT !.insert = 1,
                !.queries = <<Q("search", "qa", <<Term(<<"num">>, "eq")>>),
                              Q("list", "", <<>>), Q("count", "", <<>>)>>,
                !.updates = <<U("ua", <<<<"num", "set">>>>, <<<<"id", "eq">>>>)>>,
                !.deletes = <<D("da", <<<<"id", "eq">>>>)>>,
                !.uniques = <<<<"num", "txt">>>>]
Base == [hasroles |-> 0, roles |-> <<>>,
         enums |-> <<En("ea", <<Item("ia", <<>>), Item("ib", <<I64(3)>>)>>), En("eb", <<Item("ia", <<>>)>>)>>,
         bits |-> <<Bf("ba", <<Bit("ia", 0), Bit("ib", 5)>>), Bf("bb", <<Bit("ia", 0)>>)>>,
         structs |-> <<Tgt, Main>>]
Roled == [Base EXCEPT !.hasroles = 1,
            !.roles = <<Role("ra", "all"), Role("rb", "ra"), Role("rc", "all")>>,
            !.structs[2].grants = <<Grant(<<"ra">>, <<<<"search", "qa">>, <<"noexport", "txt">>>>),
                                    Grant(<<"rc">>, <<<<"insert", "">>>>)>>]

(* ------------------------ one respect at a time --------------------------- *)
Fr == <<<<"fr", "Un">>>>
EnumVariants ==
  {[Base EXCEPT !.enums[1] = e] : e \in
     LET e == Base.enums[1] IN
     {[e EXCEPT !.doc = <<"words">>], [e EXCEPT !.isnull = Fr], [e EXCEPT !.isnull = <<<<"", "Un">>>>],
      [e EXCEPT !.items[1].num = <<I64(4)>>], [e EXCEPT !.items[1].num = <<I64(5)>>],
      [e EXCEPT !.items[2].num = <<>>], [e EXCEPT !.items[2].num = <<I64(1)>>],
      [e EXCEPT !.items[1].doc = <<"words">>], [e EXCEPT !.items[2].labels = Fr],
      [e EXCEPT !.items[2].labels = <<<<"fr", "Deux">>>>], [e EXCEPT !.items[2].labels = <<<<"de", "Un">>>>],
      [e EXCEPT !.items[2].labels = Fr \o <<<<"de", "Eins">>>>],
      [e EXCEPT !.items[1].name = "ic"], [e EXCEPT !.items = Append(@, Item("ic", <<>>))],
      [e EXCEPT !.items = <<@[2], @[1]>>], [e EXCEPT !.items = <<@[1]>>]}}
  \cup {[Base EXCEPT !.enums = <<@[1]>>], [Base EXCEPT !.enums = <<@[2], @[1]>>]}
BitsVariants ==
  {[Base EXCEPT !.bits[1] = b] : b \in
     LET b == Base.bits[1] IN
     {[b EXCEPT !.doc = <<"words">>], [b EXCEPT !.isnull = Fr], [b EXCEPT !.isunset = Fr],
      [b EXCEPT !.isunset = <<<<"fr", "Non">>>>],
      [b EXCEPT !.items[1].bit = 4], [b EXCEPT !.items[1].doc = <<"words">>],
      [b EXCEPT !.items[1].labels = Fr], [b EXCEPT !.items[2].name = "ic"],
      [b EXCEPT !.items = Append(@, Bit("ic", 63))], [b EXCEPT !.items = <<@[2], @[1]>>],
      [b EXCEPT !.items = <<@[1]>>]}}
  \cup {[Base EXCEPT !.bits = <<@[1]>>]}

Num == Main.fields[4]
FieldVariants ==
  LET with(i, S) == {[Base EXCEPT !.structs[2].fields[i] = f] : f \in S}
      num == Main.fields[4] txt == Main.fields[5] ta == Main.fields[2]
  IN with(4, {[num EXCEPT !.null = 1], [num EXCEPT !.unique = 1], [num EXCEPT !.noexport = 1],
              [num EXCEPT !.doc = <<"words">>], [num EXCEPT !.doc = <<"other words">>],
              [num EXCEPT !.default = <<"1">>, !.defv = <<I64(1)>>],
              [num EXCEPT !.default = <<"2">>, !.defv = <<I64(2)>>],
              [num EXCEPT !.limits = <<<<"gt", "3">>>>], [num EXCEPT !.limits = <<<<"gt", "4">>>>],
              [num EXCEPT !.limits = <<<<"ge", "3">>>>],
              [num EXCEPT !.limits = <<<<"gt", "3">>, <<"lt", "9">>>>],
              [num EXCEPT !.limits = <<<<"lt", "9">>, <<"gt", "3">>>>],
              [num EXCEPT !.limits = <<<<"lt", "9">>>>],
              [num EXCEPT !.type = "date"], [num EXCEPT !.type = "epoch"],
              [num EXCEPT !.type = "real"], [num EXCEPT !.ref = <<<<"tgt", "alt">>>>],
              [num EXCEPT !.ref = <<<<"tgt", "id">>>>]})
     \cup with(5, {[txt EXCEPT !.default = <<"ab">>, !.defv = <<<<"t", <<97, 98>>>>>>],
                   [txt EXCEPT !.default = <<"ac">>, !.defv = <<<<"t", <<97, 99>>>>>>],
                   [txt EXCEPT !.limits = <<<<"le", "9">>>>],
                   [txt EXCEPT !.type = "email"], [txt EXCEPT !.type = "blob"],
                   [txt EXCEPT !.type = "password"]})
     \cup with(2, {[ta EXCEPT !.null = 1], [ta EXCEPT !.ref = <<<<"tgt", "alt">>>>]}
                  \cup {[ta EXCEPT !.null = 1, !.actdel = x] : x \in {"restrict", "nullify", "cascade", "default"}}
                  \cup {[ta EXCEPT !.actup = x] : x \in {"restrict", "cascade"}})
     \cup with(6, {[Main.fields[6] EXCEPT !.aux = "eb"],
                   [Main.fields[6] EXCEPT !.default = <<"ia">>],
                   [Main.fields[6] EXCEPT !.default = <<"ib">>],
                   [Main.fields[6] EXCEPT !.aux = "eb", !.default = <<"ia">>]})
     \cup with(7, {[Main.fields[7] EXCEPT !.aux = "bb"], [Main.fields[7] EXCEPT !.type = "bit", !.aux = ""]})
     \cup {[Base EXCEPT !.structs[2].fields = Append(@, Field("more", "int"))],
           [Base EXCEPT !.structs[2].fields = <<@[1], @[2], @[4], @[3]>> \o SubSeq(@, 5, 7)],
           [Base EXCEPT !.structs[2].fields = SubSeq(@, 1, 6)],
           [Base EXCEPT !.structs[2].fields = <<@[1], @[2]>> \o SubSeq(@, 4, 7)]}

OpVariants ==
  LET m(x) == [Base EXCEPT !.structs[2] = x]
      q(x) == m([Main EXCEPT !.queries[1] = x])
      u(x) == m([Main EXCEPT !.updates[1] = x])
      d(x) == m([Main EXCEPT !.deletes[1] = x])
      s == Main.queries[1] l == Q("list", "qa", <<Term(<<"num">>, "eq")>>)
  IN {q(Q("search", "qa", <<Term(<<"num">>, op)>>)) : op \in {"neq", "lt", "isnull"}}
     \cup {q(Q("search", "qa", ts)) : ts \in
             {<<Term(<<"txt">>, "eq")>>, <<Term(<<"num">>, "eq"), Term(<<"txt">>, "eq")>>,
              <<Term(<<"txt">>, "eq"), Term(<<"num">>, "eq")>>, <<Term(<<"sub", "alt">>, "eq")>>,
              <<Term(<<"sub", "id">>, "eq")>>}}
     \cup {q([s EXCEPT !.name = "qb"]), q([s EXCEPT !.name = ""]), q([s EXCEPT !.doc = <<"words">>])}
     \cup {q(l), q([l EXCEPT !.kind = "iterate"]), q([l EXCEPT !.kind = "count"]),
           q([l EXCEPT !.limit = <<2>>]), q([l EXCEPT !.limit = <<3>>]),
           q([l EXCEPT !.limit = <<2>>, !.offset = <<1>>]),
           q([l EXCEPT !.distinct = <<<<>>>>]), q([l EXCEPT !.distinct = <<<<"sub">>>>]),
           q([l EXCEPT !.order = <<<<<<"num">>, "asc">>>>]), q([l EXCEPT !.order = <<<<<<"num">>, "desc">>>>]),
           q([l EXCEPT !.order = <<<<<<"txt">>, "asc">>>>]),
           q([l EXCEPT !.order = <<<<<<"num">>, "asc">>, <<<<"txt">>, "asc">>>>]),
           q([l EXCEPT !.order = <<<<<<"txt">>, "asc">>, <<<<"num">>, "asc">>>>]),
           q([l EXCEPT !.group = <<<<<<"txt">>, "maxrow", <<"num">>>>>>]),
           q([l EXCEPT !.group = <<<<<<"txt">>, "minrow", <<"num">>>>>>]),
           q([l EXCEPT !.group = <<<<<<"txt">>, "maxrow", <<"kind">>>>>>]),
           q([l EXCEPT !.group = <<<<<<"kind">>, "maxrow", <<"num">>>>>>])}
     \cup {m([Main EXCEPT !.queries = x]) : x \in
             {<<>>, <<s>>, <<Main.queries[2], Main.queries[3], s>>,
              Append(Main.queries, [s EXCEPT !.name = "qb"])}}
     \cup {u(x) : x \in {U("ua", <<<<"num", op>>>>, <<<<"id", "eq">>>>) : op \in {"inc", "dec"}}
                    \cup {U("ua", <<<<"txt", op>>>>, <<<<"id", "eq">>>>) : op \in {"set", "concat"}}
                    \cup {U("ua", <<<<"num", "set">>>>, cs) : cs \in
                            {<<>>, <<<<"num", "eq">>>>, <<<<"id", "neq">>>>,
                             <<<<"id", "eq">>, <<"num", "eq">>>>, <<<<"num", "eq">>, <<"id", "eq">>>>}}
                    \cup {U("ua", <<>>, <<<<"id", "eq">>>>),
                          U("ua", <<<<"num", "set">>, <<"txt", "set">>>>, <<<<"id", "eq">>>>),
                          U("ua", <<<<"ta", "set">>, <<"num", "set">>, <<"txt", "set">>, <<"kind", "set">>, <<"bset", "set">>>>,
                            <<<<"id", "eq">>>>),
                          U("", <<<<"num", "set">>>>, <<<<"id", "eq">>>>),
                          U("ub", <<<<"num", "set">>>>, <<<<"id", "eq">>>>),
                          [Main.updates[1] EXCEPT !.doc = <<"words">>]}}
     \cup {d(x) : x \in {D("db", <<<<"id", "eq">>>>), D("", <<<<"id", "eq">>>>), D("da", <<>>),
                         D("da", <<<<"num", "eq">>>>), D("da", <<<<"id", "lt">>>>),
                         [Main.deletes[1] EXCEPT !.doc = <<"words">>]}}
     \cup {m([Main EXCEPT !.updates = <<>>]), m([Main EXCEPT !.deletes = <<>>]),
           m([Main EXCEPT !.insert = 0]), m([Main EXCEPT !.doc = <<"words">>]),
           m([Main EXCEPT !.uniques = <<>>]), m([Main EXCEPT !.uniques = <<<<"txt", "num">>>>]),
           m([Main EXCEPT !.uniques = <<<<"num", "kind">>>>]),
           m([Main EXCEPT !.uniques = <<<<"num", "txt">>, <<"kind", "num">>>>]),
           m([Main EXCEPT !.uniques = <<<<"num", "txt", "kind">>>>]),
           m([Main EXCEPT !.name = "other"]),
           [Base EXCEPT !.structs = <<Main, Tgt>>],
           [Base EXCEPT !.structs = Append(@, St("more", <<Id>>))]}

RoleVariants ==
  LET g(x) == [Roled EXCEPT !.structs[2].grants = x]
      a == Roled.structs[2].grants[1] b == Roled.structs[2].grants[2]
  IN {Roled, [Roled EXCEPT !.hasroles = 1, !.roles = <<>>, !.structs[2].grants = <<>>],
      [Roled EXCEPT !.roles[1].doc = <<"words">>], [Roled EXCEPT !.roles[2].parent = "all"],
      [Roled EXCEPT !.roles[2].parent = "rc"], [Roled EXCEPT !.roles[3].parent = "rb"],
      [Roled EXCEPT !.roles = Append(@, Role("rd", "rb"))],
      g(<<>>), g(<<a>>), g(<<b, a>>), g(<<[a EXCEPT !.roles = <<"rb">>], b>>),
      g(<<[a EXCEPT !.roles = <<"ra", "rc">>], b>>), g(<<[a EXCEPT !.roles = <<"default">>], b>>),
      g(<<[a EXCEPT !.roles = <<"all">>], b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>>>), Grant(<<"ra">>, <<<<"noexport", "txt">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>, <<"noexport", "num">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>, <<"noexport", "">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"all", "">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>, <<"noexport", "txt">>, <<"update", "ua">>>>), b>>),
      g(<<Grant(<<"ra">>, <<<<"search", "qa">>, <<"noexport", "txt">>, <<"delete", "da">>>>), b>>),
      g(<<a, [b EXCEPT !.roles = <<"ra">>]>>), g(<<a, [b EXCEPT !.roles = <<"rc", "ra">>]>>)}

All == SetToSeq({Base} \cup EnumVariants \cup BitsVariants \cup FieldVariants \cup OpVariants \cup RoleVariants)

ASSUME "VARIANTS" \in DOMAIN IOEnv => JsonSerialize(IOEnv.VARIANTS, All)

VARIABLES old, new
Init == old \in Idx(All) /\ new = old
Next == old' = old /\ new' \in Idx(All) /\ new = old
Spec == Init /\ [][Next]_<<old, new>>

(* What declares the same: up to the order of things that have no order.      *)
Unordered(m) ==
  [m EXCEPT
    !.enums = [n \in DOMAIN @ |-> [@[n] EXCEPT !.items = {@[i] : i \in Idx(@)}]],
    !.bits = [n \in DOMAIN @ |-> [@[n] EXCEPT !.items = {@[i] : i \in Idx(@)}]],
    !.structs = [n \in DOMAIN @ |->
      [@[n] EXCEPT !.queries = {@[i] : i \in Idx(@)}, !.updates = {@[i] : i \in Idx(@)},
                   !.deletes = {@[i] : i \in Idx(@)},
                   !.fields = <<IF m.structs[n].insert[1] = 1 THEN [i \in Idx(@) |-> @[i].name] ELSE <<>>,
                                {@[i] : i \in Idx(@)}>>]]]

Laws ==
  LET a == All[old] b == All[new] d == Diff(a, b) IN
  /\ Antisymmetric(a, b)
  /\ Sound(a, b)
  /\ (d = {}) <=> (Unordered(Meaning(a)) = Unordered(Meaning(b)))
  /\ (Telling(d) = {}) <=> (d = {})
  \* nothing is told twice, or of a pair and of one of them alone
  /\ \A x, y \in d : x[1] \in {"+", "-"} /\ y[1] \in {"=", "@"} => ~(x[4] # "" /\ x[4] = y[4] /\ x[2] = y[2])
                                                              /\ ~(x[5] # "" /\ x[5] = y[5] /\ x[2] = y[2])
  \* respects are given for pairs that differ, and only for those
  /\ \A x \in d : x[1] = "!" => <<"@", x[2], "", x[4], x[5]>> \in d
=============================================================================
