----------------------------- MODULE OrtTypesMC ------------------------------
(* Every type of field, null or not, with every operator that may constrain   *)
(* it (in the structure or in one it refers to) and every way to modify it.   *)
(*                                                                           *)
(* TLC looks at all contents of a few rows with values of a small set.  The   *)
(* configurations and values are written to the file named by VARIANTS; with  *)
(* generated code all operations are called with all values, on rows of all   *)
(* values.                                                                   *)
EXTENDS OrtRuntime, Json, IOUtils

WF == INSTANCE OrtWellFormed WITH heard <- open

OpNames == <<"eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull">>
ModNames == <<"set", "inc", "dec", "concat", "strset">>
Kinds == <<"search", "list", "iterate", "count">>
Types == <<"bit", "bits", "blob", "date", "email", "enum", "epoch", "int", "password", "real", "text">>

I(n) == IF n >= 0 THEN I64Add(I64Zero, <<"i", TopBit, n \div Limb, n % Limb>>)
        ELSE I64Sub(I64Zero, <<"i", TopBit, (-n) \div Limb, (-n) % Limb>>)
T(s) == <<"t", s>>
Values(t) ==
  CASE t = "bit" -> <<I(0), I(1), I(3), I(63)>>
    [] t = "bits" -> <<I(0), I(1), <<"i", 0, 0, 0>>, <<"i", 0, 0, 1>>>>
    [] t \in {"date", "epoch"} -> <<I(0), I(86399), I(-1), <<"i", TopBit, 60000, 1>>>>
    [] t = "enum" -> <<I(0), I(7), I(-3)>>
    [] t = "int" -> <<I(0), I(1), I(-1), <<"i", TopBit, 1024, 1>>, <<"i", TopLimb - 1, Limb - 1, Limb - 2>>, <<"i", 0, 0, 2>>>>
    [] t = "real" -> <<<<"r", 0>>, <<"r", 64>>, <<"r", -96>>, <<"r", 1>>>>
    [] t = "blob" -> <<<<"b", <<0>>>>, <<"b", <<97>>>>, <<"b", <<97, 0, 255>>>>, <<"b", <<39>>>>>>
    [] t = "email" -> <<T(<<97, 64, 98, 46, 99, 104>>), T(<<65, 64, 98, 46, 99, 104>>), T(<<120, 64, 121, 46, 111, 114, 103>>)>>
    [] t = "password" -> <<T(<<112, 119>>), T(<<80, 119>>), T(<<112, 119, 32>>)>>
    [] t = "text" -> <<T(<<>>), T(<<97>>), T(<<65>>), T(<<97, 98>>), T(<<37>>), T(<<233>>), T(<<97, 95>>)>>

Item(n, v) == [name |-> n, num |-> v, doc |-> <<>>, labels |-> <<>>]
En == [name |-> "en", doc |-> <<>>, isnull |-> <<>>, items |-> <<Item("ia", <<I(0)>>), Item("ib", <<I(7)>>), Item("ic", <<I(-3)>>)>>]
Bi == [name |-> "bi", doc |-> <<>>, isnull |-> <<>>, isunset |-> <<>>,
       items |-> <<[name |-> "ba", bit |-> 0, num |-> <<I(0)>>, doc |-> <<>>, labels |-> <<>>],
                   [name |-> "bb", bit |-> 63, num |-> <<I(63)>>, doc |-> <<>>, labels |-> <<>>]>>]
Field(n, t) == [name |-> n, type |-> t, aux |-> CASE t = "enum" -> "en" [] t = "bits" -> "bi" [] OTHER -> "", null |-> 0,
                unique |-> 0, rowid |-> 0, noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
                limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>, defaults |-> <<>>, acts |-> <<>>, docs |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
To(n, s) == [Field(n, "int") EXCEPT !.ref = <<<<s, "id">>>>]
Part(n, src) == [Field(n, "struct") EXCEPT !.src = src]
St(n, fs) == [name |-> n, fields |-> fs, insert |-> 1, queries |-> <<>>, updates |-> <<>>,
              deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Cfg(sts) == [hasroles |-> 0, roles |-> <<>>, enums |-> <<En>>, bits |-> <<Bi>>, structs |-> sts]
Qry(k, ts) == [kind |-> k, name |-> "", terms |-> ts, order |-> <<>>, limit |-> <<>>, offset |-> <<>>,
               distinct |-> <<>>, group |-> <<>>, doc |-> <<>>]
Upd(ms, cs) == [name |-> "", mods |-> ms, cons |-> cs, doc |-> <<>>]
Del(cs) == [name |-> "", cons |-> cs, doc |-> <<>>]

QueryOk(c, st, q) ==
  WF!QueryFaults(c, st, [kind |-> q.kind, names |-> <<>>, docs |-> <<>>, terms |-> q.terms, limits |-> <<>>,
                         order |-> <<>>, distincts |-> q.distinct, groups |-> <<>>, aggrs |-> <<>>]) = {}
UpdateOk(st, u) == WF!ModFaults(st, u.mods) = {} /\ WF!ConFaults(st, u.cons) = {}
DeleteOk(st, d) == WF!ConFaults(st, d.cons) = {}

Idx(s) == 1..Len(s)
Paths == <<<<"f">>, <<"sb", "f">>>>
Of(t, n) ==
  LET f == [Field("f", t) EXCEPT !.null = n]
      st == St("main", <<Id, f, Field("o", "int"), To("sk", "sub"), Part("sb", "sk")>>)
      c == Cfg(<<St("sub", <<Id, f>>), st>>)
      qs == FlattenSeq2([k \in Idx(Kinds) |-> FlattenSeq2([p \in Idx(Paths) |-> [o \in Idx(OpNames) |->
              Qry(Kinds[k], <<[path |-> Paths[p], op |-> OpNames[o]]>>)]])])
      \* f twice, on either side of the other
      two == FlattenSeq2([k \in Idx(Kinds) |->
               <<[Qry(Kinds[k], <<[path |-> <<"f">>, op |-> "eq"], [path |-> <<"sb", "f">>, op |-> "eq"], [path |-> <<"o">>, op |-> "ge"]>>) EXCEPT !.name = "twoa" \o Kinds[k]],
                 [Qry(Kinds[k], <<[path |-> <<"o">>, op |-> "le"], [path |-> <<"sb", "f">>, op |-> "neq"], [path |-> <<"f">>, op |-> "neq"]>>) EXCEPT !.name = "twob" \o Kinds[k]]>>])
      order == [Qry("list", <<>>) EXCEPT !.name = "ord", !.order = <<<<<<"f">>, "desc">>, <<<<"sb", "f">>, "asc">>, <<<<"id">>, "asc">>>>]
      us == [m \in Idx(ModNames) |-> Upd(<<<<"f", ModNames[m]>>>>, <<<<"id", "eq">>>>)]
            \o [m \in Idx(ModNames) |-> [Upd(<<<<"f", ModNames[m]>>, <<"o", "set">>>>, <<<<"o", "eq">>, <<"f", "neq">>>>) EXCEPT !.name = "pair" \o ModNames[m]]]
            \o [o \in Idx(OpNames) |-> Upd(<<<<"o", "inc">>>>, <<<<"f", OpNames[o]>>>>)]
      ds == [o \in Idx(OpNames) |-> Del(<<<<"f", OpNames[o]>>>>)]
      \* searches are for single rows: one by its password needs another term
      single(q) == IF t = "password" /\ q.kind = "search" THEN [q EXCEPT !.terms = @ \o <<[path |-> <<"id">>, op |-> "eq"]>>] ELSE q
      onerow(s) == [i \in Idx(s) |-> single(s[i])]
  IN [c EXCEPT !.structs[2].queries = SelectSeq(onerow(qs \o two) \o (IF t = "password" THEN <<>> ELSE <<order>>), LAMBDA q : QueryOk(c, st, q)),
               !.structs[2].updates = SelectSeq(us, LAMBDA u : UpdateOk(st, u)),
               !.structs[2].deletes = SelectSeq(ds, LAMBDA d : DeleteOk(st, d)) \o <<Del(<<<<"id", "eq">>>>)>>]

Count == 2 * Len(Types)
TypeAt(i) == Types[((i + 1) \div 2)]
All == [i \in 1..Count |-> Of(TypeAt(i), i % 2)]
AllConfigs == All
(* What a column may hold: passwords are also kept as they are (strset).      *)
Stored0 == [i \in 1..Count |->
  (IF i % 2 = 1 THEN <<Null>> ELSE <<>>) \o
  LET vs == Values(TypeAt(i)) IN
  IF TypeAt(i) = "password" THEN [k \in Idx(vs) |-> <<"hash", <<1>>, vs[k][2]>>] \o <<vs[1]>> ELSE vs]
ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> All, types |-> [i \in 1..Count |-> TypeAt(i)],
                                 values |-> [i \in 1..Count |-> Values(TypeAt(i))]])

(* ------------------------------- contents --------------------------------- *)
Row(id, v, w) == <<I(id), IF w = 0 THEN <<I(id), v>> ELSE <<I(id), v, I(id), I(w), NoCol>>>>
Init ==
  /\ cid \in 1..Count
  /\ open = TRUE /\ role = "default" /\ tx = NoTx /\ held = <<>>
  /\ db = [s \in StructNames(cfg) |-> {}]
Next ==
  /\ db["sub"] = {}
  /\ \E a, b, x \in RangeOf(Stored0[cid]) :
       db' = [sub |-> {Row(1, x, 0)}, main |-> {Row(1, a, 1), Row(2, b, 1)}]
  /\ UNCHANGED <<cid, open, role, tx, held>>
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws ----------------------------------- *)
Main == StructOf(cfg, "main")
Type == TypeAt(cid)
Vals == RangeOf(Values(Type))
Pick(op, path, arg) ==
  Selected(db, Main, Qry("list", <<[path |-> path, op |-> op]>>), IF Unary(op) THEN <<>> ELSE <<arg>>)
Offered(c) == {x.terms[1] : x \in {q \in RangeOf(StructOf(c, "main").queries) : q.kind = "list" /\ Len(q.terms) = 1}}
OpsAts == [i \in 1..Count |-> LET o == Offered(All[i]) IN
            [n \in 1..2 |-> {x.op : x \in {y \in o : y.path = Paths[n]}}]]
Settable == [i \in 1..Count |-> \E u \in RangeOf(StructOf(All[i], "main").updates) : u.mods = <<<<"f", "set">>>>]
Split(ops, path, op1, op2, arg, whole) ==
  {op1, op2} \subseteq ops =>
    /\ Pick(op1, path, arg) \cap Pick(op2, path, arg) = {}
    /\ Pick(op1, path, arg) \cup Pick(op2, path, arg) = whole
Laws == db["sub"] # {} =>
  \A p \in RangeOf(Paths) :
    LET ops == OpsAts[cid][Len(p)]
        nonnull == {r \in db["main"] : ~IsNull(PathVal(db, Main, r, p))} IN
    /\ Split(ops, p, "isnull", "notnull", Null, db["main"])
    /\ \A v \in Vals :
         /\ \A pair \in {<<"eq", "neq">>, <<"lt", "ge">>, <<"gt", "le">>, <<"streq", "strneq">>} :
              Split(ops, p, pair[1], pair[2], v, nonnull)
         /\ Pick("lt", p, v) \cup Pick("eq", p, v) = Pick("le", p, v) \/ "lt" \notin ops
         /\ Pick("gt", p, v) \cup Pick("eq", p, v) = Pick("ge", p, v) \/ "lt" \notin ops
         /\ "and" \in ops => Pick("and", p, v) \subseteq Pick("or", p, v)
         /\ "like" \in ops => Pick("like", p, T(<<37>>)) = nonnull
    /\ \A op \in ops : ~Unary(op) => Pick(op, p, Null) = {}
(* What has just been set is found.                                           *)
SetIsFound ==
  Settable[cid] /\ db["sub"] # {} =>
  \A v \in Vals : \A n \in 1..2 :
    LET u == Upd(<<<<"f", "set">>>>, <<<<"id", "eq">>>>)
        o == UpdateOutcome(db, Main, u, <<v, I(n)>>)
    IN /\ o.v = "ok"
       /\ {r \in o.d["main"] : r[1] = I(n)} \subseteq Selected(o.d, Main, Qry("list", <<[path |-> <<"f">>, op |-> "eq"]>>), <<v>>)
       /\ {r \in o.d["main"] : r[1] # I(n)} = {r \in db["main"] : r[1] # I(n)}
       /\ o.d["sub"] = db["sub"]
(* Numbers: what is added and taken away again.                               *)
IncDec ==
  Type \in {"int", "real", "epoch", "date"} =>
    \A v, w \in Vals : Modified(Type, "dec", Modified(Type, "inc", v, w), w) = v
=============================================================================
