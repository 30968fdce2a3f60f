---------------------------- MODULE OrtProgramMC -----------------------------
(* All ways of making a program of configurations that between them have      *)
(* every type with every operation that it may take part in.                  *)
(*                                                                           *)
(* The configurations and the ways of making programs of them are written to  *)
(* the file named by VARIANTS, so that the same are made of generated code    *)
(* and judged by OrtProgramTrace.                                            *)
EXTENDS OrtProgram, SequencesExt, Json, IOUtils

WF == INSTANCE OrtWellFormed WITH heard <- stage

Kinds == <<"search", "list", "iterate", "count">>
Ops == <<"eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull">>
Mods == <<"set", "inc", "dec", "concat", "strset">>
Types == <<"bit", "bits", "blob", "date", "email", "enum", "epoch", "int", "password", "real", "text">>

Item(n, v) == [name |-> n, num |-> v, doc |-> <<>>, labels |-> <<>>]
En == [name |-> "en", doc |-> <<>>, isnull |-> <<>>, items |-> <<Item("ia", <<>>), Item("ib", <<>>)>>]
Bi == [name |-> "bi", doc |-> <<>>, isnull |-> <<>>, isunset |-> <<>>,
       items |-> <<[name |-> "ba", bit |-> 0, num |-> <<I64Zero>>, doc |-> <<>>, labels |-> <<>>],
                   [name |-> "bb", bit |-> 63, num |-> <<I64AddN(I64Zero, 63)>>, doc |-> <<>>, labels |-> <<>>]>>]
Field(n, t) == [name |-> n, type |-> t, aux |-> CASE t = "enum" -> "en" [] t = "bits" -> "bi" [] OTHER -> "", null |-> 0,
                unique |-> 0, rowid |-> 0, noexport |-> 0, ref |-> <<>>, src |-> "", actdel |-> "none", actup |-> "none",
                limits |-> <<>>, default |-> <<>>, defv |-> <<>>, doc |-> <<>>, defaults |-> <<>>, acts |-> <<>>, docs |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
Null1(f, n) == [f EXCEPT !.null = n]
To(n, s) == [Field(n, "int") EXCEPT !.ref = <<<<s, "id">>>>]
Part(n, src) == [Field(n, "struct") EXCEPT !.src = src]
St(n, fs) == [name |-> n, fields |-> fs, insert |-> 1, queries |-> <<>>, updates |-> <<>>,
              deletes |-> <<>>, uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Cfg(sts) == [hasroles |-> 0, roles |-> <<>>, enums |-> <<En>>, bits |-> <<Bi>>, structs |-> sts]
Query(k, n, ts) == [kind |-> k, name |-> n, terms |-> ts, order |-> <<>>, limit |-> <<>>, offset |-> <<>>,
                    distinct |-> <<>>, group |-> <<>>, doc |-> <<>>]
Update(ms, cs) == [name |-> "", mods |-> ms, cons |-> cs, doc |-> <<>>]
Delete(cs) == [name |-> "", cons |-> cs, doc |-> <<>>]

(* What OrtWellFormed accepts.                                                *)
QueryOk(c, st, q) ==
  WF!QueryFaults(c, st, [kind |-> q.kind, names |-> <<>>, docs |-> <<>>, terms |-> q.terms, limits |-> <<>>,
                         order |-> [i \in Idx(q.order) |-> q.order[i][1]], distincts |-> q.distinct,
                         groups |-> [i \in Idx(q.group) |-> q.group[i][1]],
                         aggrs |-> [i \in Idx(q.group) |-> q.group[i][3]]]) = {}
UpdateOk(st, u) == WF!ModFaults(st, u.mods) = {} /\ WF!ConFaults(st, u.cons) = {}
DeleteOk(st, d) == WF!ConFaults(st, d.cons) = {}

(* A structure with everything that may be done with field "f" of it and of   *)
(* its part.                                                                 *)
Paths == <<<<"f">>, <<"sb", "f">>>>
Full(c0, st) ==
  LET c == [c0 EXCEPT !.structs[Len(c0.structs)] = st]
      plain == FlattenSeq2([k \in Idx(Kinds) |-> FlattenSeq2([p \in Idx(Paths) |-> [o \in Idx(Ops) |->
                 Query(Kinds[k], "", <<[path |-> Paths[p], op |-> Ops[o]]>>)]])])
      other == FlattenSeq2([k \in Idx(Kinds) |-> LET q == Query(Kinds[k], "", <<>>) IN
                 <<[q EXCEPT !.name = "qorder", !.order = <<<<Paths[1], "desc">>, <<Paths[2], "asc">>>>],
                   [q EXCEPT !.name = "qlimit", !.limit = <<1>>, !.offset = <<1>>],
                   [q EXCEPT !.name = "qoffset", !.offset = <<1>>, !.terms = IF q.kind = "search" THEN <<[path |-> <<"id">>, op |-> "eq"]>> ELSE <<>>],
                   [q EXCEPT !.name = "qtwo", !.terms = <<[path |-> <<"f">>, op |-> "eq"], [path |-> <<"sb", "id">>, op |-> "gt"]>>],
                   [q EXCEPT !.name = "qpart", !.distinct = <<<<"sb">>>>],
                   [q EXCEPT !.name = "qgroup", !.group = <<<<<<"f">>, "maxrow", <<"o">>>>>>],
                   [q EXCEPT !.name = "qgrouptwo", !.group = <<<<<<"o">>, "minrow", <<"f">>>>>>, !.terms = <<[path |-> <<"o">>, op |-> "gt"]>>]>>])
      named == FlattenSeq2([i \in Idx(other) |-> <<[other[i] EXCEPT !.name = @ \o other[i].kind]>>])
      ups == FlattenSeq2([m \in Idx(Mods) |-> [o \in Idx(Ops) |-> Update(<<<<"f", Mods[m]>>, <<"o", "set">>>>, <<<<"f", Ops[o]>>, <<"id", "eq">>>>)]])
             \o <<Update(<<<<"o", "inc">>>>, <<>>), Update(<<>>, <<<<"id", "eq">>>>)>>
      dels == [o \in Idx(Ops) |-> Delete(<<<<"f", Ops[o]>>>>)] \o <<Delete(<<>>)>>
  IN [st EXCEPT !.queries = SelectSeq(plain \o named, LAMBDA q : QueryOk(c, st, q)),
                !.updates = SelectSeq(ups, LAMBDA u : UpdateOk(st, u)),
                !.deletes = SelectSeq(dels, LAMBDA d : DeleteOk(st, d))]
Whole(t, n) ==
  LET f == Null1(Field("f", t), n)
      c == Cfg(<<St("sub", <<Id, f>>), St("main", <<Id, f, Field("o", "int"), To("sk", "sub"), Part("sb", "sk")>>)>>)
  IN [c EXCEPT !.structs[2] = Full(c, c.structs[2])]

(* Structures within structures, some of which may be missing.                *)
Get(n) == Query("search", "", <<[path |-> <<"id">>, op |-> "eq"]>>)
Nest(a, b, d) ==
  LET all == Query("list", "", <<>>)
      s(n, fs) == [St(n, <<Id, Field("v", "text")>> \o fs) EXCEPT !.queries = <<Get(n), all, Query("iterate", "", <<>>)>>]
  IN Cfg(<<s("one", <<>>), s("two", <<Null1(To("ak", "one"), a), Part("ap", "ak")>>),
           s("three", <<Null1(To("bk", "two"), b), Part("bp", "bk"), Null1(To("ck", "one"), d), Part("cp", "ck")>>)>>)
(* More parts than there are letters.                                         *)
Wide(n) ==
  LET num(k) == ToString(k)
      fs == FlattenSeq2([k \in 1..n |-> <<To("k" \o num(k), "leaf"), Part("p" \o num(k), "k" \o num(k))>>])
  IN Cfg(<<St("leaf", <<Id, Field("v", "text")>>),
           [St("tree", <<Id>> \o fs) EXCEPT !.queries = <<Get("tree"),
              Query("list", "", <<[path |-> <<"p" \o num(n), "v">>, op |-> "eq"], [path |-> <<"p1", "v">>, op |-> "like"]>>)>>]>>)
(* Every way four structures may be parts of one another, declared inner ones *)
(* first or last.                                                            *)
Knot(es, turned) ==
  LET n(i) == "k" \o ToString(i)
      parts(i) == SelectSeq(<<1, 2, 3>>, LAMBDA j : <<i, j>> \in es)
      st(i) == [St(n(i), <<Id>> \o FlattenSeq2([k \in Idx(parts(i)) |->
                  LET j == parts(i)[k] IN <<To("r" \o ToString(j), n(j)), Part("p" \o ToString(j), "r" \o ToString(j))>>]))
                  EXCEPT !.queries = <<Query("list", "", <<>>)>>]
  IN Cfg([i \in 1..4 |-> st(IF turned = 1 THEN 5 - i ELSE i)])
Knots == {Knot(es, turned) : es \in SUBSET {e \in (1..4) \X (1..3) : e[1] > e[2]}, turned \in {0, 1}}
(* Next to nothing.                                                           *)
Bare ==
  LET none == [St("bare", <<Id>>) EXCEPT !.insert = 0] IN
  {Cfg(<<none>>), Cfg(<<St("bare", <<Id>>)>>), Cfg(<<[St("bare", <<Field("v", "text")>>) EXCEPT !.insert = 0]>>),
   Cfg(<<[none EXCEPT !.queries = <<Query("count", "", <<>>)>>]>>), Cfg(<<[none EXCEPT !.deletes = <<Delete(<<>>)>>]>>),
   [Cfg(<<St("bare", <<Id>>)>>) EXCEPT !.enums = <<>>, !.bits = <<>>]}
(* Roles that may do some of it.                                              *)
Grants(r) ==
  LET st == [St("main", <<Id, Field("v", "text"), Field("w", "blob"), Null1(Field("x", "password"), 1)>>) EXCEPT
               !.queries = <<Query("search", "qa", <<[path |-> <<"id">>, op |-> "eq"]>>), Query("list", "qb", <<>>),
                             Query("iterate", "qc", <<>>), Query("count", "qd", <<>>)>>,
               !.updates = <<[Update(<<<<"v", "set">>>>, <<>>) EXCEPT !.name = "ua"]>>,
               !.deletes = <<[Delete(<<>>) EXCEPT !.name = "da"]>>]
      ops == <<<<"insert", "">>, <<"search", "qa">>, <<"list", "qb">>, <<"update", "ua">>, <<"delete", "da">>, <<"noexport", "v">>>>
  IN [Cfg(<<[st EXCEPT !.grants = r[2]], St("other", <<Id>>)>>) EXCEPT !.hasroles = 1, !.roles = r[1]]
Role(n, p) == [name |-> n, parent |-> p, doc |-> <<>>]
Grant(rs, ops) == [roles |-> rs, ops |-> ops]
Forests ==
  {<<<<>>, <<>>>>, <<<<Role("ra", "all")>>, <<>>>>,
   <<<<Role("ra", "all"), Role("rb", "ra"), Role("rc", "rb")>>, <<Grant(<<"ra">>, <<<<"insert", "">>, <<"search", "qa">>>>), Grant(<<"rc">>, <<<<"noexport", "v">>>>)>>>>,
   <<<<Role("ra", "all"), Role("rb", "all")>>, <<Grant(<<"all">>, <<<<"all", "">>>>), Grant(<<"rb">>, <<<<"noexport", "">>>>)>>>>,
   <<<<Role("ra", "all"), Role("rb", "ra"), Role("rc", "ra")>>, <<Grant(<<"rb", "rc">>, <<<<"list", "qb">>, <<"iterate", "qc">>, <<"count", "qd">>>>),
      Grant(<<"default">>, <<<<"update", "ua">>, <<"delete", "da">>>>), Grant(<<"rb">>, <<<<"noexport", "w">>, <<"noexport", "v">>>>)>>>>}

All ==
  [i \in 1..(2 * Len(Types)) |-> Whole(Types[((i + 1) \div 2)], i % 2)]
  \o SetToSeq({Nest(a, b, d) : a \in {0, 1}, b \in {0, 1}, d \in {0, 1}})
  \o <<Wide(3), Wide(30), Wide(60)>> \o SetToSeq(Bare) \o SetToSeq({Grants(r) : r \in Forests})
  \o SetToSeq(Knots)
AllConfigs == All

Sets == {us \in SUBSET Units : Complete(us) /\ Disjoint(us)}
ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS, [configs |-> All,
                                 programs |-> SetToSeq({{<<u.base, SetToSeq(u.flags)>> : u \in us} : us \in Sets})])

(* ------------------------------- behaviours ------------------------------- *)
Init == cur \in 1..Len(Configs) /\ units = {} /\ stage = "building"
Next ==
  \/ \E u \in Units : u \notin units /\ Disjoint(units \cup {u}) /\ Compile(u, Provides(Configs[cur], u), <<>>)
  \/ Link(Provided(Configs[cur], units), <<>>)
  \/ Prepare({Shape(s) : s \in Shapes(Configs[cur])} \cup Fetched(Configs[cur]))
Spec == Init /\ [][Next]_pvars

(* No two functions have the same name, and none that of a helper.            *)
OpCount(c) ==
  LET n(st) == st.insert + Len(st.queries) + Len(st.updates) + Len(st.deletes)
  IN FoldSeq(LAMBDA st, k : n(st) + k, 0, c.structs)
Apart(c) ==
  /\ Cardinality(FunctionNames(c)) = OpCount(c)
  /\ FunctionNames(c) \cap Helpers(c, Flags) = {}
(* A statement has a place for every argument that is not a password to be    *)
(* compared.                                                                 *)
Passwords(c, st, q) == {i \in Idx(q.terms) : Compared(PathField(c, st, q.terms[i].path), q.terms[i].op)}
Balanced(c) ==
  \A st \in RangeOf(c.structs) :
    /\ \A q \in RangeOf(st.queries) :
         QueryShape(c, st, q)[3] + Cardinality(Passwords(c, st, q)) = Len(QueryFn("c", c, st, q)[2])
    /\ \A u \in RangeOf(st.updates) : UpdateShape(st, u)[3] = Len(UpdateFn("c", st, u)[2])
    /\ \A d \in RangeOf(st.deletes) : DeleteShape(st, d)[3] = Len(DeleteFn("c", st, d)[2])
    /\ st.insert = 1 => \A lang \in {"c", "nodejs"} : Len(InsertFn(lang, st)[2]) = Len(InsertIx(st))
(* Units do not define what others do, and all of them together define all.   *)
Together ==
  LET c == Configs[cur] IN
  /\ \A u, w \in units : u # w => Provides(c, u) \cap Provides(c, w) = {}
  /\ {f \in Flags : \E u \in units : f \in u.flags} = Flags /\ Complete(units)
     => Provided(c, units) = FunctionNames(c) \cup Helpers(c, Flags)
Laws ==
  /\ Together
  /\ units = {} => Apart(Configs[cur]) /\ Balanced(Configs[cur])
=============================================================================
