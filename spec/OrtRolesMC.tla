----------------------------- MODULE OrtRolesMC ------------------------------
(* All forests of a few roles, and for each a configuration in which every    *)
(* set of at most two roles is granted an operation, every single role an     *)
(* operation of every kind, all operations of a structure, and may not export *)
(* a field or a structure.                                                    *)
(*                                                                           *)
(* Here TLC explores what connections may do.  The configurations are written *)
(* to the file named by VARIANTS; with code generated of them every change of *)
(* role and every call is made by every role.                                *)
EXTENDS OrtRuntime, Json, IOUtils

Size == IF "ROLES" \in DOMAIN IOEnv THEN atoi(IOEnv.ROLES) ELSE 3
Names == <<"ra", "rb", "rc", "rd", "re">>

(* Parents in the order in which nested roles are written.                    *)
RECURSIVE Chain(_, _)
Chain(p, i) == IF i = 0 THEN {0} ELSE {i} \cup Chain(p, p[i])
RECURSIVE Forests(_)
Forests(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{Append(p, x) : x \in Chain(p, n - 1)} : p \in Forests(n - 1)}

Field(n, t) == [name |-> n, type |-> t, aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0, noexport |-> 0, ref |-> <<>>,
                src |-> "", actdel |-> "none", actup |-> "none", limits |-> <<>>, default |-> <<>>, defv |-> <<>>,
                doc |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
St(n, fs) == [name |-> n, fields |-> fs, insert |-> 1, queries |-> <<>>, updates |-> <<>>, deletes |-> <<>>,
              uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Qry(k, n) == [kind |-> k, name |-> n, terms |-> IF k = "search" THEN <<[path |-> <<"id">>, op |-> "eq"]>> ELSE <<>>,
                order |-> <<>>, limit |-> <<>>, offset |-> <<>>, distinct |-> <<>>, group |-> <<>>, doc |-> <<>>]
Upd(n) == [name |-> n, mods |-> <<<<"v", "inc">>>>, cons |-> <<<<"id", "eq">>>>, doc |-> <<>>]
Del(n) == [name |-> n, cons |-> <<<<"id", "eq">>>>, doc |-> <<>>]
Grant(rs, ops) == [roles |-> rs, ops |-> ops]
Everyone == <<"default", "all">>

Kinds == <<"search", "list", "iterate", "count", "update", "delete">>
(* Operations <<kind, name, roles>> as a structure that has them.             *)
With(st, ops) ==
  LET of(ks) == SelectSeq(ops, LAMBDA o : o[1] \in ks)
      q == of(RangeOf(Kinds) \ {"update", "delete"})
      u == of({"update"})
      d == of({"delete"})
      granted == SelectSeq(ops, LAMBDA o : o[3] # <<>>)
  IN [st EXCEPT !.queries = [i \in 1..Len(q) |-> Qry(q[i][1], q[i][2])],
                !.updates = [i \in 1..Len(u) |-> Upd(u[i][2])],
                !.deletes = [i \in 1..Len(d) |-> Del(d[i][2])],
                !.grants = [i \in 1..Len(granted) |-> Grant(granted[i][3], <<<<granted[i][1], granted[i][2]>>>>)]]
Each == [k \in 1..Len(Kinds) |-> <<Kinds[k], "op" \o Kinds[k], <<>>>>]

(* The configuration of a forest.                                             *)
Of(p) ==
  LET n == Len(p)
      declared == [i \in 1..n |-> Names[i]]
      who == <<"default", "all">> \o declared
      pairs == {<<who[i], who[j]>> : i \in 1..Len(who), j \in 1..Len(who)}
      two == SetToSeq({x \in pairs : \E i, j \in 1..Len(who) : i < j /\ x = <<who[i], who[j]>>})
      num(k) == ToString(k)
      one == FlattenSeq2([k \in 1..Len(Kinds) |-> [i \in 1..Len(who) |-> <<Kinds[k], "op" \o Kinds[k] \o num(i), <<who[i]>>>>]])
      more == [i \in 1..Len(two) |-> <<Kinds[(i % Len(Kinds)) + 1], "two" \o num(i), two[i]>>]
      nobody == [k \in 1..Len(Kinds) |-> <<Kinds[k], "none" \o Kinds[k], <<>>>>]
      v == Field("v", "int")
      main0 == With(St("main", <<Id, v>>), one \o more \o nobody)
      main == [main0 EXCEPT !.grants = @ \o <<Grant(Everyone, <<<<"insert", "">>>>)>>]
      \* everything granted to a role
      any == [i \in 1..Len(who) |->
                [With(St("any" \o num(i), <<Id, v>>), Each) EXCEPT !.grants = <<Grant(<<who[i]>>, <<<<"all", "">>>>)>>]]
      \* everything granted to a role, and something to another one
      mixed == SetToSeq({<<i, j>> : i \in 1..Len(who), j \in 3..Len(who)} \ {<<i, i>> : i \in 1..Len(who)})
      mix == [k \in 1..Len(mixed) |->
                [With(St("mix" \o num(k), <<Id, v>>), Each) EXCEPT !.grants =
                   <<Grant(<<who[mixed[k][1]]>>, <<<<"all", "">>>>),
                     Grant(<<who[mixed[k][2]]>>, <<<<"list", "oplist">>, <<"insert", "">>>>)>>]]
      \* inserts, by themselves
      ins == [i \in 1..Len(two) |-> [St("ins" \o num(i), <<Id, v>>) EXCEPT !.grants = <<Grant(two[i], <<<<"insert", "">>>>)>>]]
      \* fields withheld from roles, and the same within another structure
      free == <<<<"insert", "">>, <<"list", "oplist">>, <<"search", "opsearch">>, <<"iterate", "opiterate">>>>
      seen == [With(St("seen", <<Id>> \o [i \in 1..Len(who) |-> Field("f" \o num(i), "int")]
                                      \o [i \in 1..Len(two) |-> Field("g" \o num(i), "int")]), SubSeq(Each, 1, 3))
               EXCEPT !.grants = <<Grant(Everyone, free)>>
                  \o [i \in 1..Len(who) |-> Grant(<<who[i]>>, <<<<"noexport", "f" \o num(i)>>>>)]
                  \o [i \in 1..Len(two) |-> Grant(two[i], <<<<"noexport", "g" \o num(i)>>>>)]]
      hidden == [i \in 1..Len(who) |->
                  [With(St("hidden" \o num(i), <<Id, v>>), SubSeq(Each, 1, 3))
                   EXCEPT !.grants = <<Grant(Everyone, free), Grant(<<who[i]>>, <<<<"noexport", "">>>>)>>]]
      to(k, s) == <<[Field("r" \o num(k), "int") EXCEPT !.ref = <<<<s, "id">>>>, !.null = k % 2],
                    [Field("p" \o num(k), "struct") EXCEPT !.src = "r" \o num(k)]>>
      outer == [With(St("whole", <<Id>> \o to(1, "seen") \o to(2, "seen")
                          \o FlattenSeq2([i \in 1..Len(who) |-> to(2 + i, "hidden" \o num(i))])), SubSeq(Each, 1, 3))
                EXCEPT !.grants = <<Grant(Everyone, free), Grant(<<who[Len(who)]>>, <<<<"noexport", "p2">>>>)>>]
      decl(i) == [name |-> Names[i], parent |-> IF p[i] = 0 THEN "all" ELSE Names[p[i]], doc |-> <<>>]
  IN [hasroles |-> 1, roles |-> [i \in 1..n |-> decl(i)], enums |-> <<>>, bits |-> <<>>,
      structs |-> <<main>> \o any \o mix \o ins \o <<seen>> \o hidden \o <<outer>>]

All == SetToSeq({Of(p) : p \in UNION {Forests(n) : n \in 0..Size}})
AllConfigs == All
ASSUME "VARIANTS" \in DOMAIN IOEnv => JsonSerialize(IOEnv.VARIANTS, [configs |-> All])

(* ------------------------------- behaviours ------------------------------- *)
Everybody == Declared(cfg) \cup {"default", "none", "all"}
Init ==
  /\ cid \in 1..Len(Configs)
  /\ open = FALSE /\ role = "none" /\ tx = NoTx /\ held = <<>>
  /\ db = [s \in StructNames(cfg) |-> {}]

(* One row at a time is enough here.                                          *)
Ones(st) == [i \in 1..Len(InsertIx(st)) |-> I64One]
Studied == {st \in RangeOf(cfg.structs) : st.name \in {"any1", "any3", "mix2", "ins2", "seen"}}
Calls ==
  \E st \in Studied :
    \/ \E res \in Ended : DeniedCall(st, "insert", 1, res, db)
    \/ (\A s \in DOMAIN db : db[s] = {}) = TRUE /\ Insert(st, Ones(st), <<"id", I64One>>, InsertDb(db, st, Ones(st), I64One))
    \/ \E i \in 1..Len(st.queries) :
         LET q == st.queries[i]
             args == IF q.kind = "search" THEN <<I64One>> ELSE <<>>
         IN \/ DeniedCall(st, q.kind, i, <<"exit">>, db)
            \/ q.kind = "count" /\ Query(st, i, args, <<"count", Cardinality(db[st.name])>>, db, 1)
            \/ q.kind # "count" /\ \E o \in {<<>>} \cup {<<x>> : x \in DOMAIN ResultBag(db, st, q, args)} :
                 Query(st, i, args, <<"rows", o>>, db, 1)
    \/ \E i \in 1..Len(st.updates) : DeniedCall(st, "update", i, <<"exit">>, db)
    \/ \E i \in 1..Len(st.deletes) :
         \/ DeniedCall(st, "delete", i, <<"exit">>, db)
         \/ Delete(st, i, <<I64One>>, <<"void">>, DeleteOutcome(db, st, db[st.name]).d)
Next ==
  \/ Open(db) \/ Close(db)
  \/ \E r \in Everybody : \E res \in {<<"void">>, <<"exit">>} : ChangeRole(r, res, db)
  \/ Calls
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
Ops(st) ==
  {<<"insert", 1>>} \cup {<<st.queries[i].kind, i>> : i \in 1..Len(st.queries)}
  \cup {<<"update", i>> : i \in 1..Len(st.updates)} \cup {<<"delete", i>> : i \in 1..Len(st.deletes)}
May(c, r) ==
  UNION {{<<st.name, o>> : o \in {o \in Ops(st) : Permitted(c, st, o[1], OpName(st, o[1], o[2]), r)}} : st \in RangeOf(c.structs)}

(* Who is no longer "default" never gains anything, nobody who is "none" may  *)
(* do anything, and nobody becomes "all".  It is enough to look at this once. *)
NeverGains ==
  ~open /\ held = <<>> =>
    LET may == [r \in Everybody |-> May(cfg, r)] IN
    /\ \A r, s \in Everybody : r # "default" /\ RoleMayChange(cfg, r, s) => may[s] \subseteq may[r]
    /\ may["none"] = {}
Nobody == role # "all"
(* What somebody may see of an object is what they might when they got it.    *)
Kept ==
  \A h \in DOMAIN held : \A k \in 1..Len(held[h].objs) :
    LET x == Exported(StructOf(cfg, held[h].s), held[h].objs[k], held[h].role)
    IN \A i \in 1..Len(x[2]) :
         x[2][i] = <<"absent">> <=> Withheld(cfg, StructOf(cfg, held[h].s), StructOf(cfg, held[h].s).fields[i], held[h].role)
=============================================================================
