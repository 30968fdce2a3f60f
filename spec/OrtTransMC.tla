----------------------------- MODULE OrtTransMC ------------------------------
(* All short histories of transactions: of each kind, empty or not, with      *)
(* writes that succeed, fail, or reach into another structure, with changes   *)
(* of role and refused calls, and with the connection closed in any moment.   *)
(*                                                                           *)
(* TLC explores what they may do on all contents of a few rows.  The          *)
(* configurations and the histories are written to the file named by VARIANTS *)
(* and each history is replayed with generated code, with another connection  *)
(* looking at the database, and asking to write, after every step.            *)
EXTENDS OrtRuntime, Json, IOUtils

Steps == IF "STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.STEPS) ELSE 4

Field(n, t) == [name |-> n, type |-> t, aux |-> "", null |-> 0, unique |-> 0, rowid |-> 0, noexport |-> 0, ref |-> <<>>,
                src |-> "", actdel |-> "none", actup |-> "none", limits |-> <<>>, default |-> <<>>, defv |-> <<>>,
                doc |-> <<>>]
Id == [Field("id", "int") EXCEPT !.rowid = 1]
St(n, fs) == [name |-> n, fields |-> fs, insert |-> 1, queries |-> <<>>, updates |-> <<>>, deletes |-> <<>>,
              uniques |-> <<>>, grants |-> <<>>, doc |-> <<>>]
Grant(rs, ops) == [roles |-> rs, ops |-> ops]
Whole == [kind |-> "list", name |-> "all", terms |-> <<>>, order |-> <<>>, limit |-> <<>>, offset |-> <<>>,
          distinct |-> <<>>, group |-> <<>>, doc |-> <<>>]
Bump == [name |-> "bump", mods |-> <<<<"v", "inc">>>>, cons |-> <<<<"v", "le">>>>, doc |-> <<>>]
Drop(op) == [name |-> "drop" \o op, cons |-> <<<<"v", op>>>>, doc |-> <<>>]

Of(roles) ==
  LET a == [St("owner", <<Id, [Field("v", "int") EXCEPT !.unique = 1]>>)
            EXCEPT !.queries = <<Whole>>, !.updates = <<Bump>>, !.deletes = <<Drop("eq"), Drop("ge")>>]
      b == St("owned", <<Id, [Field("a", "int") EXCEPT !.ref = <<<<"owner", "id">>>>, !.actdel = "cascade"]>>)
      gs(ops) == IF roles = 0 THEN <<>> ELSE <<Grant(<<"default">>, <<<<"all", "">>>>), Grant(<<"ra">>, ops)>>
  IN [hasroles |-> roles, roles |-> IF roles = 1 THEN <<[name |-> "ra", parent |-> "all", doc |-> <<>>]>> ELSE <<>>,
      enums |-> <<>>, bits |-> <<>>,
      structs |-> <<[a EXCEPT !.grants = gs(<<<<"insert", "">>, <<"list", "all">>>>)], [b EXCEPT !.grants = gs(<<<<"insert", "">>>>)]>>]
All == <<Of(0), Of(1)>>
AllConfigs == All

(* ------------------------------- histories -------------------------------- *)
(* Steps by name: begin one of three ways, end, write, ask, change role.      *)
Modes == <<"immediate", "deferred", "exclusive">>
Writes == <<"one", "two", "part", "bump", "drop">>
Refusable == {"bump", "drop"}     \* not granted to ra
(* The steps which may follow in the state <<within a transaction, role>>,    *)
(* and the state after; <<>> once the connection has ended.                   *)
Follow(n, s) ==
  (IF s[1] THEN {"commit", "rollback"} ELSE {Modes[i] : i \in 1..3})
  \cup {Writes[i] : i \in 1..Len(Writes)} \cup {"shut"}
  \cup (IF n = 2 /\ s[2] = "default" THEN {"ra"} ELSE {})
After(n, s, x) ==
  IF x = "shut" \/ (s[2] = "ra" /\ x \in Refusable) THEN <<>>
  ELSE IF x \in {"commit", "rollback"} THEN <<FALSE, s[2]>>
  ELSE IF x \in {Modes[i] : i \in 1..3} THEN <<TRUE, s[2]>>
  ELSE IF x = "ra" THEN <<s[1], "ra">> ELSE s
RECURSIVE Histories(_, _, _)
Histories(n, s, k) ==
  IF k = 0 \/ s = <<>> THEN {<<>>}
  ELSE UNION {{<<x>> \o t : t \in Histories(n, After(n, s, x), k - 1)} : x \in Follow(n, s)}
ASSUME "VARIANTS" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VARIANTS,
    [configs |-> All, histories |-> [n \in 1..2 |-> SetToSeq(Histories(n, <<FALSE, "default">>, Steps))]])

(* ------------------------------- behaviours ------------------------------- *)
N(n) == I64Add(I64Zero, <<"i", TopBit, 0, n>>)
RowIds == {N(i) : i \in 1..(IF "ROWS" \in DOMAIN IOEnv THEN atoi(IOEnv.ROWS) ELSE 2)}
A == cfg.structs[1]
Bs == cfg.structs[2]
Init ==
  /\ cid \in 1..2
  /\ open = FALSE /\ role = "none" /\ tx = NoTx /\ held = <<>>
  /\ db = [s \in StructNames(cfg) |-> {}]
Fresh(s) == {i \in RowIds : i \notin Ids(db, s)}
Puts(st, args) ==
  \/ Insert(st, args, <<"fail">>, db)
  \/ \E i \in Fresh(st.name) : (InsertFails(db, st, args) = FALSE) /\ Insert(st, args, <<"id", i>>, InsertDb(db, st, args, i))
Updates ==
  LET o == UpdateOutcome(db, A, A.updates[1], <<N(1), N(2)>>) IN
  \/ Update(A, 1, <<N(1), N(2)>>, <<"fail">>, db)
  \/ o.v # "fail" /\ Update(A, 1, <<N(1), N(2)>>, <<"done">>, o.d)
Drops ==
  \E i \in 1..2 :
    LET o == DeleteOutcome(db, A, ConSelected(db, A, A.deletes[i].cons, <<N(1)>>, 0)) IN
    o.v # "fail" /\ Delete(A, i, <<N(1)>>, <<"void">>, o.d)
Refused ==
  \/ DeniedCall(A, "update", 1, <<"exit">>, IF tx.on THEN tx.snap ELSE db)
  \/ DeniedCall(A, "delete", 1, <<"exit">>, IF tx.on THEN tx.snap ELSE db)
Next ==
  \/ Open(db) \/ Close(IF tx.on THEN tx.snap ELSE db)
  \/ \E i \in 1..3 : Begin(Modes[i], <<"void">>, db)
  \/ Commit(<<"void">>, db) \/ Rollback(<<"void">>, tx.snap)
  \/ open /\ cid = 2 /\ ChangeRole("ra", <<"void">>, db)
  \/ Puts(A, <<N(1)>>) \/ Puts(A, <<N(2)>>) \/ Puts(Bs, <<N(1)>>)
  \/ Updates \/ Drops \/ Refused
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
Seen == IF tx.on THEN tx.snap ELSE db       \* by everybody else
(* Others see what was written when it is committed, at once or not at all.   *)
AllOrNothing ==
  [][tx.on => /\ tx'.on => tx'.snap = tx.snap
              /\ ~tx'.on => db' \in {db, tx.snap}]_vars
Unseen == [][tx.on /\ tx'.on => Seen' = Seen]_vars
(* Outside of a transaction nobody sees anything else.                        *)
Plain == ~tx.on => Seen = db
(* Who may not write is not in the way, and who must not be in the way may.   *)
OneWriter ==
  ENABLED OtherWriter(<<"free">>) => ~tx.on \/ db = tx.snap
SeenConsistent == Consistent(Seen)
=============================================================================
