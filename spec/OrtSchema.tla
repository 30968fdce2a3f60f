------------------------------ MODULE OrtSchema ------------------------------
(* The SQL schema that a configuration denotes: its catalogue, and how the    *)
(* tables answer to plain SQL statements.                                    *)
EXTENDS OrtRuntime, OrtCatalogue

(* -------------------------- plain SQL statements ------------------------- *)
(* INSERT of the given columns, "given" being a sequence of <<field, value>>;*)
(* a column left out is null, the row identifier is made up if not given.     *)
RawVal(given, n) ==
  LET hit == {k \in 1..Len(given) : given[k][1] = n}
  IN IF hit = {} THEN Null ELSE given[CHOOSE k \in hit : TRUE][2]

RawRow(st, given, id) ==
  <<id, [i \in 1..Len(st.fields) |->
     LET f == st.fields[i] IN
     IF ~Stored(f) THEN NoCol ELSE IF f.rowid = 1 THEN id ELSE RawVal(given, f.name)]>>

RawInsertDb(d, st, given, id) == [d EXCEPT ![st.name] = @ \cup {RawRow(st, given, id)}]

GivenId(st, given) ==
  LET r == {i \in 1..Len(st.fields) : st.fields[i].rowid = 1}
  IN IF r = {} THEN Null ELSE RawVal(given, st.fields[CHOOSE i \in r : TRUE].name)

SqlInsert(st, given, res, obs) ==
  LET gid == GivenId(st, given)
      fresh == IF IsNull(gid) THEN NextId(db, st.name) ELSE gid
      bad == fresh \in Ids(db, st.name) \/ ~Consistent(RawInsertDb(db, st, given, fresh))
  IN /\ db' = obs
     /\ IF bad THEN res = <<"fail">> /\ obs = db
        ELSE /\ res[1] = "id"
             /\ IF IsNull(gid) THEN res[2] \notin Ids(db, st.name) ELSE res[2] = gid
             /\ obs = RawInsertDb(db, st, given, res[2])
     /\ UNCHANGED <<cid, open, role, tx, held>>

RowsAt(d, st, id) == {r \in d[st.name] : r[1] = id}

SqlUpdate(st, id, given, res, obs) ==
  LET mods == [k \in 1..Len(given) |-> <<given[k][1], "strset">>]
      args == [k \in 1..Len(given) |-> given[k][2]]
      o == UpdateRows(db, st, RowsAt(db, st, id), mods, args)
  IN /\ \/ o.v \in {"ok", "either"} /\ res = <<"done">> /\ obs = o.d
        \/ o.v \in {"fail", "either"} /\ res = <<"fail">> /\ obs = db
     /\ db' = obs
     /\ UNCHANGED <<cid, open, role, tx, held>>

SqlDelete(st, id, res, obs) ==
  LET o == DeleteOutcome(db, st, RowsAt(db, st, id))
  IN /\ \/ o.v \in {"ok", "either"} /\ res = <<"done">> /\ obs = o.d
        \/ o.v \in {"fail", "either"} /\ res = <<"fail">> /\ obs = db
     /\ db' = obs
     /\ UNCHANGED <<cid, open, role, tx, held>>

Catalogued(cat) ==
  /\ cat = Catalogue(cfg)
  /\ UNCHANGED vars
=============================================================================
