------------------------------ MODULE OrtRuntime ------------------------------
(* The data layer that ort generates (C and Node.js) as a state machine.     *)
(*                                                                           *)
(* One action per public function of the generated interface.  Actions take  *)
(* the arguments and the observed outcome of a call ("res", and "obs" for    *)
(* the database content seen afterwards) and are enabled exactly when the    *)
(* interface may behave so.  Instances supply outcomes either from recorded  *)
(* executions (OrtRuntimeTrace) or by enumeration (OrtRuntimeMC).            *)
EXTENDS OrtValues, OrtConfig, SequencesExt

CONSTANT Configs          \* the configurations under study
VARIABLES
  cid,      \* index of the configuration of this behaviour
  open,     \* is there a connection?
  role,     \* its current role
  db,       \* [struct name -> set of rows]; a row is <<rowid, values>>
  tx,       \* [on, mode, snap, wrote]: the open transaction
  held      \* objects handed out: [handle -> [s, objs, role]]

vars == <<cid, open, role, db, tx, held>>
cfg == Configs[cid]

NoTx == [on |-> FALSE, mode |-> "", snap |-> <<>>, wrote |-> FALSE]

(* ---------------------------- database content --------------------------- *)
Val(st, row, n) == row[2][FieldIx(st, n)]
Ids(d, s) == {r[1] : r \in d[s]}

TargetRow(d, st, row, f) ==
  LET t == TargetOf(st, f)
      tst == StructOf(cfg, t[1])
      k == Val(st, row, f.src)
  IN CHOOSE r \in d[t[1]] : Val(tst, r, t[2]) = k

RECURSIVE PathVal(_, _, _, _)
PathVal(d, st, row, path) ==
  IF Len(path) = 1 THEN Val(st, row, path[1])
  ELSE LET f == FieldOf(st, path[1])
       IN PathVal(d, StructOf(cfg, TargetOf(st, f)[1]), TargetRow(d, st, row, f), Tail(path))

RECURSIVE PathRow(_, _, _, _)
PathRow(d, st, row, path) ==
  IF path = <<>> THEN row
  ELSE LET f == FieldOf(st, path[1])
       IN PathRow(d, StructOf(cfg, TargetOf(st, f)[1]), TargetRow(d, st, row, f), Tail(path))

(* The object for a row: its columns, and the objects it refers to.          *)
RECURSIVE ObjOf(_, _, _)
ObjOf(d, st, row) ==
  <<"o", [i \in 1..Len(st.fields) |->
     LET f == st.fields[i] IN
     IF Stored(f) THEN row[2][i]
     ELSE IF IsNull(Val(st, row, f.src)) THEN Null
     ELSE ObjOf(d, StructOf(cfg, TargetOf(st, f)[1]), TargetRow(d, st, row, f))]>>

RECURSIVE ObjVal(_, _, _)
ObjVal(st, obj, path) ==
  LET i == FieldIx(st, path[1]) IN
  IF Len(path) = 1 THEN obj[2][i]
  ELSE ObjVal(StructOf(cfg, TargetOf(st, st.fields[i])[1]), obj[2][i], Tail(path))

(* --------------------------- declared constraints ------------------------ *)
UniqueCols(st) ==
  {<<st.fields[i].name>> : i \in {j \in 1..Len(st.fields) :
      st.fields[j].unique = 1 \/ st.fields[j].rowid = 1}}
  \cup RangeOf(st.uniques)

UniqueOK(d) ==
  \A i \in 1..Len(cfg.structs) :
    LET st == cfg.structs[i] IN
    \A u \in UniqueCols(st) :
      \A r1, r2 \in d[st.name] :
        r1[1] # r2[1] =>
          \E k \in 1..Len(u) :
            LET v1 == Val(st, r1, u[k])
                v2 == Val(st, r2, u[k])
            IN IsNull(v1) \/ IsNull(v2) \/ v1 # v2

RefFields(st) == {i \in 1..Len(st.fields) : st.fields[i].ref # <<>>}

ForeignOK(d) ==
  \A i \in 1..Len(cfg.structs) :
    LET st == cfg.structs[i] IN
    \A j \in RefFields(st) :
      LET t == st.fields[j].ref[1]
          tst == StructOf(cfg, t[1])
      IN \A r \in d[st.name] :
           \/ IsNull(r[2][j])
           \/ \E q \in d[t[1]] : Val(tst, q, t[2]) = r[2][j]

NotNullOK(d) ==
  \A i \in 1..Len(cfg.structs) :
    LET st == cfg.structs[i] IN
    \A j \in 1..Len(st.fields) :
      (Stored(st.fields[j]) /\ st.fields[j].null = 0) =>
        \A r \in d[st.name] : ~IsNull(r[2][j])

Consistent(d) == UniqueOK(d) /\ ForeignOK(d) /\ NotNullOK(d)

(* Does the observed content fit the specified one (unknown salts aside)?    *)
DbFits(spec, obs) ==
  /\ DOMAIN obs = DOMAIN spec
  /\ \A s \in DOMAIN spec :
       /\ Cardinality(spec[s]) = Cardinality(obs[s])
       /\ \A r \in spec[s] \ obs[s] : \E q \in obs[s] :
            q[1] = r[1] /\ \A k \in 1..Len(r[2]) : Fits(r[2][k], q[2][k])

(* --------------------------------- insert -------------------------------- *)
NextId(d, s) ==
  IF d[s] = {} THEN I64One
  ELSE I64Add(CHOOSE m \in Ids(d, s) : \A x \in Ids(d, s) : Cmp(x, m) <= 0, I64One)

NewRow(st, args, id) ==
  LET ix == InsertIx(st)
      argOf(i) == args[CHOOSE k \in 1..Len(ix) : ix[k] = i]
  IN <<id, [i \in 1..Len(st.fields) |->
        LET f == st.fields[i] IN
        IF ~Stored(f) THEN NoCol
        ELSE IF f.rowid = 1 THEN id
        ELSE IF f.type = "password" /\ ~IsNull(argOf(i)) THEN HashOf(argOf(i)[2])
        ELSE argOf(i)]>>

InsertDb(d, st, args, id) == [d EXCEPT ![st.name] = @ \cup {NewRow(st, args, id)}]
InsertFails(d, st, args) == ~Consistent(InsertDb(d, st, args, NextId(d, st.name)))

(* --------------------------------- queries ------------------------------- *)
BinTerms(q) == SelectSeq(q.terms, LAMBDA t : ~Unary(t.op))
TermArg(q, args, i) ==
  IF Unary(q.terms[i].op) THEN Null
  ELSE args[Cardinality({j \in 1..i : ~Unary(q.terms[j].op)})]

Selected(d, st, q, args) ==
  {row \in d[st.name] :
     \A i \in 1..Len(q.terms) :
       CondHolds(PathField(cfg, st, q.terms[i].path).type, q.terms[i].op,
                 PathVal(d, st, row, q.terms[i].path), TermArg(q, args, i))}

(* grouprow: of all rows with the same group value, those with the largest   *)
(* (smallest) value of the other column.                                     *)
GroupKeeps(d, st, q, row) ==
  q.group = <<>> \/
  LET g == q.group[1] IN
  ~\E other \in d[st.name] :
     /\ PathVal(d, st, other, g[1]) = PathVal(d, st, row, g[1])
     /\ LET c == Cmp(PathVal(d, st, other, g[3]), PathVal(d, st, row, g[3]))
        IN IF g[2] = "maxrow" THEN c > 0 ELSE c < 0

Matching(d, st, q, args) ==
  {row \in Selected(d, st, q, args) : GroupKeeps(d, st, q, row)}

ResultStruct(st, q) ==
  IF q.distinct = <<>> THEN st ELSE PathStruct(cfg, st, q.distinct[1])

(* All objects a query selects, as a function from object to multiplicity.   *)
ResultBag(d, st, q, args) ==
  LET rows == Matching(d, st, q, args) IN
  IF q.distinct # <<>> THEN
    LET rst == ResultStruct(st, q)
        objs == {ObjOf(d, rst, PathRow(d, st, r, q.distinct[1])) : r \in rows}
    IN [o \in objs |-> 1]
  ELSE
    LET pairs == {<<r[1], ObjOf(d, st, r)>> : r \in rows}
        objs == {p[2] : p \in pairs}
    IN [o \in objs |-> Cardinality({p \in pairs : p[2] = o})]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
BagSize(b) == SumOver(b, DOMAIN b)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

KeyCmp(st, q, k1, k2) ==
  LET diff == {i \in 1..Len(q.order) : OrdCmp(k1[i], k2[i]) # 0} IN
  IF diff = {} THEN 0
  ELSE LET i == CHOOSE i \in diff : \A j \in diff : i <= j
       IN IF q.order[i][2] = "desc" THEN -OrdCmp(k1[i], k2[i]) ELSE OrdCmp(k1[i], k2[i])

KeyOf(st, q, obj) == [i \in 1..Len(q.order) |-> ObjVal(st, obj, q.order[i][1])]

RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE BagSeq(_, _)
BagSeq(b, S) ==
  IF S = {} THEN <<>>
  ELSE LET o == CHOOSE o \in S : TRUE IN Repeat(o, b[o]) \o BagSeq(b, S \ {o})

QLimit(q) == IF q.kind = "search" THEN 1
             ELSE IF q.limit = <<>> THEN -1 ELSE q.limit[1]
QOffset(q) == IF q.offset = <<>> THEN 0 ELSE q.offset[1]

(* Of so many rows or objects, those that limit and offset leave.             *)
Cut(q, total) ==
  LET left == Max2(0, total - QOffset(q))
  IN IF QLimit(q) < 0 THEN left ELSE Min2(QLimit(q), left)

(* May the query return the sequence "objs"?                                 *)
QueryAllows(d, st, q, args, objs) ==
  LET bag == ResultBag(d, st, q, args)
      total == BagSize(bag)
      n == Cut(q, total)
      count(o) == Cardinality({i \in 1..Len(objs) : objs[i] = o})
  IN /\ Len(objs) = n
     /\ \A i \in 1..Len(objs) : objs[i] \in DOMAIN bag
     /\ \A o \in RangeOf(objs) : count(o) <= bag[o]
     /\ q.order # <<>> =>
          LET keys == [i \in 1..total |-> KeyOf(st, q, BagSeq(bag, DOMAIN bag)[i])]
              sorted == SortSeq(keys, LAMBDA a, b : KeyCmp(st, q, a, b) < 0)
          IN \A i \in 1..n :
               KeyCmp(st, q, KeyOf(st, q, objs[i]), sorted[i + QOffset(q)]) = 0

CountIs(d, st, q, args) == Cut(q, BagSize(ResultBag(d, st, q, args)))

(* ------------------------ updates, deletes, actions ---------------------- *)
ConArg(cons, args, base, i) ==
  IF Unary(cons[i][2]) THEN Null
  ELSE args[base + Cardinality({j \in 1..i : ~Unary(cons[j][2])})]

ConSelected(d, st, cons, args, base) ==
  {row \in d[st.name] : \A i \in 1..Len(cons) :
     CondHolds(FieldOf(st, cons[i][1]).type, cons[i][2],
               Val(st, row, cons[i][1]), ConArg(cons, args, base, i))}

(* An update without modifiers sets every column but the row identifier.     *)
ModsOf(st, u) ==
  IF u.mods # <<>> THEN u.mods
  ELSE [k \in 1..Len(InsertIx(st)) |-> <<st.fields[InsertIx(st)[k]].name, "set">>]

ModRow(st, mods, args, row) ==
  LET newval(i) ==
        LET hits == {k \in 1..Len(mods) : mods[k][1] = st.fields[i].name} IN
        IF hits = {} THEN row[2][i]
        ELSE LET k == CHOOSE k \in hits : TRUE
             IN Modified(st.fields[i].type, mods[k][2], row[2][i], args[k])
      vals == [i \in 1..Len(st.fields) |-> newval(i)]
      rid == {i \in 1..Len(st.fields) : st.fields[i].rowid = 1}
  IN <<IF rid = {} THEN row[1] ELSE vals[CHOOSE i \in rid : TRUE], vals>>

(* Fields elsewhere that refer to struct s: <<struct, field index>>.         *)
Referrers(s) ==
  {<<x, j>> \in {<<cfg.structs[i].name, j>> : i \in 1..Len(cfg.structs), j \in 1..20} :
     /\ j <= Len(StructOf(cfg, x).fields)
     /\ StructOf(cfg, x).fields[j].ref # <<>>
     /\ StructOf(cfg, x).fields[j].ref[1][1] = s}

DefaultOf(f) == Null      \* runtime configurations declare no defaults

(* Rows deleted by ON DELETE CASCADE along with the rows in del, a set of    *)
(* <<struct, rowid>>.                                                        *)
RECURSIVE DelClosure(_, _)
DelClosure(d, del) ==
  LET more == UNION {
        LET s == x[1]
            tst == StructOf(cfg, s)
            row == CHOOSE r \in d[s] : r[1] = x[2]
        IN UNION {
             LET f == StructOf(cfg, rf[1]).fields[rf[2]]
                 k == Val(tst, row, f.ref[1][2])
             IN IF f.actdel # "cascade" \/ IsNull(k) THEN {}
                ELSE {<<rf[1], r[1]>> : r \in {q \in d[rf[1]] : q[2][rf[2]] = k}}
             : rf \in Referrers(s)}
        : x \in del}
  IN IF more \subseteq del THEN del ELSE DelClosure(d, del \cup more)

(* Key values that disappear with the deleted rows, seen through field rf.   *)
GoneKeys(d, del, s, rf) ==
  LET f == StructOf(cfg, rf[1]).fields[rf[2]]
      tst == StructOf(cfg, s)
  IN {Val(tst, r, f.ref[1][2]) : r \in {q \in d[s] : <<s, q[1]>> \in del}} \ {Null}

(* Outcome of deleting rows: v is "ok", "fail" or "either" (SQLite's order   *)
(* of work within the statement decides), d the content if it succeeds.      *)
DeleteOutcome(d, st, rows) ==
  LET del == DelClosure(d, {<<st.name, r[1]>> : r \in rows})
      hit(s, f, j, row) ==
        f.ref # <<>> /\ row[2][j] \in GoneKeys(d, del, f.ref[1][1], <<s, j>>)
      keep(s) == {r \in d[s] : <<s, r[1]>> \notin del}
      after == [s \in DOMAIN d |->
        LET sst == StructOf(cfg, s) IN
        {<<r[1], [j \in 1..Len(sst.fields) |->
            LET f == sst.fields[j] IN
            IF f.actdel \in {"nullify", "default"} /\ hit(s, f, j, r)
            THEN (IF f.actdel = "nullify" THEN Null ELSE DefaultOf(f)) ELSE r[2][j]]>>
         : r \in keep(s)}]
      restricted(set) == \E s \in DOMAIN d : \E r \in set[s] :
        \E j \in 1..Len(r[2]) :
          LET f == StructOf(cfg, s).fields[j]
          IN f.actdel = "restrict" /\ hit(s, f, j, r)
  IN [v |-> IF restricted([s \in DOMAIN d |-> keep(s)]) \/ ~Consistent(after) THEN "fail"
            ELSE IF restricted(d) THEN "either" ELSE "ok",
      d |-> after]

(* Outcome of changing "rows" of a struct by the modifiers "mods".             *)
UpdateRows(d, st, rows, mods, args) ==
  LET moved == {<<r, ModRow(st, mods, args, r)>> : r \in rows}
      plain == [d EXCEPT ![st.name] = (@ \ rows) \cup {m[2] : m \in moved}]
      collapsed == Cardinality(plain[st.name]) # Cardinality(d[st.name])
                   \/ \E a, b \in plain[st.name] : a # b /\ a[1] = b[1]
      \* old -> new values of key column n that changed
      keymoves(n) == {<<Val(st, m[1], n), Val(st, m[2], n)>> : m \in moved}
      changed(n) == {k \in keymoves(n) : k[1] # k[2] /\ ~IsNull(k[1])}
      rekey(f, v, n) ==
        LET c == {k \in changed(n) : k[1] = v} IN
        IF c = {} THEN v
        ELSE CASE f.actup = "cascade" -> (CHOOSE k \in c : TRUE)[2]
               [] f.actup = "nullify" -> Null
               [] f.actup = "default" -> DefaultOf(f)
               [] OTHER -> v
      after == [s \in DOMAIN plain |->
        LET sst == StructOf(cfg, s) IN
        {<<r[1], [j \in 1..Len(sst.fields) |->
            LET f == sst.fields[j] IN
            IF f.ref # <<>> /\ f.ref[1][1] = st.name
            THEN rekey(f, r[2][j], f.ref[1][2]) ELSE r[2][j]]>>
         : r \in plain[s]}]
      restricted(dd) == \E s \in DOMAIN dd : \E r \in dd[s] : \E j \in 1..Len(r[2]) :
        LET f == StructOf(cfg, s).fields[j]
        IN /\ f.ref # <<>> /\ f.ref[1][1] = st.name /\ f.actup = "restrict"
           /\ \E k \in changed(f.ref[1][2]) : k[1] = r[2][j]
      \* some row takes over a unique value that another updated row gives up
      overtakes == \E m1, m2 \in moved : m1 # m2 /\
        \E uq \in UniqueCols(st) : \A k \in 1..Len(uq) :
           /\ ~IsNull(Val(st, m1[2], uq[k]))
           /\ Val(st, m1[2], uq[k]) = Val(st, m2[1], uq[k])
      selfref == \E j \in RefFields(st) : st.fields[j].ref[1][1] = st.name
                   /\ changed(st.fields[j].ref[1][2]) # {}
  IN [v |-> IF collapsed THEN "fail"
            ELSE IF restricted(plain) \/ ~Consistent(after)
                 THEN (IF selfref THEN "either" ELSE "fail")
            ELSE IF restricted(d) \/ overtakes \/ selfref THEN "either" ELSE "ok",
      d |-> after]

UpdateOutcome(d, st, u, args) ==
  LET mods == ModsOf(st, u)
  IN UpdateRows(d, st, ConSelected(d, st, u.cons, args, Len(mods)), mods, args)

(* ---------------------------------- actions ------------------------------ *)
(* "obs" is the content of the database after the call; in a transaction, as *)
(* the connection itself sees it.                                            *)

Open(obs) ==
  /\ ~open
  /\ open' = TRUE
  /\ role' = "default"
  /\ obs = db
  /\ UNCHANGED <<cid, db, tx, held>>

(* What is left when the connection ends, orderly or not.                    *)
LoseConnection(obs) ==
  /\ open' = FALSE
  /\ role' = "none"
  /\ obs = (IF tx.on THEN tx.snap ELSE db)
  /\ db' = obs
  /\ tx' = NoTx
  /\ held' = <<>>
  /\ UNCHANGED cid

(* A refused request ends the process.                                       *)
Ended == {<<"abort">>, <<"exit">>}

Close(obs) == open /\ LoseConnection(obs)

ChangeRole(new, res, obs) ==
  /\ open
  /\ IF RoleMayChange(cfg, role, new)
     THEN /\ res = <<"void">>
          /\ role' = new
          /\ obs = db
          /\ UNCHANGED <<cid, open, db, tx, held>>
     ELSE res \in Ended /\ LoseConnection(obs)

CurrentRole(res) ==
  /\ open
  /\ res = role
  /\ UNCHANGED vars

(* A call that the current role was not granted.                             *)
Denied(st, kind, i) == ~Permitted(cfg, st, kind, OpName(st, kind, i), role)
DeniedCall(st, kind, i, res, obs) ==
  /\ open
  /\ Denied(st, kind, i)
  /\ res \in Ended
  /\ LoseConnection(obs)

Wrote == tx' = IF tx.on THEN [tx EXCEPT !.wrote = TRUE] ELSE tx

Insert(st, args, res, obs) ==
  /\ open
  /\ ~Denied(st, "insert", 1)
  /\ UNCHANGED <<cid, open, role, held>>
  /\ Wrote
  /\ db' = obs
  /\ IF InsertFails(db, st, args)
     THEN res = <<"fail">> /\ obs = db
     ELSE /\ res[1] = "id"
          /\ res[2] \notin Ids(db, st.name)
          /\ DbFits(InsertDb(db, st, args, res[2]), obs)

Query(st, i, args, res, obs, h) ==
  LET q == st.queries[i] IN
  /\ open
  /\ ~Denied(st, q.kind, i)
  /\ obs = db
  /\ UNCHANGED <<cid, open, role, db, tx>>
  /\ IF q.kind = "count"
     THEN /\ res = <<"count", CountIs(db, st, q, args)>>
          /\ UNCHANGED held
     ELSE /\ res[1] = "rows"
          /\ QueryAllows(db, st, q, args, res[2])
          /\ held' = (h :> [s |-> ResultStruct(st, q).name, objs |-> res[2],
                            role |-> role]) @@ held

Update(st, i, args, res, obs) ==
  /\ open
  /\ ~Denied(st, "update", i)
  /\ UNCHANGED <<cid, open, role, held>>
  /\ Wrote
  /\ db' = obs
  /\ LET o == UpdateOutcome(db, st, st.updates[i], args) IN
     \/ o.v \in {"ok", "either"} /\ res = <<"done">> /\ DbFits(o.d, obs)
     \/ o.v \in {"fail", "either"} /\ res = <<"fail">> /\ obs = db

(* A delete forbidden by a reference ends the process (C) or throws          *)
(* (Node.js); either way it changes nothing.                                 *)
Delete(st, i, args, res, obs) ==
  /\ open
  /\ ~Denied(st, "delete", i)
  /\ LET d == st.deletes[i]
         o == DeleteOutcome(db, st, ConSelected(db, st, d.cons, args, 0)) IN
     \/ /\ o.v \in {"ok", "either"} /\ res = <<"void">> /\ DbFits(o.d, obs)
        /\ db' = obs /\ Wrote
        /\ UNCHANGED <<cid, open, role, held>>
     \/ /\ o.v \in {"fail", "either"} /\ res = <<"throw">> /\ obs = db
        /\ Wrote /\ UNCHANGED <<cid, open, role, db, held>>
     \/ /\ o.v \in {"fail", "either"} /\ res = <<"exit">> /\ LoseConnection(obs)

Begin(mode, res, obs) ==
  /\ open /\ ~tx.on
  /\ res = <<"void">> /\ obs = db
  /\ tx' = [on |-> TRUE, mode |-> mode, snap |-> db, wrote |-> FALSE]
  /\ UNCHANGED <<cid, open, role, db, held>>

Commit(res, obs) ==
  /\ open /\ tx.on
  /\ res = <<"void">> /\ obs = db
  /\ tx' = NoTx
  /\ UNCHANGED <<cid, open, role, db, held>>

Rollback(res, obs) ==
  /\ open /\ tx.on
  /\ res = <<"void">> /\ obs = tx.snap
  /\ db' = tx.snap /\ tx' = NoTx
  /\ UNCHANGED <<cid, open, role, held>>

(* Another connection reads the database.                                    *)
Peek(res) ==
  /\ res = IF tx.on /\ tx.mode = "exclusive" THEN <<"busy">>
           ELSE <<"db", IF tx.on THEN tx.snap ELSE db>>
  /\ UNCHANGED vars

(* Another connection asks for the right to write.                           *)
OtherWriter(res) ==
  /\ res = IF tx.on /\ (tx.mode \in {"immediate", "exclusive"} \/ tx.wrote)
           THEN <<"busy">> ELSE <<"free">>
  /\ UNCHANGED vars

(* The JSON form of an object as exported for a role: <<"absent">> for what  *)
(* is withheld.                                                              *)
RECURSIVE Exported(_, _, _)
Exported(st, obj, r) ==
  <<"o", [i \in 1..Len(st.fields) |->
     LET f == st.fields[i] IN
     IF Withheld(cfg, st, f, r) THEN <<"absent">>
     ELSE IF Stored(f) \/ IsNull(obj[2][i]) THEN obj[2][i]
     ELSE Exported(StructOf(cfg, TargetOf(st, f)[1]), obj[2][i], r)]>>

Export(h, res) ==
  /\ open /\ h \in DOMAIN held
  /\ LET x == held[h]
         st == StructOf(cfg, x.s)
     IN res = [k \in 1..Len(x.objs) |-> Exported(st, x.objs[k], x.role)]
  /\ UNCHANGED vars

(* ------------------------------- properties ------------------------------ *)
PasswordsHashed ==      \* C06, when strset is not used
  \A i \in 1..Len(cfg.structs) : \A j \in 1..Len(cfg.structs[i].fields) :
    cfg.structs[i].fields[j].type = "password" =>
      \A r \in db[cfg.structs[i].name] : r[2][j][1] \in {"hash", "null"}

NeverInconsistent == Consistent(db)                               \* C05, C08

RolesOnlyDrop ==                                                  \* C02
  [][open /\ open' => RoleMayChange(cfg, role, role')]_vars

NothingLeftOpen ==                                                \* C07
  [][~open' /\ tx.on => db' = tx.snap]_vars
=============================================================================
