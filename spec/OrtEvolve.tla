------------------------------ MODULE OrtEvolve ------------------------------
(* An application's configuration over time: what ort-diff tells about a      *)
(* change, and what ort-sqldiff makes of a database that holds data.          *)
EXTENDS OrtDiff, OrtCatalogue

CONSTANT Configs
VARIABLES
  cur,      \* index of the configuration the database was last brought to
  cat,      \* its catalogue: [table -> [cols, uniq, refs]]
  rows      \* its content: [table -> set of <<rowid, [column -> value]>>]

evars == <<cur, cat, rows>>

(* --------------------- changes that cannot be migrated -------------------- *)
ValueChanged(a, b) ==
  \/ \E n \in Named(a.enums) \cap Named(b.enums) :
       LET e == EnumOf(a, n) f == EnumOf(b, n) IN
       \E i \in Idx(e.items) : /\ e.items[i].name \in Named(f.items)
                               /\ ItemValue(e, i) # ItemValue(f, ItemNamed(f, e.items[i].name))
  \/ \E n \in Named(a.bits) \cap Named(b.bits) :
       LET e == BitsOf(a, n) f == BitsOf(b, n) IN
       \E i \in Idx(e.items) : /\ e.items[i].name \in Named(f.items)
                               /\ e.items[i].bit # f.items[ItemNamed(f, e.items[i].name)].bit

SharedStructs(a, b) == StructNames(a) \cap StructNames(b)
SharedFields(a, b) ==
  UNION {{<<n, m>> : m \in FieldNames(StructOf(a, n)) \cap FieldNames(StructOf(b, n))}
         : n \in SharedStructs(a, b)}

FieldChanged(a, b) ==
  \E p \in SharedFields(a, b) :
    LET s == StructOf(a, p[1]) t == StructOf(b, p[1])
        f == FieldOf(s, p[2]) g == FieldOf(t, p[2])
    IN \/ f.type # g.type
       \/ f.aux # g.aux
       \/ f.rowid # g.rowid
       \/ f.null # g.null
       \/ <<f.actdel, f.actup>> # <<g.actdel, g.actup>>
       \/ f.ref # g.ref

RowidAdded(a, b) ==
  \E n \in SharedStructs(a, b) : \E f \in RangeOf(StructOf(b, n).fields) :
    f.rowid = 1 /\ f.name \notin FieldNames(StructOf(a, n))

Removal(a, b) ==
  \/ \E n \in Named(a.enums) : \/ n \notin Named(b.enums)
                               \/ Named(EnumOf(a, n).items) \ Named(EnumOf(b, n).items) # {}
  \/ \E n \in Named(a.bits) : \/ n \notin Named(b.bits)
                              \/ Named(BitsOf(a, n).items) \ Named(BitsOf(b, n).items) # {}
  \/ StructNames(a) \ StructNames(b) # {}
  \/ \E n \in SharedStructs(a, b) : \E f \in RangeOf(StructOf(a, n).fields) :
       Stored(f) /\ f.name \notin FieldNames(StructOf(b, n))

Incompatible(a, b, destruct) ==
  \/ ValueChanged(a, b) \/ FieldChanged(a, b) \/ RowidAdded(a, b)
  \/ destruct = 0 /\ Removal(a, b)

(* ----------------------------- the new schema ----------------------------- *)
NewCatalogue(a, b) ==
  [n \in StructNames(b) |->
     LET t == Table(StructOf(b, n)) IN
     IF n \notin StructNames(a) THEN t
     ELSE LET s == Table(StructOf(a, n))
          IN [cols |-> cat[n].cols \cup (t.cols \ s.cols),
              uniq |-> (cat[n].uniq \ s.uniq) \cup t.uniq,
              refs |-> cat[n].refs \cup (t.refs \ s.refs)]]

AddedFields(a, b, n) ==
  {f \in RangeOf(StructOf(b, n).fields) :
     Stored(f) /\ f.name \notin FieldNames(StructOf(a, n))}

(* Rows and values of what exists in both stay; new columns get the default.  *)
NewRows(a, b) ==
  [n \in StructNames(b) |->
     IF n \notin StructNames(a) THEN {}
     ELSE LET new == AddedFields(a, b, n)
              names == {f.name : f \in new}
          IN {<<r[1], [m \in DOMAIN r[2] \cup names |->
                         IF m \in DOMAIN r[2] THEN r[2][m]
                         ELSE DefaultValue(b, FieldOf(StructOf(b, n), m))]>>
              : r \in rows[n]}]

(* Content may stand in the way of a change of the schema.                    *)
InTheWay(a, b) ==
  \E n \in SharedStructs(a, b) :
    \/ /\ rows[n] # {}
       /\ \E f \in AddedFields(a, b, n) : \/ f.null = 0 /\ f.default = <<>>
                                          \/ f.ref # <<>> /\ f.default # <<>>
    \/ \E u \in Table(StructOf(b, n)).uniq \ Table(StructOf(a, n)).uniq :
         \E r, s \in NewRows(a, b)[n] :
           r # s /\ \A m \in u : ~IsNull(r[2][m]) /\ r[2][m] = s[2][m]

SameSchema(a, b) ==
  /\ StructNames(a) = StructNames(b)
  /\ \A n \in StructNames(a) : Table(StructOf(a, n)) = Table(StructOf(b, n))

(* -------------------------------- transitions ----------------------------- *)
(* A database is made with the output of ort-sql.                             *)
Create(obs) ==
  /\ obs = Catalogue(Configs[cur])
  /\ cat' = obs
  /\ UNCHANGED <<cur, rows>>

(* The application writes: whatever the content is now.                       *)
Fill(obs) == rows' = obs /\ UNCHANGED <<cur, cat>>

(* ort-diff compares the configuration with another.                          *)
Compare(to, status, entries) ==
  /\ entries = Diff(Configs[cur], Configs[to])
  /\ status = IF Telling(entries) = {} THEN 0 ELSE 1
  /\ UNCHANGED evars

(* ort-sqldiff finds that it cannot make a migration.                         *)
Refuse(to, destruct, status) ==
  /\ Incompatible(Configs[cur], Configs[to], destruct) = TRUE \* (as a value: no branching)
  /\ status = 1
  /\ UNCHANGED evars

(* ort-sqldiff prints a migration, which is run on the database.              *)
Migrate(to, destruct, status, empty, done, newcat, newrows) ==
  LET a == Configs[cur] b == Configs[to] IN
  /\ ~Incompatible(a, b, destruct)
  /\ status = 0
  /\ SameSchema(a, b) => empty = 1
  /\ \/ /\ done = "ok"
        /\ newcat = NewCatalogue(a, b)
        /\ newrows = NewRows(a, b)
        /\ cur' = to
     \/ /\ done = "fail"
        /\ InTheWay(a, b) = TRUE
        \* nothing that stays is lost even so
        /\ \A n \in SharedStructs(a, b) :
             {<<r[1], [m \in FieldNames(StructOf(a, n)) \cap DOMAIN r[2] |-> r[2][m]]>> : r \in newrows[n]} =
             {<<r[1], [m \in FieldNames(StructOf(a, n)) \cap DOMAIN r[2] |-> r[2][m]]>> : r \in rows[n]}
        /\ cur' = cur
  /\ cat' = newcat
  /\ rows' = newrows

(* --------------------------------- properties ----------------------------- *)
(* Of every step of every behaviour: data that stays declared is never lost.  *)
NothingLost ==
  cur' # cur =>
    \A n \in SharedStructs(Configs[cur], Configs[cur']) :
      /\ {r[1] : r \in rows'[n]} = {r[1] : r \in rows[n]}
      /\ \A r \in rows[n] : \E s \in rows'[n] :
           r[1] = s[1] /\ \A m \in DOMAIN r[2] : s[2][m] = r[2][m]
(* Whatever the new configuration declares is there.                          *)
SchemaReached ==
  \A n \in DOMAIN cat : n \in StructNames(Configs[cur]) =>
     LET t == Table(StructOf(Configs[cur], n)) IN
     /\ t.cols \subseteq cat[n].cols
     /\ t.refs \subseteq cat[n].refs
     /\ \A u \in t.uniq : u \in cat[n].uniq
=============================================================================
