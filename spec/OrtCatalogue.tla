---------------------------- MODULE OrtCatalogue -----------------------------
(* The SQL catalogue that a configuration denotes.                            *)
EXTENDS OrtConfig

StorageType(t) ==
  CASE t \in {"bit", "date", "epoch", "int", "enum", "bits"} -> "INTEGER"
    [] t = "real" -> "REAL"
    [] t = "blob" -> "BLOB"
    [] t \in {"text", "password", "email"} -> "TEXT"

SqlAction(a) ==
  CASE a = "none" -> "NO ACTION" [] a = "restrict" -> "RESTRICT"
    [] a = "nullify" -> "SET NULL" [] a = "cascade" -> "CASCADE"
    [] a = "default" -> "SET DEFAULT"

StoredFields(st) == {i \in 1..Len(st.fields) : Stored(st.fields[i])}

(* Table: columns as <<name, type, notnull, pk>>, unique sets of columns and  *)
(* references as <<column, table, column, on update, on delete>>.            *)
Table(st) ==
  [cols |-> {LET f == st.fields[i] IN
               <<f.name, StorageType(f.type),
                 IF f.null = 0 /\ f.rowid = 0 THEN 1 ELSE 0, f.rowid>>
             : i \in StoredFields(st)},
   uniq |-> {{st.fields[i].name} : i \in {j \in StoredFields(st) :
                 st.fields[j].unique = 1 /\ st.fields[j].rowid = 0}}
            \cup {RangeOf(u) : u \in RangeOf(st.uniques)},
   refs |-> {LET f == st.fields[i] IN
               <<f.name, f.ref[1][1], f.ref[1][2], SqlAction(f.actup), SqlAction(f.actdel)>>
             : i \in {j \in StoredFields(st) : st.fields[j].ref # <<>>}}]

Catalogue(c) == [n \in StructNames(c) |-> Table(StructOf(c, n))]
=============================================================================
