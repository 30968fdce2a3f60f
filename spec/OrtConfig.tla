------------------------------ MODULE OrtConfig ------------------------------
(* The data model of an ort configuration as a TLA+ value.                   *)
(*                                                                           *)
(*   [hasroles, roles : Seq([name, parent, ..]), enums, bits, structs]       *)
(*   struct: [name, fields, insert, queries, updates, deletes, uniques,      *)
(*            grants : Seq([roles : Seq, ops : Seq(<<kind, name>>)])]        *)
(*   field:  [name, type, aux, null, unique, rowid, noexport,                *)
(*            ref : <<>> or <<<<struct, field>>>>, src, actdel, actup, ..]   *)
(*   query:  [kind, name, terms : Seq([path, op]), order : Seq(<<path,dir>>),*)
(*            limit, offset : <<>> or <<n>>, distinct : <<>> or <<path>>,    *)
(*            group : <<>> or <<<<path, how, path>>>>]                       *)
(*   update: [name, mods : Seq(<<field, mod>>), cons : Seq(<<field, op>>)]   *)
(*   delete: [name, cons : Seq(<<field, op>>)]                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE FlattenSeq2(_)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))

StructNames(c) == {c.structs[i].name : i \in 1..Len(c.structs)}
StructOf(c, n) == c.structs[CHOOSE i \in 1..Len(c.structs) : c.structs[i].name = n]
FieldNames(st) == {st.fields[i].name : i \in 1..Len(st.fields)}
FieldIx(st, n) == CHOOSE i \in 1..Len(st.fields) : st.fields[i].name = n
FieldOf(st, n) == st.fields[FieldIx(st, n)]
Stored(f) == f.type # "struct"
StoredIx(st) == SelectSeq([i \in 1..Len(st.fields) |-> i], LAMBDA i : Stored(st.fields[i]))
InsertIx(st) == SelectSeq(StoredIx(st), LAMBDA i : st.fields[i].rowid = 0)
HasRowid(st) == \E i \in 1..Len(st.fields) : st.fields[i].rowid = 1

(* Where a struct field leads: the target struct and the key within it.      *)
SrcOf(st, f) == FieldOf(st, f.src)
TargetOf(st, f) == SrcOf(st, f).ref[1]
NullableRef(st, f) == SrcOf(st, f).null = 1

(* The field at the end of a dotted path.                                    *)
RECURSIVE PathField(_, _, _)
PathField(c, st, path) ==
  IF Len(path) = 1 THEN FieldOf(st, path[1])
  ELSE PathField(c, StructOf(c, TargetOf(st, FieldOf(st, path[1]))[1]), Tail(path))

(* The struct whose objects a query returns.                                 *)
RECURSIVE PathStruct(_, _, _)
PathStruct(c, st, path) ==
  IF path = <<>> THEN st
  ELSE PathStruct(c, StructOf(c, TargetOf(st, FieldOf(st, path[1]))[1]), Tail(path))

(* ------------------------------- roles ----------------------------------- *)
Declared(c) == {c.roles[i].name : i \in 1..Len(c.roles)}
Parent(c, r) == (CHOOSE x \in RangeOf(c.roles) : x.name = r).parent
RECURSIVE Ancestors(_, _)
(* Declared roles strictly above a declared role.                            *)
Ancestors(c, r) ==
  IF r \notin Declared(c) \/ Parent(c, r) = "all" THEN {}
  ELSE {Parent(c, r)} \cup Ancestors(c, Parent(c, r))

(* A grant to role g reaches role r: "all" stands for every declared role.   *)
Covers(c, g, r) ==
  \/ g = r
  \/ g \in Ancestors(c, r)
  \/ g = "all" /\ r \in Declared(c)

Granted(st, kind, name) ==
  {g \in UNION {RangeOf(st.grants[i].roles) : i \in 1..Len(st.grants)} :
     \E i \in 1..Len(st.grants) :
        /\ g \in RangeOf(st.grants[i].roles)
        /\ \E j \in 1..Len(st.grants[i].ops) :
              LET op == st.grants[i].ops[j] IN
              \/ op[1] = "all"
              \/ op[1] = kind /\ op[2] = name /\ (kind = "insert" \/ name # "")}

(* May "role" run operation "kind"/"name" of struct "st"?                    *)
Permitted(c, st, kind, name, role) ==
  \/ c.hasroles = 0
  \/ \E g \in Granted(st, kind, name) : Covers(c, g, role)

(* Is field f of struct st withheld from JSON exports for "role"?            *)
Withheld(c, st, f, role) ==
  \/ f.type = "password"
  \/ f.noexport = 1
  \/ \E i \in 1..Len(st.grants) : \E j \in 1..Len(st.grants[i].ops) :
        LET op == st.grants[i].ops[j] IN
        /\ op[1] = "noexport"
        /\ op[2] \in {"", f.name}
        /\ \E g \in RangeOf(st.grants[i].roles) : Covers(c, g, role)

(* Role changes that a connection may make.                                  *)
RoleMayChange(c, cur, new) ==
  /\ new # "all"
  /\ \/ new = cur
     \/ cur = "default"
     \/ new = "none"
     \/ new \in Ancestors(c, cur)

(* Operations of a struct, by kind and index.                                *)
OpName(st, kind, i) ==
  CASE kind = "insert" -> ""
    [] kind = "update" -> st.updates[i].name
    [] kind = "delete" -> st.deletes[i].name
    [] OTHER -> st.queries[i].name
=============================================================================
