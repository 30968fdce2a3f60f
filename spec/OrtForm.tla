------------------------------- MODULE OrtForm -------------------------------
(* What a configuration declares, whatever way it is written down.            *)
(*                                                                           *)
(* Beyond the vocabulary of OrtConfig, configurations carry here              *)
(*   enumeration item: num : <<>> or <<64-bit value>> (an explicit value)     *)
(*   field:            defv : <<>> or <<value>> (default other than of enums) *)
(* and numbers are written in one canonical way.                              *)
EXTENDS OrtConfig, OrtValues

Idx(s) == 1..Len(s)
Opt(x) == IF x = 0 THEN <<>> ELSE <<x>>

RECURSIVE MaxOf(_)
(* The greatest of a non-empty set of 64-bit values.                          *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : Cmp(x, y) >= 0

(* ------------------------------ enumerations ------------------------------ *)
Explicit(e) == {i \in Idx(e.items) : e.items[i].num # <<>>}
FirstAuto(e) ==
  IF Explicit(e) = {} THEN I64Zero
  ELSE LET m == MaxOf({e.items[i].num[1] : i \in Explicit(e)})
       IN IF Cmp(m, I64Zero) < 0 THEN I64Zero ELSE I64Add(m, I64One)
RECURSIVE I64AddN(_, _)
I64AddN(x, n) == IF n = 0 THEN x ELSE I64AddN(I64Add(x, I64One), n - 1)

(* The value of the i-th item: the one given, or the next free one.           *)
ItemValue(e, i) ==
  IF e.items[i].num # <<>> THEN e.items[i].num[1]
  ELSE I64AddN(FirstAuto(e), Cardinality({j \in Idx(e.items) : j < i /\ e.items[j].num = <<>>}))

EnumOf(c, n) == c.enums[CHOOSE i \in Idx(c.enums) : c.enums[i].name = n]
BitsOf(c, n) == c.bits[CHOOSE i \in Idx(c.bits) : c.bits[i].name = n]
ItemNamed(e, n) == CHOOSE i \in Idx(e.items) : e.items[i].name = n

(* The value a column takes in rows that exist when it is added.              *)
DefaultValue(c, f) ==
  IF f.default = <<>> THEN Null
  ELSE IF f.type = "enum"
       THEN LET e == EnumOf(c, f.aux) IN ItemValue(e, ItemNamed(e, f.default[1]))
       ELSE f.defv[1]

Labels(ls) == {<<ls[i][1], ls[i][2]>> : i \in Idx(ls)}

(* -------------------------------- structures ------------------------------ *)
RefOf(st, f) ==
  IF f.type = "struct" THEN <<f.src, SrcOf(st, f).ref[1]>>
  ELSE IF f.ref = <<>> THEN <<>> ELSE <<f.name, f.ref[1]>>

FieldFlags(f) ==
  (IF f.rowid = 1 THEN {"rowid"} ELSE {})
  \cup (IF f.unique = 1 /\ f.rowid = 0 THEN {"unique"} ELSE {})
  \cup (IF f.null = 1 THEN {"null"} ELSE {})
  \cup (IF f.noexport = 1 THEN {"noexport"} ELSE {})
  \cup (IF f.default # <<>> THEN {"default"} ELSE {})

Limits(f) == {<<f.limits[i][1], f.limits[i][2]>> : i \in Idx(f.limits)}

(* Roles for which a field is withheld from exports.                          *)
NoexportRoles(st, f) ==
  {g \in UNION {RangeOf(st.grants[i].roles) : i \in Idx(st.grants)} :
     \E i \in Idx(st.grants) :
        /\ g \in RangeOf(st.grants[i].roles)
        /\ \E j \in Idx(st.grants[i].ops) :
              /\ st.grants[i].ops[j][1] = "noexport"
              /\ st.grants[i].ops[j][2] \in {"", f.name}}

(* An update that names no columns sets every column but the row identifier.  *)
UpdateAll(u) == u.mods = <<>>
UpdateMods(st, u) ==
  IF u.mods # <<>> THEN u.mods
  ELSE LET ix == InsertIx(st) IN [i \in Idx(ix) |-> <<st.fields[ix[i]].name, "set">>]

Uniques(st) == {RangeOf(u) : u \in RangeOf(st.uniques)}

(* ------------------------ everything a document declares ------------------ *)
FieldMeaning(c, st, f) ==
  [name |-> f.name, type |-> f.type, aux |-> f.aux, flags |-> FieldFlags(f),
   ref |-> RefOf(st, f), acts |-> <<f.actdel, f.actup>>, limits |-> Limits(f),
   default |-> f.default, doc |-> f.doc, hidden |-> NoexportRoles(st, f)]

QueryMeaning(st, q) ==
  [kind |-> q.kind, name |-> q.name,
   terms |-> [i \in Idx(q.terms) |-> <<q.terms[i].path, q.terms[i].op>>],
   order |-> q.order, limit |-> q.limit, offset |-> q.offset, distinct |-> q.distinct,
   group |-> q.group, doc |-> q.doc, roles |-> Granted(st, q.kind, q.name)]

UpdateMeaning(st, u) ==
  [name |-> u.name, all |-> UpdateAll(u), mods |-> UpdateMods(st, u), cons |-> u.cons,
   doc |-> u.doc, roles |-> Granted(st, "update", u.name)]

DeleteMeaning(st, d) ==
  [name |-> d.name, cons |-> d.cons, doc |-> d.doc, roles |-> Granted(st, "delete", d.name)]

StructMeaning(c, st) ==
  [fields |-> [i \in Idx(st.fields) |-> FieldMeaning(c, st, st.fields[i])],
   insert |-> <<st.insert, IF st.insert = 1 THEN Granted(st, "insert", "") ELSE {}>>,
   queries |-> [i \in Idx(st.queries) |-> QueryMeaning(st, st.queries[i])],
   updates |-> [i \in Idx(st.updates) |-> UpdateMeaning(st, st.updates[i])],
   deletes |-> [i \in Idx(st.deletes) |-> DeleteMeaning(st, st.deletes[i])],
   uniques |-> Uniques(st),
   doc |-> st.doc]

EnumMeaning(e) ==
  [items |-> [i \in Idx(e.items) |->
     <<e.items[i].name, ItemValue(e, i), e.items[i].doc, Labels(e.items[i].labels)>>],
   doc |-> e.doc, isnull |-> Labels(e.isnull)]

BitsMeaning(b) ==
  [items |-> [i \in Idx(b.items) |->
     <<b.items[i].name, b.items[i].bit, b.items[i].doc, Labels(b.items[i].labels)>>],
   doc |-> b.doc, isunset |-> Labels(b.isunset), isnull |-> Labels(b.isnull)]

Meaning(c) ==
  [hasroles |-> c.hasroles,
   roles |-> {<<c.roles[i].name, c.roles[i].parent, c.roles[i].doc>> : i \in Idx(c.roles)},
   enums |-> [n \in {c.enums[i].name : i \in Idx(c.enums)} |-> EnumMeaning(EnumOf(c, n))],
   bits |-> [n \in {c.bits[i].name : i \in Idx(c.bits)} |-> BitsMeaning(BitsOf(c, n))],
   structs |-> [n \in StructNames(c) |-> StructMeaning(c, StructOf(c, n))]]
=============================================================================
