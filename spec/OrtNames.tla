------------------------------ MODULE OrtNames -------------------------------
(* The vocabulary that every back end derives from a configuration:           *)
(* constants, the layout of structures, and the functions with their types.   *)
EXTENDS OrtForm

CONSTANT Configs
VARIABLE cur       \* index of the configuration

(* ------------------------------- constants -------------------------------- *)
Consts(c) ==
  [enums |-> {<<c.enums[k].name,
                {<<c.enums[k].items[i].name, ItemValue(c.enums[k], i)>> : i \in Idx(c.enums[k].items)}>>
              : k \in Idx(c.enums)},
   bits |-> {<<c.bits[k].name,
               {<<c.bits[k].items[i].name, c.bits[k].items[i].bit, {c.bits[k].items[i].bit}>>
                : i \in Idx(c.bits[k].items)}>>
             : k \in Idx(c.bits)}]

(* One more than the largest index of each bit-field.                         *)
Tops(c) == {<<b.name, 1 + CHOOSE n \in {i.bit : i \in RangeOf(b.items)} :
                            \A j \in RangeOf(b.items) : j.bit <= n>> : b \in RangeOf(c.bits)}

(* Items without a value get one that is larger than all that are given, in   *)
(* the order of declaration, and no two items of an enumeration share one.    *)
Numbered(c) ==
  \A e \in RangeOf(c.enums) :
    LET auto == Idx(e.items) \ Explicit(e) IN
    /\ \A i \in auto : \A j \in Explicit(e) : Cmp(ItemValue(e, i), ItemValue(e, j)) > 0
    /\ \A i, j \in auto : i < j => Cmp(ItemValue(e, i), ItemValue(e, j)) < 0
    /\ \A i, j \in Idx(e.items) : i # j => ItemValue(e, i) # ItemValue(e, j)

Roles(c) == IF c.hasroles = 0 THEN {} ELSE Declared(c) \cup {"default", "none"}

(* ---------------------------------- types --------------------------------- *)
(* Types as back ends tell them apart: int, time, real, str, blob, enum X;    *)
(* "opt" before one stands for a value that may be absent.                    *)
Kind(f) ==
  CASE f.type \in {"bit", "int", "bits"} -> "int"
    [] f.type \in {"date", "epoch"} -> "time"
    [] f.type = "real" -> "real"
    [] f.type = "blob" -> "blob"
    [] f.type = "enum" -> "enum " \o f.aux
    [] OTHER -> "str"

(* Not all languages have a type of their own for all of these.               *)
KindIn(lang, f) ==
  LET k == Kind(f) IN IF k = "time" /\ lang # "c" THEN "int" ELSE k

Given(lang, f, opt) == (IF opt /\ f.null = 1 THEN "opt " ELSE "") \o KindIn(lang, f)

(* Structure members, in order.                                               *)
Member(lang, st, f) ==
  IF f.type = "struct"
  THEN <<f.name, (IF SrcOf(st, f).null = 1 THEN "opt " ELSE "") \o "struct " \o TargetOf(st, f)[1]>>
  ELSE <<f.name, Given(lang, f, TRUE)>>

(* What leaves by way of JSON is seen by the browser: enumerations as their   *)
(* numbers, blobs as text, and neither passwords nor fields never exported.   *)
Browser(st, f) ==
  IF f.type = "struct" THEN <<f.name, "struct " \o TargetOf(st, f)[1]>>
  ELSE <<f.name, CASE f.type = "real" -> "real"
                   [] f.type \in {"blob", "text", "email"} -> "str"
                   [] OTHER -> "int">>
Exported(f) == f.noexport = 0 /\ f.type # "password"

Layout(lang, c) ==
  {<<st.name, IF lang = "javascript"
              THEN LET ix == SelectSeq([i \in Idx(st.fields) |-> i], LAMBDA i : Exported(st.fields[i]))
                   IN [i \in Idx(ix) |-> Browser(st, st.fields[ix[i]])]
              ELSE [i \in Idx(st.fields) |-> Member(lang, st, st.fields[i])]>> : st \in RangeOf(c.structs)}

(* -------------------------------- functions ------------------------------- *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Under(_)
Under(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "_" \o Under(Tail(p))

Verb(kind) == IF kind = "search" THEN "get" ELSE kind
ModName(m) == IF m = "concat" THEN "cat" ELSE m

NullTest(op) == op \in {"isnull", "notnull"}

By(cons) ==
  IF cons = <<>> THEN "" ELSE "_by" \o Cat([i \in Idx(cons) |-> "_" \o cons[i][1] \o "_" \o cons[i][2]])

ConsTypes(lang, fs, ops) ==
  LET ix == SelectSeq([i \in Idx(ops) |-> i], LAMBDA i : ~NullTest(ops[i]))
  IN [i \in Idx(ix) |-> Given(lang, fs[ix[i]], lang # "c")]

Result(kind, n) ==
  CASE kind = "search" -> "one " \o n [] kind = "list" -> "many " \o n
    [] kind = "iterate" -> "each " \o n [] OTHER -> "count"

QueryFn(lang, c, st, q) ==
  <<"db_" \o st.name \o "_" \o Verb(q.kind) \o
      (IF q.name # "" THEN "_" \o q.name
       ELSE By([i \in Idx(q.terms) |-> <<Under(q.terms[i].path), q.terms[i].op>>])),
    ConsTypes(lang, [i \in Idx(q.terms) |-> PathField(c, st, q.terms[i].path)],
              [i \in Idx(q.terms) |-> q.terms[i].op]),
    Result(q.kind, IF q.distinct = <<>> THEN st.name ELSE PathStruct(c, st, q.distinct[1]).name)>>

UpdateFn(lang, st, u) ==
  LET mods == UpdateMods(st, u) IN
  <<"db_" \o st.name \o "_update" \o
      (IF u.name # "" THEN "_" \o u.name
       ELSE Cat([i \in Idx(u.mods) |-> "_" \o u.mods[i][1] \o "_" \o ModName(u.mods[i][2])]) \o By(u.cons)),
    [i \in Idx(mods) |-> Given(lang, FieldOf(st, mods[i][1]), TRUE)] \o
      ConsTypes(lang, [i \in Idx(u.cons) |-> FieldOf(st, u.cons[i][1])], [i \in Idx(u.cons) |-> u.cons[i][2]]),
    "done">>

DeleteFn(lang, st, d) ==
  <<"db_" \o st.name \o "_delete" \o (IF d.name # "" THEN "_" \o d.name ELSE By(d.cons)),
    ConsTypes(lang, [i \in Idx(d.cons) |-> FieldOf(st, d.cons[i][1])], [i \in Idx(d.cons) |-> d.cons[i][2]]),
    "none">>

InsertFn(lang, st) ==
  LET ix == InsertIx(st) IN
  <<"db_" \o st.name \o "_insert", [i \in Idx(ix) |-> Given(lang, st.fields[ix[i]], TRUE)], "id">>

Functions(lang, c) ==
  UNION {(IF st.insert = 1 THEN {InsertFn(lang, st)} ELSE {})
         \cup {QueryFn(lang, c, st, q) : q \in RangeOf(st.queries)}
         \cup {UpdateFn(lang, st, u) : u \in RangeOf(st.updates)}
         \cup {DeleteFn(lang, st, d) : d \in RangeOf(st.deletes)} : st \in RangeOf(c.structs)}

(* Structures that queries of a kind return.                                  *)
Returned(c, kind) ==
  UNION {{IF q.distinct = <<>> THEN st.name ELSE PathStruct(c, st, q.distinct[1]).name
          : q \in {q \in RangeOf(st.queries) : q.kind = kind}} : st \in RangeOf(c.structs)}

(* Further functions of the C API: "flags" are the options of the tools.      *)
Helpers(c, flags) ==
  {"db_open", "db_open_logging", "db_close", "db_logging_data", "db_trans_open", "db_trans_commit",
   "db_trans_rollback"}
  \cup (IF c.hasroles = 1 THEN {"db_role", "db_role_current", "db_role_stored"} ELSE {})
  \cup UNION {
    {"db_" \o n \o "_free"}
    \cup (IF n \in Returned(c, "list") THEN {"db_" \o n \o "_freeq"} ELSE {})
    \cup (IF "j" \notin flags THEN {} ELSE
          {"json_" \o n \o "_data", "json_" \o n \o "_obj"}
          \cup (IF n \in Returned(c, "list") THEN {"json_" \o n \o "_array"} ELSE {})
          \cup (IF n \in Returned(c, "iterate") THEN {"json_" \o n \o "_iterate"} ELSE {}))
    \cup (IF "J" \notin flags THEN {} ELSE
          {"jsmn_" \o n, "jsmn_" \o n \o "_array", "jsmn_" \o n \o "_clear", "jsmn_" \o n \o "_free_array"})
    \cup (IF "v" \notin flags THEN {} ELSE
          {"valid_" \o n \o "_" \o f.name : f \in {f \in RangeOf(StructOf(c, n).fields) : Stored(f)}})
    : n \in StructNames(c)}
  \cup (IF "J" \in flags THEN {"jsmn_init", "jsmn_parse", "jsmn_eq"} ELSE {})

(* -------------------------------- transitions ----------------------------- *)
(* A back end writes its output, from which "said" was read.  Only what the   *)
(* back end carries is compared.                                              *)
Emit(lang, said, flags) ==
  LET c == Configs[cur] IN
  /\ said.consts = Consts(c)
  /\ lang \in {"c", "javascript"} => said.tops = Tops(c)
  /\ Numbered(c)
  /\ said.layout = Layout(lang, c)
  /\ lang # "javascript" => said.functions = Functions(lang, c)
  /\ lang \in {"c", "rust"} => said.roles = Roles(c)
  /\ lang = "c" => said.helpers = Helpers(c, flags)
  /\ cur' = cur

(* ort and ort-json write the configuration itself.                           *)
Restate(to) ==
  /\ \A lang \in {"c", "nodejs", "rust", "javascript"} :
       /\ Layout(lang, Configs[to]) = Layout(lang, Configs[cur])
       /\ Functions(lang, Configs[to]) = Functions(lang, Configs[cur])
  /\ Consts(Configs[to]) = Consts(Configs[cur])
  /\ Roles(Configs[to]) = Roles(Configs[cur])
  /\ cur' = to
=============================================================================
