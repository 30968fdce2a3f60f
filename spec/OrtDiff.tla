------------------------------- MODULE OrtDiff -------------------------------
(* The differences between two configurations, as ort-diff is to report them. *)
(*                                                                           *)
(* A report is a set of entries <<sign, kind, detail, old id, new id>>:       *)
(*   "+" / "-"  declared only in the new / old configuration                  *)
(*   "@"        declared in both, differently;  "="  declared alike           *)
(*   "!"        one respect ("detail") in which such a pair differs           *)
EXTENDS OrtForm

Named(s) == {s[i].name : i \in Idx(s)}
At(s, n) == s[CHOOSE i \in Idx(s) : s[i].name = n]

Add(kind, id) == <<"+", kind, "", "", id>>
Del(kind, id) == <<"-", kind, "", id, "">>
Pair(kind, same, x, y) == <<IF same THEN "=" ELSE "@", kind, "", x, y>>
Mods(kind, ds, x, y) == {<<"!", kind, d, x, y>> : d \in ds}
If(cond, d) == IF cond THEN {d} ELSE {}

(* A pair of declarations with the respects "ds" in which they differ.        *)
Paired(kind, ds, x, y) == {Pair(kind, ds = {}, x, y)} \cup Mods(kind, ds, x, y)

(* ------------------------- enumerations, bitfields ------------------------ *)
EItemId(e, i) == "e:" \o e.name \o "." \o e.items[i].name
EItemDiffs(e, i, f, j) ==
  If(ItemValue(e, i) # ItemValue(f, j), "value")
  \cup If(e.items[i].doc # f.items[j].doc, "comment")
  \cup If(Labels(e.items[i].labels) # Labels(f.items[j].labels), "labels")

EnumParts(e, f) ==
  {Add("eitem", EItemId(f, j)) : j \in {j \in Idx(f.items) : f.items[j].name \notin Named(e.items)}}
  \cup {Del("eitem", EItemId(e, i)) : i \in {i \in Idx(e.items) : e.items[i].name \notin Named(f.items)}}
  \cup UNION {LET j == ItemNamed(f, e.items[i].name)
              IN Paired("eitem", EItemDiffs(e, i, f, j), EItemId(e, i), EItemId(f, j))
              : i \in {i \in Idx(e.items) : e.items[i].name \in Named(f.items)}}
EnumOwn(e, f) ==
  If(e.doc # f.doc, "comment") \cup If(Labels(e.isnull) # Labels(f.isnull), "labels")

BItemId(b, i) == "b:" \o b.name \o "." \o b.items[i].name
BItemDiffs(b, i, d, j) ==
  If(b.items[i].bit # d.items[j].bit, "value")
  \cup If(b.items[i].doc # d.items[j].doc, "comment")
  \cup If(Labels(b.items[i].labels) # Labels(d.items[j].labels), "labels")
BitsParts(b, d) ==
  {Add("bitidx", BItemId(d, j)) : j \in {j \in Idx(d.items) : d.items[j].name \notin Named(b.items)}}
  \cup {Del("bitidx", BItemId(b, i)) : i \in {i \in Idx(b.items) : b.items[i].name \notin Named(d.items)}}
  \cup UNION {LET j == ItemNamed(d, b.items[i].name)
              IN Paired("bitidx", BItemDiffs(b, i, d, j), BItemId(b, i), BItemId(d, j))
              : i \in {i \in Idx(b.items) : b.items[i].name \in Named(d.items)}}
BitsOwn(b, d) ==
  If(b.doc # d.doc, "comment")
  \cup If(Labels(b.isunset) # Labels(d.isunset) \/ Labels(b.isnull) # Labels(d.isnull), "labels")

(* Entries that tell of a difference.                                         *)
Telling(S) == {x \in S : x[1] \in {"+", "-", "@"}}

(* A whole kind of top-level declarations: nothing if there is no difference. *)
Section(S) == IF Telling(S) = {} THEN {} ELSE S

(* A pair of composite declarations: its parts are told only if it differs.   *)
Whole(kind, own, parts, x, y) ==
  LET same == own = {} /\ Telling(parts) = {}
  IN {Pair(kind, same, x, y)} \cup (IF same THEN {} ELSE Mods(kind, own, x, y) \cup parts)

Enums(a, b) == Section(
  {Add("enm", "e:" \o n) : n \in Named(b.enums) \ Named(a.enums)}
  \cup {Del("enm", "e:" \o n) : n \in Named(a.enums) \ Named(b.enums)}
  \cup UNION {LET e == EnumOf(a, n) f == EnumOf(b, n)
              IN Whole("enm", EnumOwn(e, f), EnumParts(e, f), "e:" \o n, "e:" \o n)
              : n \in Named(a.enums) \cap Named(b.enums)})
Bits(a, b) == Section(
  {Add("bitf", "b:" \o n) : n \in Named(b.bits) \ Named(a.bits)}
  \cup {Del("bitf", "b:" \o n) : n \in Named(a.bits) \ Named(b.bits)}
  \cup UNION {LET e == BitsOf(a, n) f == BitsOf(b, n)
              IN Whole("bitf", BitsOwn(e, f), BitsParts(e, f), "b:" \o n, "b:" \o n)
              : n \in Named(a.bits) \cap Named(b.bits)})

(* ---------------------------------- roles --------------------------------- *)
Children(c, r) == {c.roles[i].name : i \in {i \in Idx(c.roles) : c.roles[i].parent = r}}
RoleDiffs(a, b, n) ==
  LET r == At(a.roles, n) s == At(b.roles, n)
  IN If(r.parent # s.parent, "parent") \cup If(r.doc # s.doc, "comment")
     \cup If(Children(a, n) # Children(b, n), "children")
RoleParts(a, b) ==
  {Add("role", "r:" \o n) : n \in Declared(b) \ Declared(a)}
  \cup {Del("role", "r:" \o n) : n \in Declared(a) \ Declared(b)}
  \cup UNION {Paired("role", RoleDiffs(a, b, n), "r:" \o n, "r:" \o n)
              : n \in Declared(a) \cap Declared(b)}
Roles(a, b) ==
  IF a.hasroles = 0 /\ b.hasroles = 0 THEN {}
  ELSE IF a.hasroles = 0 THEN {Add("roles", "roles")}
  ELSE IF b.hasroles = 0 THEN {Del("roles", "roles")}
  ELSE Section(Whole("roles", {}, RoleParts(a, b), "roles", "roles"))

(* -------------------------------- structures ------------------------------ *)
FieldDiffs(a, s, f, b, t, g) ==
  If(NoexportRoles(s, f) # NoexportRoles(t, g), "rolemap")
  \cup If(f.type # g.type, "type")
  \cup If(<<f.actdel, f.actup>> # <<g.actdel, g.actup>>, "actions")
  \cup If(FieldFlags(f) # FieldFlags(g), "flags")
  \cup If(f.type = "bits" /\ g.type = "bits" /\ f.aux # g.aux, "bitf")
  \cup If(f.type = "enum" /\ g.type = "enum" /\ f.aux # g.aux, "enum")
  \cup If(/\ f.default # <<>> /\ g.default # <<>> /\ f.type = g.type
          /\ \/ f.default # g.default
             \/ f.type = "enum" /\ f.aux # g.aux, "def")
  \cup If(RefOf(s, f) # RefOf(t, g), "ref")
  \cup If(\/ Limits(f) # Limits(g)
          \/ f.type # g.type /\ Limits(f) # {}, "valids")
  \cup If(f.doc # g.doc, "comment")

FId(s, f) == "f:" \o s.name \o "." \o f.name
Fields(a, s, b, t) ==
  {Add("field", FId(t, g)) : g \in {g \in RangeOf(t.fields) : g.name \notin FieldNames(s)}}
  \cup {Del("field", FId(s, f)) : f \in {f \in RangeOf(s.fields) : f.name \notin FieldNames(t)}}
  \cup UNION {LET g == FieldOf(t, f.name)
              IN Paired("field", FieldDiffs(a, s, f, b, t, g), FId(s, f), FId(t, g))
              : f \in {f \in RangeOf(s.fields) : f.name \in FieldNames(t)}}

QueryDiffs(s, p, t, q) ==
  LET x == QueryMeaning(s, p) y == QueryMeaning(t, q)
      gx == IF p.group = <<>> THEN <<>> ELSE <<p.group[1][1]>>
      gy == IF q.group = <<>> THEN <<>> ELSE <<q.group[1][1]>>
      ax == IF p.group = <<>> THEN <<>> ELSE <<p.group[1][2], p.group[1][3]>>
      ay == IF q.group = <<>> THEN <<>> ELSE <<q.group[1][2], q.group[1][3]>>
  IN If(x.terms # y.terms, "params") \cup If(x.order # y.order, "order")
     \cup If(ax # ay, "aggr") \cup If(gx # gy, "group")
     \cup If(x.distinct # y.distinct, "distinct") \cup If(x.doc # y.doc, "comment")
     \cup If(x.limit # y.limit, "limit") \cup If(x.offset # y.offset, "offset")
     \cup If(x.roles # y.roles, "rolemap")

UpdateDiffs(s, u, t, v) ==
  LET x == UpdateMeaning(s, u) y == UpdateMeaning(t, v)
  IN If(x.mods # y.mods \/ x.cons # y.cons, "params") \cup If(x.doc # y.doc, "comment")
     \cup If(x.roles # y.roles, "rolemap") \cup If(x.all # y.all, "flags")
DeleteDiffs(s, u, t, v) ==
  LET x == DeleteMeaning(s, u) y == DeleteMeaning(t, v)
  IN If(x.cons # y.cons, "params") \cup If(x.doc # y.doc, "comment")
     \cup If(x.roles # y.roles, "rolemap")

(* Operations that can be told apart by name may be modified; those without   *)
(* a name are the same or not.  "S" and "T" are the operations of the two     *)
(* structures, "Same" tells whether two bear the same name and kind, "Diffs"  *)
(* in which respects they differ.                                             *)
Operations(kind, p, s, S, t, T, Diffs(_, _), Like_(_, _)) ==
  LET id(st, i) == p \o ":" \o st.name \o "." \o ToString(i)
      matches(i, j) ==
        /\ Like_(S[i], T[j])
        /\ (S[i].name = "") = (T[j].name = "")
        /\ IF S[i].name = "" THEN Diffs(S[i], T[j]) = {} ELSE S[i].name = T[j].name
  IN {Add(kind, id(t, j)) : j \in {j \in Idx(T) : \A i \in Idx(S) : ~matches(i, j)}}
     \cup {Del(kind, id(s, i)) : i \in {i \in Idx(S) : \A j \in Idx(T) : ~matches(i, j)}}
     \cup UNION {Paired(kind, Diffs(S[x[1]], T[x[2]]), id(s, x[1]), id(t, x[2]))
                 : x \in {x \in Idx(S) \X Idx(T) : matches(x[1], x[2])}}

StructParts(a, s, b, t) ==
  Fields(a, s, b, t)
  \cup Operations("search", "q", s, s.queries, t, t.queries,
                  LAMBDA p, q : QueryDiffs(s, p, t, q), LAMBDA p, q : p.kind = q.kind)
  \cup Operations("update", "u", s, s.updates, t, t.updates,
                  LAMBDA p, q : UpdateDiffs(s, p, t, q), LAMBDA p, q : TRUE)
  \cup Operations("update", "d", s, s.deletes, t, t.deletes,
                  LAMBDA p, q : DeleteDiffs(s, p, t, q), LAMBDA p, q : TRUE)
  \cup {Add("unique", "n:" \o t.name \o "." \o ToString(j))
        : j \in {j \in Idx(t.uniques) : RangeOf(t.uniques[j]) \notin Uniques(s)}}
  \cup {Del("unique", "n:" \o s.name \o "." \o ToString(i))
        : i \in {i \in Idx(s.uniques) : RangeOf(s.uniques[i]) \notin Uniques(t)}}
  \cup (IF s.insert = t.insert
        THEN IF s.insert = 0 THEN {}
             ELSE LET ds == If(Granted(s, "insert", "") # Granted(t, "insert", ""), "rolemap")
                            \cup If([i \in Idx(s.fields) |-> s.fields[i].name] #
                                    [i \in Idx(t.fields) |-> t.fields[i].name], "params")
                  IN IF ds = {} THEN {}
                     ELSE Paired("insert", ds, "i:" \o s.name, "i:" \o t.name)
        ELSE IF s.insert = 0 THEN {Add("insert", "i:" \o t.name)}
        ELSE {Del("insert", "i:" \o s.name)})

StructOwn(s, t) == If(s.doc # t.doc, "comment")

Structs(a, b) == Section(
  {Add("strct", "s:" \o n) : n \in StructNames(b) \ StructNames(a)}
  \cup {Del("strct", "s:" \o n) : n \in StructNames(a) \ StructNames(b)}
  \cup UNION {LET s == StructOf(a, n) t == StructOf(b, n)
              IN Whole("strct", StructOwn(s, t), StructParts(a, s, b, t), "s:" \o n, "s:" \o n)
              : n \in StructNames(a) \cap StructNames(b)})

Diff(a, b) == Enums(a, b) \cup Bits(a, b) \cup Structs(a, b) \cup Roles(a, b)

(* ------------------ what any notion of difference must satisfy ------------- *)
Mirror(x) ==
  <<CASE x[1] = "+" -> "-" [] x[1] = "-" -> "+" [] OTHER -> x[1], x[2], x[3], x[5], x[4]>>
Antisymmetric(a, b) == Diff(b, a) = {Mirror(x) : x \in Diff(a, b)}
(* What declares the same shows no difference.                                *)
Sound(a, b) == Meaning(a) = Meaning(b) => Diff(a, b) = {}
=============================================================================
