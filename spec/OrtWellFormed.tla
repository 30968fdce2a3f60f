---------------------------- MODULE OrtWellFormed ----------------------------
(* What is wrong with the statements of a document whose syntax is right.     *)
(*                                                                           *)
(*   [roleblocks, roles : Seq([name, parent, docs]),                         *)
(*    enums, bits : Seq([name, docs, items : Seq([name, num, docs, labels]), *)
(*                       isnull, isunset : Seq(<<language, text>>)]),        *)
(*    structs : Seq([name, docs, inserts, fields, queries, updates, deletes, *)
(*                   uniques, grants])]                                      *)
(*   field:  [name, type, aux, src, ref, null, unique, rowid, noexport (how  *)
(*            often), acts : Seq(<<which, what>>), limits : Seq(<<op, value, *)
(*            negative>>), defaults, wild (dates beyond measure), docs]      *)
(*   query:  [kind, names, terms, order, limits (1 for each negative number),*)
(*            distincts, groups, aggrs : Seq(path), docs]                    *)
(*   update: [mods, cons, names, docs]          delete: [cons, names, docs]  *)
(* num : <<>> or <<64-bit value>>.                                           *)
EXTENDS OrtForm, OrtSyntax

I64Max == <<"i", TopLimb - 1, Limb - 1, Limb - 1>>
I64Of(n) == I64AddN(I64Zero, n)
I64SixtyFour == <<"i", TopBit, 0, 64>>

(* Words that C or SQLite do not take for names.                              *)
Reserved ==
  {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else",
   "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register",
   "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef",
   "union", "unsigned", "void", "volatile", "while"}
  \cup
  {"abort", "action", "add", "after", "all", "alter", "analyze", "and", "as", "asc", "attach",
   "autoincrement", "before", "begin", "between", "by", "cascade", "cast", "check", "collate",
   "column", "commit", "conflict", "constraint", "create", "cross", "database", "deferrable",
   "deferred", "delete", "desc", "detach", "distinct", "drop", "each", "end", "escape",
   "except", "exclusive", "exists", "explain", "fail", "foreign", "from", "full", "glob",
   "group", "having", "ignore", "immediate", "in", "index", "indexed", "initially", "inner",
   "insert", "instead", "intersect", "into", "is", "isnull", "join", "key", "left", "like",
   "limit", "match", "natural", "not", "nothing", "notnull", "null", "of", "offset", "on", "or",
   "order", "outer", "plan", "pragma", "primary", "query", "raise", "recursive", "references",
   "regexp", "reindex", "release", "rename", "replace", "returning", "right", "rollback", "row",
   "savepoint", "select", "set", "table", "temp", "temporary", "then", "to", "transaction",
   "trigger", "unique", "update", "using", "vacuum", "values", "view", "virtual", "when",
   "where", "with", "without"}

Twice(s) == \E i, j \in Idx(s) : i < j /\ s[i] = s[j]
NamesOf(s) == [i \in Idx(s) |-> s[i].name]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
F(cond, fault) == IF cond THEN {fault} ELSE {}
Each(s, Op(_)) == UNION {Op(s[i]) : i \in Idx(s)}

(* -------------------------------- components ------------------------------ *)
DocFaults(x) == F(Len(x.docs) > 1, "two comments")
LabelFaults(ls) ==
  F(\E i \in Idx(ls) : ls[i][2] = "", "empty label")
  \cup F(Twice([i \in Idx(ls) |-> ls[i][1]]), "two labels in a language")
NameFaults(n) == F(n \in Reserved, "reserved name")

RoleFaults(c) ==
  F(c.roleblocks > 1, "roles twice")
  \cup F(Twice(NamesOf(c.roles)), "two roles of a name")
  \cup Each(c.roles, LAMBDA r :
         NameFaults(r.name) \cup DocFaults(r)
         \cup F(r.name \in {"default", "none", "all"}, "reserved role"))

ItemFaults(e) ==
  F(e.items = <<>>, "no items")
  \cup F(Twice(NamesOf(e.items)), "two items of a name")
  \cup F(\E i, j \in Idx(e.items) : i # j /\ e.items[i].num # <<>> /\ e.items[i].num = e.items[j].num,
         "two items of a value")
  \cup Each(e.items, LAMBDA i : NameFaults(i.name) \cup DocFaults(i) \cup LabelFaults(i.labels))
  \cup LabelFaults(e.isnull) \cup DocFaults(e) \cup NameFaults(e.name)

EnumFaults(e) ==
  ItemFaults(e)
  \cup F(\E i \in Idx(e.items) : e.items[i].name = "format", "item named format")
  \cup F(\E i \in Idx(e.items) : e.items[i].num = <<I64Max>>, "item value too large")
  \cup F(/\ \A i \in Idx(e.items) : e.items[i].num # <<I64Max>>
         /\ \E i \in Idx(e.items) : e.items[i].num = <<>> /\ ItemValue(e, i) = I64Max,
         "no values left")

BitsFaults(b) ==
  ItemFaults(b) \cup LabelFaults(b.isunset)
  \cup F(\E i \in Idx(b.items) : b.items[i].num # <<>>
           /\ (Cmp(b.items[i].num[1], I64Zero) < 0 \/ Cmp(b.items[i].num[1], I64SixtyFour) >= 0),
         "no such bit")

TopFaults(c) ==
  F(c.structs = <<>>, "no structures")
  \cup F(Twice(NamesOf(c.structs) \o NamesOf(c.enums) \o NamesOf(c.bits)), "two top-level names")

(* ---------------------------------- fields -------------------------------- *)
Has(s, n) == \E i \in Idx(s) : s[i].name = n
Named(s, n) == s[CHOOSE i \in Idx(s) : s[i].name = n]

FieldFaults(c, s, f) ==
  LET act(which) == \E i \in Idx(f.acts) : f.acts[i][1] = which
      final(which) == LET ii == {i \in Idx(f.acts) : f.acts[i][1] = which}
                      IN IF ii = {} THEN "none"
                         ELSE f.acts[CHOOSE i \in ii : \A j \in ii : i >= j][2]
      acts == {final("actdel"), final("actup")}
  IN
  NameFaults(f.name) \cup DocFaults(f)
  \cup F(f.rowid > 0 /\ f.type # "int", "rowid of another type")
  \cup F(f.rowid > 0 /\ f.ref # <<>>, "rowid on a reference")
  \cup F(f.rowid > 0 /\ f.null > 0, "rowid and null")
  \cup F(f.rowid > 1, "rowid twice")
  \cup F(f.type = "struct" /\ f.unique > 0, "unique structure")
  \cup F(f.type = "struct" /\ f.null > 0, "null structure")
  \cup F(Len(f.acts) > 0 /\ (f.ref = <<>> \/ f.type = "struct"), "action without reference")
  \cup F("default" \in acts /\ f.null = 0 /\ f.defaults = <<>>, "default action without default")
  \cup F("nullify" \in acts /\ f.null = 0, "nullify without null")
  \cup F(Twice([i \in Idx(f.limits) |-> <<f.limits[i][1], f.limits[i][2]>>]), "limit twice")
  \cup F(f.type \in {"blob", "email", "text", "password"}
         /\ \E i \in Idx(f.limits) : f.limits[i][3] = 1, "negative length")
  \cup F(f.type = "enum" /\ ~Has(c.enums, f.aux), "no such enumeration")
  \cup F(f.type = "bits" /\ ~Has(c.bits, f.aux), "no such bitfield")
  \cup F(f.type = "enum" /\ Has(c.enums, f.aux)
         /\ \E i \in Idx(f.defaults) : ~Has(Named(c.enums, f.aux).items, f.defaults[i]),
         "no such item")
  \cup F(f.type = "struct" /\ f.ref # <<>>, "structure with a reference")
  \cup (IF f.ref = <<>> \/ f.type = "struct" THEN {}
        ELSE LET t == f.ref[1] IN
        IF ~Has(c.structs, t[1]) \/ ~Has(Named(c.structs, t[1]).fields, t[2])
        THEN {"no such target"}
        ELSE LET g == Named(Named(c.structs, t[1]).fields, t[2]) IN
             F(g.type # f.type, "target of another type")
             \cup F(g.rowid = 0 /\ g.unique = 0, "target not unique"))
  \cup (IF f.type # "struct" THEN {}
        ELSE IF ~Has(s.fields, f.src) THEN {"no such source"}
        ELSE LET g == Named(s.fields, f.src) IN
             F(g.type = "struct" \/ g.ref = <<>>, "source without reference"))

(* Structures that a structure has as members, when that can be said.         *)
Members(c, n) ==
  LET s == Named(c.structs, n) IN
  {t \in {c.structs[i].name : i \in Idx(c.structs)} :
     \E i \in Idx(s.fields) :
        /\ s.fields[i].type = "struct"
        /\ Has(s.fields, s.fields[i].src)
        /\ LET g == Named(s.fields, s.fields[i].src)
           IN g.type # "struct" /\ g.ref # <<>> /\ g.ref[1][1] = t}
RECURSIVE Within(_, _)
Within(c, S) ==
  LET T == S \cup UNION {Members(c, n) : n \in S}
  IN IF T = S THEN S ELSE Within(c, T)
RecursionFaults(c) ==
  F(\E i \in Idx(c.structs) : c.structs[i].name \in Within(c, Members(c, c.structs[i].name)),
    "recursive structure")

(* ---------------------------------- paths --------------------------------- *)
(* <<fault>>, or <<structure, field>> at the end of a path.                   *)
RECURSIVE End(_, _, _)
End(c, s, path) ==
  IF ~Has(s.fields, path[1]) THEN <<"no such field">>
  ELSE LET f == Named(s.fields, path[1]) IN
       IF Len(path) = 1 THEN <<s.name, f>>
       ELSE IF f.type # "struct" THEN <<"path through a value">>
       ELSE IF ~Has(s.fields, f.src) THEN <<"no such source">>
       ELSE LET g == Named(s.fields, f.src) IN
            IF g.type = "struct" \/ g.ref = <<>> THEN <<"source without reference">>
            ELSE IF g.null > 0 THEN <<"path through null">>
            ELSE IF ~Has(c.structs, g.ref[1][1]) THEN <<"no such target">>
            ELSE End(c, Named(c.structs, g.ref[1][1]), Tail(path))
PathFaults(c, s, path, Op(_)) ==
  LET e == End(c, s, path) IN IF Len(e) = 1 THEN {e[1]} ELSE Op(e[2])

OpFaults(f, op) ==
  F(op = "like" /\ f.type \notin {"text", "email"}, "like on no text")
  \cup F(op \in {"and", "or"} /\ f.type \notin {"bit", "bits", "int"}, "bit operator on no bits")

PlainEnd(f) == F(f.type = "struct", "structure for a value")
GroupEnd(f) ==
  F(f.type = "struct", "group by structure") \cup F(f.type = "password", "group by password")
  \cup F(f.null > 0, "group by null")

(* A structure field that may be null cannot be what a query returns.         *)
DistinctEnd(c, s, path) ==
  IF path = <<>> THEN {}
  ELSE LET e == End(c, s, path) IN
       IF Len(e) = 1 THEN {e[1]}
       ELSE IF e[2].type # "struct" THEN {"distinct value"}
       ELSE LET o == Named(c.structs, e[1]) IN
            IF ~Has(o.fields, e[2].src) THEN {"no such source"}
            ELSE F(Named(o.fields, e[2].src).null > 0, "distinct null")

QueryFaults(c, s, q) ==
  DocFaults(q)
  \cup F(Len(q.distincts) > 1, "distinct twice")
  \cup F(Len(q.groups) > 1, "grouprow twice")
  \cup F(Len(q.aggrs) > 1, "two aggregates")
  \cup F(Len(q.groups) # Len(q.aggrs) /\ (q.groups = <<>> \/ q.aggrs = <<>>), "half a group")
  \cup F(\E i \in Idx(q.limits) : q.limits[i] = 1, "negative limit")
  \cup Each(q.terms, LAMBDA t : PathFaults(c, s, t.path, LAMBDA f :
         PlainEnd(f) \cup (IF f.type = "struct" THEN {} ELSE OpFaults(f, t.op))
         \cup F(f.type = "password" /\ t.op \notin {"eq", "neq", "streq", "strneq"} \cup {"isnull", "notnull"},
                "operator on password")
         \cup F(f.type = "password" /\ t.op \in {"eq", "neq"} /\ q.kind = "count",
                "password in count")
         \cup F(f.type = "password" /\ t.op \in {"eq", "neq"} /\ q.distincts # <<>>,
                "password in distinct")))
  \cup Each(q.order, LAMBDA p : PathFaults(c, s, p, PlainEnd))
  \cup Each(q.groups, LAMBDA p : PathFaults(c, s, p, GroupEnd))
  \cup Each(q.aggrs, LAMBDA p : PathFaults(c, s, p, GroupEnd))
  \cup Each(q.distincts, LAMBDA p : DistinctEnd(c, s, p))
  \cup (IF q.groups = <<>> \/ q.aggrs = <<>> THEN {}
        ELSE LET a == End(c, s, q.groups[1]) b == End(c, s, q.aggrs[1]) IN
             IF Len(a) = 1 \/ Len(b) = 1 THEN {}
             ELSE F(a = b, "group and aggregate the same")
                  \cup F(a[1] # b[1], "group and aggregate apart"))

(* ---------------------------- updates and deletes ------------------------- *)
OwnFaults(s, n, Op(_)) ==
  IF ~Has(s.fields, n) THEN {"no such field"}
  ELSE LET f == Named(s.fields, n)
       IN IF f.type = "struct" THEN {"structure for a value"} ELSE Op(f)

ConFaults(s, cons) ==
  Each(cons, LAMBDA x : OwnFaults(s, x[1], LAMBDA f :
    OpFaults(f, x[2])
    \cup F(f.type = "password" /\ x[2] \notin {"streq", "strneq"} \cup {"isnull", "notnull"},
           "hashed password in constraint")))
ModFaults(s, mods) ==
  Each(mods, LAMBDA x : OwnFaults(s, x[1], LAMBDA f :
    F(x[2] = "concat" /\ f.type \notin {"blob", "text", "email"}, "concat on a number")
    \cup F(x[2] \in {"inc", "dec"} /\ f.type \in {"blob", "text", "email", "password"},
           "arithmetic on text")))

UniqueFaults(s, u) ==
  Each(u, LAMBDA n : OwnFaults(s, n, LAMBDA f : {}))
  \cup F(Twice(u), "column twice in unique")

(* ---------------------------------- grants -------------------------------- *)
ReservedRoles == {"default", "all"}
Grantings(s) ==
  Concat([i \in Idx(s.grants) |->
    Concat([j \in Idx(s.grants[i].ops) |->
      [k \in Idx(s.grants[i].roles) |-> <<s.grants[i].roles[k], s.grants[i].ops[j]>>]])])
GrantFaults(c, s) ==
  LET roles == UNION {RangeOf(s.grants[i].roles) : i \in {i \in Idx(s.grants) : s.grants[i].ops # <<>>}}
      ops == UNION {RangeOf(s.grants[i].ops) : i \in Idx(s.grants)}
      named(seq, n) == \E i \in Idx(seq) : seq[i].names # <<>> /\ seq[i].names[Len(seq[i].names)] = n
  IN
  F(\E i \in Idx(s.grants) : "none" \in RangeOf(s.grants[i].roles), "grant to none")
  \cup F(\E r \in roles : ~(c.roleblocks > 0 /\ (r \in ReservedRoles \/ Has(c.roles, r))),
         "no such role")
  \cup F(Twice(Grantings(s)), "granted twice")
  \cup F(\E o \in ops : o[1] = "insert" /\ s.inserts = 0, "grant of no insert")
  \cup F(\E o \in ops : o[1] = "noexport" /\ o[2] # "" /\ ~Has(s.fields, o[2]), "grant on no field")
  \cup F(\E o \in ops : o[1] = "update" /\ ~named(s.updates, o[2]), "grant of no update")
  \cup F(\E o \in ops : o[1] = "delete" /\ ~named(s.deletes, o[2]), "grant of no delete")
  \cup F(\E o \in ops : o[1] \in QueryKinds
           /\ ~named(SelectSeq(s.queries, LAMBDA q : q.kind = o[1]), o[2]), "grant of no query")

(* -------------------------------- structures ------------------------------ *)
StructFaults(c, s) ==
  LET qnames == Concat([i \in Idx(s.queries) |-> s.queries[i].names])
      unnamed(seq) == SelectSeq(seq, LAMBDA x : x.names = <<>>)
      shape(q) == <<q.kind, [i \in Idx(q.terms) |-> <<q.terms[i].path, q.terms[i].op>>]>>
  IN
  NameFaults(s.name) \cup DocFaults(s)
  \cup F(s.fields = <<>>, "no fields")
  \cup F(Twice(NamesOf(s.fields)), "two fields of a name")
  \cup F(s.inserts > 1, "insert twice")
  \cup F(Cardinality({i \in Idx(s.fields) : s.fields[i].rowid > 0}) > 1, "two rowids")
  \cup F(Twice(qnames), "two queries of a name")
  \cup F(Twice(Concat([i \in Idx(s.updates) |-> s.updates[i].names])), "two updates of a name")
  \cup F(Twice(Concat([i \in Idx(s.deletes) |-> s.deletes[i].names])), "two deletes of a name")
  \cup F(LET u == unnamed(s.queries) IN Twice([i \in Idx(u) |-> shape(u[i])]), "unnamed queries alike")
  \cup F(LET u == unnamed(s.updates)
         IN \E i, j \in Idx(u) : i < j /\ u[i].mods = u[j].mods /\ u[i].cons = u[j].cons,
         "unnamed updates alike")
  \cup F(LET u == unnamed(s.deletes) IN Twice([i \in Idx(u) |-> u[i].cons]), "unnamed deletes alike")
  \cup F(Twice([i \in Idx(s.uniques) |-> RangeOf(s.uniques[i])]), "unique twice")
  \cup Each(s.fields, LAMBDA f : FieldFaults(c, s, f))
  \cup Each(s.queries, LAMBDA q : QueryFaults(c, s, q))
  \cup Each(s.updates, LAMBDA u : DocFaults(u) \cup ModFaults(s, u.mods) \cup ConFaults(s, u.cons))
  \cup Each(s.deletes, LAMBDA u : DocFaults(u) \cup ConFaults(s, u.cons))
  \cup Each(s.uniques, LAMBDA u : UniqueFaults(s, u))
  \cup GrantFaults(c, s)

Faults(c) ==
  TopFaults(c) \cup RoleFaults(c)
  \cup Each(c.enums, EnumFaults) \cup Each(c.bits, BitsFaults)
  \cup Each(c.structs, LAMBDA s : StructFaults(c, s))
  \cup RecursionFaults(c)

(* ort(5) does not say what it means to give these more than once, or which   *)
(* years are too far away.                                                   *)
Unsaid(c) ==
  \E i \in Idx(c.structs) : LET s == c.structs[i] IN
    \/ \E j \in Idx(s.fields) : Len(s.fields[j].defaults) > 1 \/ s.fields[j].wild > 0
    \/ \E j \in Idx(s.queries) : Len(s.queries[j].names) > 1
    \/ \E j \in Idx(s.updates) : Len(s.updates[j].names) > 1
    \/ \E j \in Idx(s.deletes) : Len(s.deletes[j].names) > 1

(* -------------------------------- transitions ----------------------------- *)
VARIABLE heard       \* what the tool has said about the document

(* A tool reads documents (token sequences) that say "c" together: either it  *)
(* does its work, or it says what is wrong and does nothing else.             *)
WellFormed(docs, c) ==
  /\ \A i \in Idx(docs) : IsDocument(docs[i])
  /\ Faults(c) = {}
Read(docs, c, status, out, err) ==
  /\ \/ status = 0 /\ out = 1 /\ WellFormed(docs, c)
     \/ status = 1 /\ out = 0 /\ err = 1 /\ ~WellFormed(docs, c)
     \/ Unsaid(c) /\ status = 0 /\ out = 1
     \/ Unsaid(c) /\ status = 1 /\ out = 0 /\ err = 1
  /\ heard' = IF status = 0 THEN "accepted" ELSE "refused"
=============================================================================
