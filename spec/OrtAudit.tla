------------------------------ MODULE OrtAudit -------------------------------
(* What audits of a role say: the operations it may perform, and the          *)
(* structures it reaches through the results of its queries, by which paths,  *)
(* with which fields exported.  Whether an operation is permitted and a field *)
(* withheld is defined in OrtConfig, as it is for generated code.             *)
EXTENDS OrtNames

VARIABLE told      \* <<role, flags>> of audits so far: the tools must agree

(* Roles that can be audited.                                                 *)
Audited(c) == IF c.hasroles = 0 THEN {} ELSE Declared(c) \cup {"all", "default", "none"}

(* Operations of the configuration, known by their place.                     *)
Place(k, s, i) == k \o ":" \o s \o "." \o ToString(i)
Permits(c, st, kind, o, r) == Permitted(c, st, kind, o.name, r)

Ops(c, r) ==
  UNION {
    (IF st.insert = 1 /\ Permitted(c, st, "insert", "", r)
     THEN {[kind |-> "insert", s |-> st.name, name |-> "", at |-> "i:" \o st.name, fn |-> InsertFn("c", st)[1],
            doc |-> <<>>]} ELSE {})
    \cup {[kind |-> "update", s |-> st.name, name |-> st.updates[i].name, at |-> Place("u", st.name, i),
           fn |-> UpdateFn("c", st, st.updates[i])[1], doc |-> st.updates[i].doc]
          : i \in {i \in Idx(st.updates) : Permits(c, st, "update", st.updates[i], r)}}
    \cup {[kind |-> "delete", s |-> st.name, name |-> st.deletes[i].name, at |-> Place("d", st.name, i),
           fn |-> DeleteFn("c", st, st.deletes[i])[1], doc |-> st.deletes[i].doc]
          : i \in {i \in Idx(st.deletes) : Permits(c, st, "delete", st.deletes[i], r)}}
    \cup {[kind |-> st.queries[i].kind, s |-> st.name, name |-> st.queries[i].name, at |-> Place("q", st.name, i),
           fn |-> QueryFn("c", c, st, st.queries[i])[1], doc |-> st.queries[i].doc]
          : i \in {i \in Idx(st.queries) : Permits(c, st, st.queries[i].kind, st.queries[i], r)}}
    : st \in RangeOf(c.structs)}

(* The structures in an object of a structure: <<path, structure, open>>,     *)
(* where open says that exports for the role get there.                       *)
RECURSIVE Within(_, _, _, _, _)
Within(c, st, path, open, r) ==
  {<<path, st.name, open>>} \cup
  UNION {Within(c, StructOf(c, TargetOf(st, f)[1]), Append(path, f.name), open /\ ~Withheld(c, st, f, r), r)
         : f \in {f \in RangeOf(st.fields) : f.type = "struct"}}

Reached(c, r) ==
  UNION {UNION {{[s |-> w[2], kind |-> st.queries[i].kind, name |-> st.queries[i].name,
                  at |-> Place("q", st.name, i), fn |-> QueryFn("c", c, st, st.queries[i])[1],
                  path |-> w[1], open |-> w[3]]
                 : w \in Within(c, IF st.queries[i].distinct = <<>> THEN st
                                   ELSE PathStruct(c, st, st.queries[i].distinct[1]), <<>>, TRUE, r)}
                : i \in {i \in Idx(st.queries) : Permits(c, st, st.queries[i].kind, st.queries[i], r)}}
         : st \in RangeOf(c.structs)}

(* Fields that are exported wherever their structure is.                      *)
Shown(c, s, r) ==
  LET st == StructOf(c, s) IN {f.name : f \in {f \in RangeOf(st.fields) : ~Withheld(c, st, f, r)}}

(* A reached structure may be called exported only where exports get, and     *)
(* must be if some field of it is exported there.                             *)
FlagOK(c, r, x, flag) == (flag => x.open) /\ (x.open /\ Shown(c, x.s, r) # {} => flag)

Wrong(c, r) == r \notin Audited(c)

(* Which structures were said to be exported, and by which paths.             *)
Agrees(r, flags) == \A t \in told : t[1] = r => t[2] = flags

(* ------------------------------- transitions ------------------------------ *)
AuditInit == told = {}

NoAnswer(r, status, said) ==
  /\ Wrong(Configs[cur], r)
  /\ status = 1
  /\ said = 0
  /\ UNCHANGED <<cur, told>>

(* ort-audit: "ops" are <<kind, structure, name, place>>; "reach" with -v is  *)
(* <<exported, structure, kind, name, path, place>>, else <<exported,         *)
(* structure, place>>.                                                        *)
OpLines(c, r) == {<<o.kind, o.s, o.name, o.at>> : o \in Ops(c, r)}

ToolAudit(r, status, ops, reach) ==
  LET c == Configs[cur]
      R == Reached(c, r) IN
  /\ r \in Audited(c)
  /\ status = 0
  /\ Len(ops) = Cardinality(Ops(c, r)) /\ RangeOf(ops) = OpLines(c, r)
  /\ Len(reach) = Cardinality({x.s : x \in R})
  /\ \A s \in {x.s : x \in R} : \E e \in RangeOf(reach) :
        /\ e[2] = s /\ e[3] = "s:" \o s
        /\ e[1] => \E x \in R : x.s = s /\ x.open
        /\ (\E x \in R : x.s = s /\ x.open /\ Shown(c, s, r) # {}) => e[1]
        /\ \A t \in told : t[1] = r => (e[1] <=> \E y \in t[2] : y[1] = s /\ y[4])
  /\ UNCHANGED <<cur, told>>

Matches(x, e) == e[2] = x.s /\ e[3] = x.kind /\ e[4] = x.name /\ e[5] = x.path /\ e[6] = x.at

ToolPaths(r, status, ops, reach) ==
  LET c == Configs[cur]
      R == Reached(c, r)
      flags == {<<e[2], e[6], e[5], e[1]>> : e \in RangeOf(reach)} IN
  /\ r \in Audited(c)
  /\ status = 0
  /\ Len(ops) = Cardinality(Ops(c, r)) /\ RangeOf(ops) = OpLines(c, r)
  /\ Len(reach) = Cardinality(R)
  /\ \A x \in R : \E e \in RangeOf(reach) : Matches(x, e) /\ FlagOK(c, r, x, e[1])
  /\ Agrees(r, flags)
  /\ told' = told \cup {<<r, flags>>}
  /\ cur' = cur

(* ort-audit-json: "access" has per structure the functions of each kind and  *)
(* what it is reached by, "functions" all of them, and "fields" those of      *)
(* reached structures.                                                        *)
Docs(c, r) == IF r \in Declared(c) THEN (CHOOSE x \in RangeOf(c.roles) : x.name = r).doc ELSE <<>>

AccessOK(c, r, O, R, a) ==
  LET st == StructOf(c, a.name)
      fns(k) == {o.fn : o \in {o \in O : o.s = a.name /\ o.kind = k}}
      here == {x \in R : x.s = a.name} IN
  /\ \A k \in DOMAIN a.ops : RangeOf(a.ops[k]) = fns(k) /\ Len(a.ops[k]) = Cardinality(fns(k))
  /\ DOMAIN a.ops = {"insert", "update", "delete", "search", "list", "iterate", "count"}
  /\ Len(a.from) = Cardinality(here)
  /\ \A x \in here : \E e \in RangeOf(a.from) : e[1] = x.fn /\ e[2] = x.path /\ FlagOK(c, r, x, e[3])
  /\ IF here = {} THEN ~a.exportable
     ELSE /\ a.data = [i \in Idx(st.fields) |-> st.fields[i].name]
          /\ a.exportable <=> \E e \in RangeOf(a.from) : e[3]

JsonFlags(R, access) ==
  UNION {{<<a.name, (CHOOSE x \in R : x.fn = e[1]).at, e[2], e[3]>> : e \in RangeOf(a.from)} : a \in RangeOf(access)}

JsonAudit(r, status, doc, access, functions, fields) ==
  LET c == Configs[cur]
      O == Ops(c, r)
      R == Reached(c, r) IN
  /\ r \in Audited(c)
  /\ status = 0
  /\ doc = Docs(c, r)
  /\ Len(access) = Len(c.structs) /\ {a.name : a \in RangeOf(access)} = {st.name : st \in RangeOf(c.structs)}
  /\ \A a \in RangeOf(access) : AccessOK(c, r, O, R, a)
  /\ Len(functions) = Cardinality(O)
  /\ RangeOf(functions) = {<<o.fn, o.kind, o.doc>> : o \in O}
  /\ LET want == UNION {{<<s, f.name, ~Withheld(c, StructOf(c, s), f, r), f.doc>>
                         : f \in RangeOf(StructOf(c, s).fields)} : s \in {x.s : x \in R}}
     IN Len(fields) = Cardinality(want) /\ RangeOf(fields) = want
  /\ Agrees(r, JsonFlags(R, access))
  /\ told' = told \cup {<<r, JsonFlags(R, access)>>}
  /\ cur' = cur
=============================================================================
