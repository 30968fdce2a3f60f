------------------------------- MODULE OrtText -------------------------------
(* A configuration in its written forms: what the tools turn one into must    *)
(* declare the same.                                                         *)
EXTENDS OrtForm

CONSTANT Configs
VARIABLE cur       \* index of the configuration declared by the document held

(* Declarations that have no order among themselves.                          *)
Bag(s) == [x \in {s[i] : i \in Idx(s)} |-> Cardinality({i \in Idx(s) : s[i] = x})]
Loose(m) ==
  [m EXCEPT !.structs = [n \in DOMAIN @ |->
     [@[n] EXCEPT !.queries = Bag(@), !.updates = Bag(@), !.deletes = Bag(@)]]]

(* --------------------------- what ort-json adds --------------------------- *)
RECURSIVE Chain(_, _, _)
Chain(c, st, path) ==
  IF path = <<>> THEN <<>>
  ELSE <<<<st.name, path[1]>>>> \o
       (IF Len(path) = 1 THEN <<>>
        ELSE Chain(c, StructOf(c, TargetOf(st, FieldOf(st, path[1]))[1]), Tail(path)))

RECURSIVE Joined(_)
Joined(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "_" \o Joined(Tail(p))

Paths(q) ==
  {q.terms[i].path : i \in Idx(q.terms)} \cup {q.order[i][1] : i \in Idx(q.order)}
  \cup RangeOf(q.distinct)
  \cup UNION {{q.group[i][1], q.group[i][3]} : i \in Idx(q.group)}

Sub(c, r) == {c.roles[i].name : i \in {i \in Idx(c.roles) : c.roles[i].parent = r}}

Derived(c) ==
  (IF c.hasroles = 0 THEN {}
   ELSE {<<"role", r, IF r \in Declared(c) THEN Parent(c, r) ELSE "", Sub(c, r)>>
         : r \in Declared(c) \cup {"none", "default", "all"}})
  \cup UNION {{<<"mask", b.name, b.items[i].name, {b.items[i].bit}>> : i \in Idx(b.items)}
              : b \in RangeOf(c.bits)}
  \cup UNION {
    LET s == c.structs[k] IN
    {<<"roles", s.name, "noexport", f.name, NoexportRoles(s, f)>> : f \in RangeOf(s.fields)}
    \cup (IF s.insert = 1 THEN {<<"roles", s.name, "insert", "", Granted(s, "insert", "")>>} ELSE {})
    \cup {<<"roles", s.name, q.kind, q.name, Granted(s, q.kind, q.name)>> : q \in RangeOf(s.queries)}
    \cup {<<"roles", s.name, "update", u.name, Granted(s, "update", u.name)>> : u \in RangeOf(s.updates)}
    \cup {<<"roles", s.name, "delete", u.name, Granted(s, "delete", u.name)>> : u \in RangeOf(s.deletes)}
    \cup {<<"target", s.name, f.name, TargetOf(s, f)>> : f \in {f \in RangeOf(s.fields) : f.type = "struct"}}
    \cup UNION {{<<"chain", s.name, p, Chain(c, s, p)>> : p \in Paths(q)} : q \in RangeOf(s.queries)}
    \cup UNION {{<<"term", s.name, p, <<Joined(p), Chain(c, s, p)[Len(p)][1], Chain(c, s, p)[Len(p)][2]>>>>
                 : p \in {q.terms[i].path : i \in Idx(q.terms)}} : q \in RangeOf(s.queries)}
    \cup {<<"distinct", s.name, q.distinct[1], PathStruct(c, s, q.distinct[1]).name>>
          : q \in {q \in RangeOf(s.queries) : q.distinct # <<>>}}
    \cup {<<"mods", s.name, u.name, UpdateMods(s, u)>> : u \in RangeOf(s.updates)}
    : k \in Idx(c.structs)}

(* -------------------------------- transitions ----------------------------- *)
(* ort reads the document and writes it anew.  "again" tells whether doing so *)
(* once more changes nothing.                                                *)
Format(to, status, again) ==
  /\ status = 0
  /\ Meaning(Configs[to]) = Meaning(Configs[cur])
  /\ again = 1
  /\ cur' = to

(* ort-json writes it as JSON, where operations with and without names are    *)
(* kept apart; "derived" is what it states besides, and every declaration is  *)
(* said to be where it is.                                                   *)
ToJson(to, status, derived, misplaced) ==
  /\ status = 0
  /\ Loose(Meaning(Configs[to])) = Loose(Meaning(Configs[cur]))
  /\ derived = Derived(Configs[cur])
  /\ misplaced = {}
  /\ cur' = cur

(* ort-json.ts turns the JSON form back.                                      *)
FromJson(to, status) ==
  /\ status = 0
  /\ Loose(Meaning(Configs[to])) = Loose(Meaning(Configs[cur]))
  /\ cur' = to

(* The same declarations, spread over files in another order.                 *)
Spread(to, status) ==
  /\ status = 0
  /\ Meaning(Configs[to]) = Meaning(Configs[cur])
  /\ cur' = to
=============================================================================
