----------------------------- MODULE OrtProgram ------------------------------
(* What is generated of a configuration is a program: its units compile, they *)
(* define what they were asked for and link together, its SQL statements are  *)
(* understood by a database with the schema that is generated, and its types  *)
(* are consistent.                                                           *)
EXTENDS OrtNames

VARIABLES units,     \* what has been compiled: set of [base, flags]
          stage      \* "building", or "linked"
pvars == <<cur, units, stage>>

(* ----------------------------------- units -------------------------------- *)
(* The C API may be had in one unit or several: its base, export to and       *)
(* import from JSON ("j", "J") and validation ("v").                          *)
Flags == {"j", "J", "v"}
Units == {u \in [base : {0, 1}, flags : SUBSET Flags] : u.base = 1 \/ u.flags # {}}
FunctionNames(c) == {f[1] : f \in Functions("c", c)}
Provides(c, u) ==
  (IF u.base = 1 THEN FunctionNames(c) \cup Helpers(c, {}) ELSE {})
  \cup (Helpers(c, u.flags) \ Helpers(c, {}))
Provided(c, us) == UNION {Provides(c, u) : u \in us}

(* Units that may be in a program together, and those that make up one.       *)
Disjoint(us) == \A u, w \in us : u # w => (u.base = 0 \/ w.base = 0) /\ u.flags \cap w.flags = {}
Complete(us) == \E u \in us : u.base = 1

(* --------------------------------- statements ----------------------------- *)
(* The columns that make up an object: its own and those of its parts, save   *)
(* the ones that may be missing, which are asked for by themselves.           *)
RECURSIVE Columns(_, _), ColumnsOf(_, _, _)
ColumnsOf(c, st, fs) ==
  IF fs = <<>> THEN 0
  ELSE (CASE Head(fs).type # "struct" -> 1
          [] NullableRef(st, Head(fs)) -> 0
          [] OTHER -> Columns(c, StructOf(c, TargetOf(st, Head(fs))[1]))) + ColumnsOf(c, st, Tail(fs))
Columns(c, st) == ColumnsOf(c, st, st.fields)

(* Passwords are not compared by the database.                                *)
Compared(f, op) == f.type = "password" /\ op \in {"eq", "neq"}
Placed(fs, ops) == Cardinality({i \in Idx(ops) : ~NullTest(ops[i]) /\ ~Compared(fs[i], ops[i])})

(* [function, only reads, parameters, columns]                                *)
QueryShape(c, st, q) ==
  <<QueryFn("c", c, st, q)[1], 1,
    Placed([i \in Idx(q.terms) |-> PathField(c, st, q.terms[i].path)], [i \in Idx(q.terms) |-> q.terms[i].op]),
    IF q.kind = "count" THEN 1
    ELSE Columns(c, IF q.distinct = <<>> THEN st ELSE PathStruct(c, st, q.distinct[1]))>>
UpdateShape(st, u) ==
  <<UpdateFn("c", st, u)[1], 0,
    Len(UpdateMods(st, u)) + Placed([i \in Idx(u.cons) |-> FieldOf(st, u.cons[i][1])], [i \in Idx(u.cons) |-> u.cons[i][2]]), 0>>
DeleteShape(st, d) ==
  <<DeleteFn("c", st, d)[1], 0,
    Placed([i \in Idx(d.cons) |-> FieldOf(st, d.cons[i][1])], [i \in Idx(d.cons) |-> d.cons[i][2]]), 0>>
Shapes(c) ==
  UNION {(IF st.insert = 1 THEN {<<InsertFn("c", st)[1], 0, Len(InsertIx(st)), 0>>} ELSE {})
         \cup {QueryShape(c, st, q) : q \in RangeOf(st.queries)}
         \cup {UpdateShape(st, u) : u \in RangeOf(st.updates)}
         \cup {DeleteShape(st, d) : d \in RangeOf(st.deletes)} : st \in RangeOf(c.structs)}
(* Objects that may be missing are asked for by what they are known by.       *)
Fetched(c) ==
  UNION {{<<1, 1, Columns(c, StructOf(c, TargetOf(st, f)[1]))>>
          : f \in {f \in RangeOf(st.fields) : f.type = "struct" /\ NullableRef(st, f)}} : st \in RangeOf(c.structs)}
Shape(s) == <<s[2], s[3], s[4]>>

(* -------------------------------- transitions ----------------------------- *)
(* A header and a source for a unit are generated and compiled.               *)
Compile(u, defined, complaints) ==
  /\ stage = "building"
  /\ u \in Units
  /\ complaints = <<>>
  /\ Provides(Configs[cur], u) \subseteq defined
  /\ units' = units \cup {u}
  /\ UNCHANGED <<cur, stage>>

(* A program that uses all that the headers declare.                          *)
Link(used, complaints) ==
  /\ stage = "building"
  /\ Complete(units)
  /\ Disjoint(units)
  /\ complaints = <<>>
  /\ used = Provided(Configs[cur], units)
  /\ stage' = "linked"
  /\ UNCHANGED <<cur, units>>

(* The program gives the database its statements, [only reads, parameters,    *)
(* columns] each, or [complaint] if one is not understood.                    *)
Prepare(given) ==
  /\ stage = "linked"
  /\ \A g \in given : Len(g) = 3
  /\ {Shape(s) : s \in Shapes(Configs[cur])} \cup Fetched(Configs[cur]) \subseteq given
  /\ UNCHANGED pvars

(* Functions of the Node.js module are called: [function, statements], each   *)
(* statement [only reads, parameters, columns, parameters that it got].       *)
Call(calls) ==
  LET c == Configs[cur] IN
  /\ {x[1] : x \in calls} = {s[1] : s \in Shapes(c)}
  /\ \A x \in calls : \A i \in Idx(x[2]) : Len(x[2][i]) = 4 /\ x[2][i][2] = x[2][i][4]
  /\ \A s \in Shapes(c) : \E x \in calls :
       /\ x[1] = s[1]
       /\ Len(x[2]) > 0
       /\ <<x[2][1][1], x[2][1][2], x[2][1][3]>> = Shape(s)
  /\ UNCHANGED pvars

(* A schema is read by the database, or a module by the type checker.         *)
Understand(complaints) ==
  /\ complaints = <<>>
  /\ UNCHANGED pvars
=============================================================================
