----------------------------- MODULE OrtSyntax -------------------------------
(* Which sequences of tokens are ort documents (ort(5)).                      *)
(*                                                                           *)
(* A token is <<kind, value>>, where kind is one of id (with the identifier   *)
(* in lowercase), int, dec, lit, the six punctuation marks, and bad.          *)
(* The language is given as a pushdown automaton: a stack of symbols that are *)
(* still to come, and Expand, which says what a symbol becomes when a token   *)
(* is ahead.                                                                 *)
EXTENDS Integers, Sequences, TLC

Terminals == {"id", "int", "dec", "lit", ";", ":", ",", ".", "{", "}"}
Reject == <<"reject">>

QueryKinds == {"search", "list", "iterate", "count"}
BinaryOps == {"eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq"}
Operators == BinaryOps \cup {"isnull", "notnull"}
Modifiers == {"concat", "dec", "inc", "set", "strset"}
LimitOps == {"ge", "le", "gt", "lt", "eq"}
Actions == {"none", "restrict", "nullify", "cascade", "default"}
NamedGrants == QueryKinds \cup {"update", "delete"}

(* Types by the words for them.                                               *)
TypeOf(w) ==
  CASE w \in {"bit", "blob", "date", "email", "epoch", "real", "enum", "struct", "int", "bits",
              "password", "text"} -> w
    [] w = "bitfield" -> "bits"
    [] w = "double" -> "real"
    [] w = "integer" -> "int"
    [] w = "passwd" -> "password"
    [] w = "txt" -> "text"
    [] OTHER -> ""

InfoOf(t) == "info " \o t
Types == {"bit", "blob", "date", "email", "epoch", "real", "enum", "struct", "int", "bits",
          "password", "text"}
TypeOfInfo(sym) == CHOOSE t \in Types : InfoOf(t) = sym
Infos == {InfoOf(t) : t \in Types}

LimitValue(t) ==
  CASE t \in {"bit", "date", "epoch", "int", "blob", "email", "text", "password"} -> <<"int">>
    [] t = "real" -> <<"number">>
    [] OTHER -> Reject
DefaultForm(t) ==
  CASE t \in {"bit", "bits", "epoch", "int"} -> <<"int">>
    [] t = "date" -> <<"int", "negative", "negative">>
    [] t = "real" -> <<"number">>
    [] t \in {"email", "text"} -> <<"lit">>
    [] t = "enum" -> <<"id">>
    [] OTHER -> Reject

Expand(sym, k, w) ==
  LET id == k = "id" IN
  CASE sym = "document" ->
         CASE id /\ w = "struct" -> <<"id", "id", "{", "struct body", "document">>
           [] id /\ w = "enum" -> <<"id", "id", "{", "enum body", "document">>
           [] id /\ w \in {"bits", "bitfield"} -> <<"id", "id", "{", "bits body", "document">>
           [] id /\ w = "roles" -> <<"id", "{", "roles", "}", ";", "document">>
           [] OTHER -> Reject
  (* --------------------------------- roles ------------------------------- *)
    [] sym = "roles" ->
         CASE id /\ w = "role" -> <<"id", "id", "role doc", "role body", "roles">>
           [] k = "}" -> <<>>
           [] OTHER -> Reject
    [] sym = "role doc" -> IF id /\ w = "comment" THEN <<"id", "lit">> ELSE <<>>
    [] sym = "role body" ->
         CASE k = "{" -> <<"{", "roles", "}", ";">>
           [] OTHER -> <<";">>
  (* ------------------------ enumerations and bitfields ------------------- *)
    [] sym = "enum body" ->
         CASE k = "}" -> <<"}", ";">>
           [] id /\ w = "comment" -> <<"id", "lit", ";", "enum body">>
           [] id /\ w = "isnull" -> <<"id", "labels", "enum body">>
           [] id /\ w = "item" -> <<"id", "id", "item value", "item attributes", "enum body">>
           [] OTHER -> Reject
    [] sym = "item value" -> IF k = "int" THEN <<"int">> ELSE <<>>
    [] sym = "bits body" ->
         CASE k = "}" -> <<"}", ";">>
           [] id /\ w = "comment" -> <<"id", "lit", ";", "bits body">>
           [] id /\ w \in {"isnull", "isunset", "unset"} -> <<"id", "labels", "bits body">>
           [] id /\ w = "item" -> <<"id", "id", "int", "item attributes", "bits body">>
           [] OTHER -> Reject
    [] sym = "item attributes" ->
         CASE k = ";" -> <<";">>
           [] id /\ w = "comment" -> <<"id", "lit", "item attributes">>
           [] id /\ w = "jslabel" -> <<"id", "language", "lit", "item attributes">>
           [] OTHER -> Reject
    [] sym = "labels" ->
         CASE k = ";" -> <<";">>
           [] id /\ w = "jslabel" -> <<"id", "language", "lit", "labels">>
           [] OTHER -> Reject
    [] sym = "language" -> IF k = "." THEN <<".", "id">> ELSE <<>>
  (* ------------------------------- structures ---------------------------- *)
    [] sym = "struct body" ->
         CASE k = "}" -> <<"}", ";">>
           [] id /\ w = "comment" -> <<"id", "lit", ";", "struct body">>
           [] id /\ w = "field" -> <<"id", "id", "field", "struct body">>
           [] id /\ w \in QueryKinds -> <<"id", "query", "struct body">>
           [] id /\ w = "update" -> <<"id", "update", "struct body">>
           [] id /\ w = "delete" -> <<"id", "constraints", "struct body">>
           [] id /\ w = "insert" -> <<"id", ";", "struct body">>
           [] id /\ w = "unique" -> <<"id", "id", ",", "id", "more unique", "struct body">>
           [] id /\ w = "roles" -> <<"id", "id", "more roles", "{", "grants", "struct body">>
           [] OTHER -> Reject
    [] sym = "more unique" -> IF k = "," THEN <<",", "id", "more unique">> ELSE <<";">>
    [] sym = "more roles" -> IF k = "," THEN <<",", "id", "more roles">> ELSE <<>>
    [] sym = "grants" ->
         CASE k = "}" -> <<"}", ";">>
           [] id /\ w \in {"insert", "all"} -> <<"id", ";", "grants">>
           [] id /\ w = "noexport" -> <<"id", "optional", ";", "grants">>
           [] id /\ w \in NamedGrants -> <<"id", "id", ";", "grants">>
           [] OTHER -> Reject
    [] sym = "optional" -> IF id THEN <<"id">> ELSE <<>>
  (* --------------------------------- fields ------------------------------ *)
    [] sym = "field" ->
         CASE k = ":" -> <<":", "id", ".", "id", "field type">>
           [] OTHER -> <<"field type">>
    [] sym = "field type" ->
         CASE k = ";" -> <<";">>
           [] id /\ TypeOf(w) \in {"enum", "bits", "struct"} -> <<"id", "id", InfoOf(TypeOf(w))>>
           [] id /\ TypeOf(w) # "" -> <<"id", InfoOf(TypeOf(w))>>
           [] OTHER -> Reject
    [] sym \in Infos ->
         CASE k = ";" -> <<";">>
           [] id /\ w \in {"null", "unique", "rowid", "noexport"} -> <<"id", sym>>
           [] id /\ w = "comment" -> <<"id", "lit", sym>>
           [] id /\ w \in {"actdel", "actup"} -> <<"id", "action", sym>>
           [] id /\ w = "limit" ->
                IF LimitValue(TypeOfInfo(sym)) = Reject THEN Reject
                ELSE <<"id", "limit operator">> \o LimitValue(TypeOfInfo(sym)) \o <<sym>>
           [] id /\ w = "default" ->
                IF DefaultForm(TypeOfInfo(sym)) = Reject THEN Reject
                ELSE <<"id">> \o DefaultForm(TypeOfInfo(sym)) \o <<sym>>
           [] OTHER -> Reject
    [] sym = "action" -> IF id /\ w \in Actions THEN <<"id">> ELSE Reject
    [] sym = "limit operator" -> IF id /\ w \in LimitOps THEN <<"id">> ELSE Reject
    [] sym = "number" -> IF k \in {"int", "dec"} THEN <<k>> ELSE Reject
    [] sym = "negative" -> IF k = "int" /\ w = "-" THEN <<"int">> ELSE Reject
  (* -------------------------------- queries ------------------------------ *)
    [] sym = "query" ->
         CASE id -> <<"id", "path", "operator", "more terms">>
           [] k = ":" -> <<":", "parameters">>
           [] OTHER -> <<";">>
    [] sym = "path" -> IF k = "." THEN <<".", "id", "path">> ELSE <<>>
    [] sym = "operator" ->
         IF id THEN (IF w \in Operators THEN <<"id">> ELSE Reject) ELSE <<>>
    [] sym = "more terms" ->
         CASE k = "," -> <<",", "id", "path", "operator", "more terms">>
           [] k = ":" -> <<":", "parameters">>
           [] OTHER -> <<";">>
    [] sym = "parameters" ->
         CASE k = ";" -> <<";">>
           [] id /\ w = "name" -> <<"id", "id", "parameters">>
           [] id /\ w = "comment" -> <<"id", "lit", "parameters">>
           [] id /\ w = "limit" -> <<"id", "int", "offset", "parameters">>
           [] id /\ w \in {"minrow", "maxrow", "grouprow"} -> <<"id", "id", "path", "parameters">>
           [] id /\ w = "order" -> <<"id", "id", "path", "direction", "more order", "parameters">>
           [] id /\ w = "distinct" -> <<"id", "distinct", "parameters">>
           [] OTHER -> Reject
    [] sym = "offset" -> IF k = "," THEN <<",", "int">> ELSE <<>>
    [] sym = "direction" -> IF id /\ w \in {"asc", "desc"} THEN <<"id">> ELSE <<>>
    [] sym = "more order" ->
         IF k = "," THEN <<",", "id", "path", "direction", "more order">> ELSE <<>>
    [] sym = "distinct" -> IF k = "." THEN <<".">> ELSE <<"id", "path">>
  (* --------------------------- updates and deletes ----------------------- *)
    [] sym = "update" ->
         CASE id -> <<"id", "modifier", "more modified">>
           [] k = ":" -> <<":", "constraints">>
           [] OTHER -> <<";">>
    [] sym = "modifier" ->
         IF id THEN (IF w \in Modifiers THEN <<"id">> ELSE Reject) ELSE <<>>
    [] sym = "more modified" ->
         CASE k = "," -> <<",", "id", "modifier", "more modified">>
           [] k = ":" -> <<":", "constraints">>
           [] OTHER -> <<";">>
    [] sym = "constraints" ->
         CASE id -> <<"id", "operator", "more constraints">>
           [] k = ":" -> <<":", "terms">>
           [] OTHER -> <<";">>
    [] sym = "more constraints" ->
         CASE k = "," -> <<",", "id", "operator", "more constraints">>
           [] k = ":" -> <<":", "terms">>
           [] OTHER -> <<";">>
    [] sym = "terms" ->
         CASE k = ";" -> <<";">>
           [] id /\ w = "name" -> <<"id", "id", "terms">>
           [] id /\ w = "comment" -> <<"id", "lit", "terms">>
           [] OTHER -> Reject
    [] OTHER -> Reject

(* One token off: the stack after it, or Reject.                              *)
RECURSIVE Take(_, _)
Take(stack, t) ==
  IF stack = <<>> THEN Reject
  ELSE IF stack[1] \in Terminals
       THEN IF stack[1] = t[1] THEN Tail(stack) ELSE Reject
       ELSE LET e == Expand(stack[1], t[1], t[2])
            IN IF e = Reject THEN Reject ELSE Take(e \o Tail(stack), t)

RECURSIVE Run(_, _, _)
Run(stack, toks, i) ==
  IF stack = Reject THEN FALSE
  ELSE IF i > Len(toks) THEN stack = <<"document">>
  ELSE Run(Take(stack, toks[i]), toks, i + 1)

IsDocument(toks) == Run(<<"document">>, toks, 1)
=============================================================================
