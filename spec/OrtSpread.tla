------------------------------ MODULE OrtSpread ------------------------------
(* A configuration that is laid out anew again and again: in other files, in  *)
(* another order, with its grants apart or together, in other spellings.      *)
(* Whatever the tools make of it stays what it was.                           *)
EXTENDS OrtForm

CONSTANT Configs
VARIABLES first,   \* index of the configuration as it was laid out at first
          cur      \* and as it is laid out now

Txt == INSTANCE OrtText
Nam == INSTANCE OrtNames
Cat == INSTANCE OrtCatalogue

Known == Configs[first]

(* The declarations are laid out in another way (this is what a layout is).   *)
Layout(to) ==
  /\ Meaning(Configs[to]) = Meaning(Known)
  /\ cur' = to
  /\ first' = first

(* ort writes the configuration as it knows it.                               *)
Written(to, status) ==
  /\ status = 0
  /\ Meaning(Configs[to]) = Meaning(Known)
  /\ UNCHANGED <<first, cur>>

Json(to, status, derived) ==
  /\ status = 0
  /\ Txt!Loose(Meaning(Configs[to])) = Txt!Loose(Meaning(Known))
  /\ derived = Txt!Derived(Known)
  /\ UNCHANGED <<first, cur>>

(* What a back end declares.                                                  *)
Emitted(lang, said, flags) ==
  /\ said.consts = Nam!Consts(Known)
  /\ said.layout = Nam!Layout(lang, Known)
  /\ lang # "javascript" => said.functions = Nam!Functions(lang, Known)
  /\ lang \in {"c", "rust"} => said.roles = Nam!Roles(Known)
  /\ lang = "c" => said.helpers = Nam!Helpers(Known, flags)
  /\ UNCHANGED <<first, cur>>

Tables(cat) ==
  /\ cat = Cat!Catalogue(Known)
  /\ UNCHANGED <<first, cur>>

(* ort-diff and ort-sqldiff between the layout at first and the one now, in   *)
(* either order: there is nothing to tell.                                    *)
Compared(status, said) ==
  /\ status = 0
  /\ said = 0
  /\ UNCHANGED <<first, cur>>
=============================================================================
