----------------------------- MODULE OptionFault -----------------------------
(***************************************************************************)
(* Every operation of OptionCore, failing.  An operation of T (or the      *)
(* callback) throws at an unspecified point inside the call; `alts` is the *)
(* set of contents the pool may then have.  The set is the promise of the  *)
(* library, not its code: which special members run, and how often, is     *)
(* open.  A type's own throwing operation is assumed to leave the T it was *)
(* applied to as it was, so a set with several elements reflects a choice  *)
(* of the library (how far it got), never one of T.                        *)
(***************************************************************************)
EXTENDS OptionCore
VARIABLE alts

AllCats == {"l", "cl", "r", "cr"}
CtorOps == {"ctor_inplace", "ctor_valr", "ctor_vall", "ctor_copy", "make_option_t", "make_option_l", "make_option_r"}
MoveOuts == {"get_r", "deref_r", "get_unchecked_r", "value_r", "value_or_throw_r", "value_or_r_l", "value_or_r_r",
             "value_or_construct_r", "filter_r", "or_else_r"}
            \cup {m \o "_r_sink" : m \in {"map", "and_then", "map_or", "map_or_else"}}

FaultAlts(op, args, s) ==
  LET i == args[1]
      Is(S)      == {[s EXCEPT ![i] = c] : c \in S}
      IsJ(j, A, B) == {[s EXCEPT ![i] = a, ![j] = b] : a \in A, b \in B}
  IN CASE op \in CtorOps \cup {"emplace"}  -> Is({0})                      \* no object came into being
       [] op = "ctor_move"   -> IsJ(args[2], {0}, {s[args[2]], Out(s[args[2]])})
       [] op = "move_assign" -> IsJ(args[2], {s[i]}, {s[args[2]], Out(s[args[2]])})
       [] op \in MoveOuts    -> Is({s[i], Out(s[i])})
       [] op \in {"take", "take_if"} -> Is({s[i], Out(s[i]), 0})
       [] op = "take_into"   -> IsJ(args[2], {s[i], Out(s[i]), 0}, {s[args[2]]})
       [] op \in {"swap", "swap_free"} ->
            LET j == args[2]
                both == {s[i], s[j], Out(s[i])}
            IN IF Engaged(s[i]) /\ Engaged(s[j]) THEN IsJ(j, both, both)
               ELSE IsJ(j, {s[i], Out(s[i])}, {s[j], Out(s[j])})
       [] OTHER -> {s}

FInit == Init /\ alts = {slot}
FNext == Next /\ alts' = FaultAlts(last'.op, last'.args, slot)
FSpec == FInit /\ [][FNext]_<<vars, alts>>

(* The promises.                                                            *)
Consistent == [][ \A a \in alts' : a \in [Slots -> Codes] ]_<<vars, alts>>
EmptyStaysEmpty == [][ \A a \in alts' : \A i \in Slots : slot[i] = 0 => a[i] = 0 ]_<<vars, alts>>
Ends == CtorOps \cup {"emplace", "take", "take_if", "take_into", "ctor_move"}
AssignedKeepsObject == [][ last'.op \notin Ends => \A a \in alts' : \A i \in Slots : slot[i] # 0 => a[i] # 0 ]_<<vars, alts>>
ReadOnly == [][ (last'.op \in {m \o "_" \o c : m \in {"inspect", "value", "get", "deref", "filter", "value_or_throw", "has_value_and"}, c \in {"l", "cl", "cr"}})
                  => alts' = {slot} ]_<<vars, alts>>
OthersUntouched ==
  [][ \A a \in alts' : \A k \in Slots :
        (k # last'.args[1] /\ ~(last'.op \in Touches2 /\ k = last'.args[2])) => a[k] = slot[k] ]_<<vars, alts>>

FEmit == PrintT("EDGE " \o ToJson([s |-> slot, a |-> last', t |-> slot', alts |-> alts']))
=============================================================================
