----------------------------- MODULE RefOption -----------------------------
(***************************************************************************)
(* Options of references.  a and b are options of E&, c is an option of    *)
(* const E& (or of a base); obj holds the values of the objects they may   *)
(* refer to.  0: empty; i: refers to object i.                             *)
(*                                                                         *)
(* The content of an option is which object it refers to; operations of    *)
(* options change bindings only, writing through an accessor changes only  *)
(* the value of the object referred to.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NObj, NVal,
          Kind                 \* "lref", "clref" (of const: not written through), "rref"

VARIABLES a, b, c, obj, last
vars == <<a, b, c, obj, last>>
Objs == 1..NObj
Vals == 1..NVal
Slots == {1, 2}
Bind == 0..NObj
Get(i) == IF i = 1 THEN a ELSE b
Other(i) == 3 - i
State == <<a, b, c>> \o obj
State2 == <<a', b', c'>> \o obj'

Act(op, args, res) == last' = [op |-> op, args |-> args, res |-> res]
Keep == UNCHANGED <<a, b, c, obj>>
SetSlot(i, x) == IF i = 1 THEN a' = x /\ b' = b ELSE b' = x /\ a' = a
Only(i, x) == SetSlot(i, x) /\ UNCHANGED <<c, obj>>
OnlyC(x) == c' = x /\ UNCHANGED <<a, b, obj>>
None == <<>>

\* bind, rebind, unbind
BindOps == {"assign_value", "emplace", "ctor_value", "ctor_in_place", "make_option"} \cup (IF Kind = "rref" THEN {} ELSE {"ctor_refw", "assign_refw"})
Bound(i, x, op) == Only(i, x) /\ Act(op, <<i, x>>, None)
TryEmplace(i, x) == Only(i, IF Get(i) = 0 THEN x ELSE Get(i)) /\ Act("try_emplace", <<i, x>>, <<IF Get(i) = 0 THEN x ELSE Get(i)>>)
Unbind(i, op) == Only(i, 0) /\ Act(op, <<i>>, None)
Copy(i, op) == Only(i, Get(Other(i))) /\ Act(op, <<i>>, None)       \* from the other slot, which keeps its binding
Self(i, op) == Keep /\ Act(op, <<i>>, None)
Swap(op) == a' = b /\ b' = a /\ UNCHANGED <<c, obj>> /\ Act(op, <<>>, None)
Take(i) == Only(i, 0) /\ Act("take", <<i>>, <<Get(i)>>)
TakeIf(i, k) == LET x == Get(i) IN
  LET hit == x # 0 /\ obj[x] = k IN Only(i, IF hit THEN 0 ELSE x) /\ Act("take_if", <<i, k>>, <<IF hit THEN x ELSE 0>>)
TakeIntoOther(i) == LET x == Get(i) IN
  (IF i = 1 THEN a' = 0 /\ b' = x ELSE b' = 0 /\ a' = x) /\ UNCHANGED <<c, obj>> /\ Act("take_into_other", <<i>>, None)

\* the option of const
ToConst(i, op) == OnlyC(Get(i)) /\ Act(op, <<i>>, None)
CBind(x, op) == OnlyC(x) /\ Act(op, <<x>>, None)
CUnbind(op) == OnlyC(0) /\ Act(op, <<>>, None)

\* writing through an accessor
WriteOps == {"w_deref", "w_get", "w_value", "w_value_or_throw", "w_arrow", "w_ptr", "w_begin", "w_range", "w_inspect", "w_map", "w_const_deref", "w_const_get", "w_const_value", "w_const_begin", "w_const_ptr", "w_unchecked"}
            \cup (IF Kind = "rref" THEN {} ELSE {"w_value_or"})
Write(i, k, op) == Kind # "clref" /\ Get(i) # 0 /\ obj' = [obj EXCEPT ![Get(i)] = k] /\ UNCHANGED <<a, b, c>> /\ Act(op, <<i, k>>, None)
WriteObj(x, k) == obj' = [obj EXCEPT ![x] = k] /\ UNCHANGED <<a, b, c>> /\ Act("write_obj", <<x, k>>, None)

\* reading
V(x) == IF x = 0 THEN 0 ELSE obj[x]
B01(p) == IF p THEN 1 ELSE 0
EqR(x, y) == IF x # 0 /\ y # 0 THEN obj[x] = obj[y] ELSE (x = 0) = (y = 0)
LtR(x, y) == IF x # 0 /\ y # 0 THEN obj[x] < obj[y] ELSE x = 0 /\ y # 0
Read(op, args, res) == Keep /\ Act(op, args, res)
Reads ==
  \/ Read("cmp", <<>>, <<B01(EqR(a, b)), B01(~EqR(a, b)), B01(LtR(a, b)), B01(LtR(b, a) \/ FALSE), B01(~LtR(b, a)), B01(~LtR(a, b))>>)
  \/ Read("cmp_c", <<>>, <<B01(EqR(a, c)), B01(LtR(a, c)), B01(LtR(c, a))>>)
  \/ \E i \in Slots, x \in Objs : Read("cmp_value", <<i, x>>, <<B01(Get(i) # 0 /\ obj[Get(i)] = obj[x]), B01(Get(i) = 0 \/ obj[Get(i)] < obj[x])>>)
  \/ \E i \in Slots, x \in Objs : Read("value_or", <<i, x>>, <<IF Get(i) = 0 THEN x ELSE Get(i)>>)
  \/ Kind # "rref" /\ \E i \in Slots, x \in Objs : Read("or_value", <<i, x>>, <<IF Get(i) = 0 THEN x ELSE Get(i)>>)
  \/ \E i \in Slots, x \in Objs : Read("or_else", <<i, x>>, <<IF Get(i) = 0 THEN x ELSE Get(i)>>)
  \/ \E i \in Slots : Read("map_value", <<i>>, <<V(Get(i))>>)
  \/ \E i \in Slots : Read("map_ref", <<i>>, <<Get(i)>>)
  \/ \E i \in Slots : Read("and_then", <<i>>, <<IF Get(i) # 0 /\ obj[Get(i)] = 1 THEN Get(i) ELSE 0>>)
  \/ \E i \in Slots, k \in Vals : Read("filter", <<i, k>>, <<IF V(Get(i)) = k THEN Get(i) ELSE 0>>)
  \/ \E i \in Slots, k \in Vals : Read("has_value_and", <<i, k>>, <<B01(V(Get(i)) = k)>>)
  \/ \E i \in Slots : Read("value", <<i>>, <<Get(i)>>)            \* 0: throws
  \/ \E i \in Slots : Read("map_or", <<i>>, <<IF Get(i) = 0 THEN 9 ELSE V(Get(i)), IF Get(i) = 0 THEN 8 ELSE V(Get(i))>>)
  \/ \E i \in Slots, m \in {"l", "r"} : Read("or_" \o m, <<i>>, <<IF Get(i) # 0 THEN Get(i) ELSE Get(Other(i))>>)
  \/ \E i \in Slots, m \in {"l", "r"} : Read("and_" \o m, <<i>>, <<IF Get(i) # 0 THEN Get(Other(i)) ELSE 0>>)
  \/ \E i \in Slots, m \in {"l", "r"} : Read("xor_" \o m, <<i>>, <<IF (Get(i) = 0) = (Get(Other(i)) = 0) THEN 0 ELSE IF Get(i) # 0 THEN Get(i) ELSE Get(Other(i))>>)
  \/ Read("zip", <<>>, IF a # 0 /\ b # 0 THEN <<a, b>> ELSE <<0, 0>>)
  \/ Read("count", <<>>, <<B01(a # 0), B01(b # 0), B01(c # 0)>>)
OrAssign(i) == Only(i, IF Get(i) # 0 THEN Get(i) ELSE Get(Other(i))) /\ Act("or_assign", <<i>>, None)
OrAssignValue(i, x) == Kind # "rref" /\ Only(i, IF Get(i) # 0 THEN Get(i) ELSE x) /\ Act("or_assign_value", <<i, x>>, None)

Init == a = 0 /\ b = 0 /\ c = 0 /\ obj = [x \in Objs |-> 1] /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next ==
  \/ \E i \in Slots :
       \/ \E x \in Objs : (\E op \in BindOps : Bound(i, x, op)) \/ TryEmplace(i, x) \/ OrAssignValue(i, x)
       \/ \E op \in {"reset", "assign_none", "assign_braces", "ctor_default", "ctor_none"} : Unbind(i, op)
       \/ \E op \in {"ctor_copy", "ctor_move", "assign_copy", "assign_move", "assign_const"} : Copy(i, op)
       \/ \E op \in {"self_copy", "self_move", "self_swap", "inspect"} : Self(i, op)
       \/ Take(i) \/ TakeIntoOther(i) \/ OrAssign(i)
       \/ \E k \in Vals : TakeIf(i, k) \/ \E op \in WriteOps : Write(i, k, op)
       \/ \E op \in {"c_ctor_copy", "c_ctor_move", "c_assign_copy", "c_assign_move", "c_assign_const"} : ToConst(i, op)
  \/ \E op \in {"swap", "opt_swap", "adl_swap"} : Swap(op)
  \/ \E x \in Objs : \E op \in {"c_assign_value", "c_ctor_value", "c_emplace"} : CBind(x, op)
  \/ \E op \in {"c_reset", "c_take", "c_assign_none"} : CUnbind(op)
  \/ \E x \in Objs, k \in Vals : WriteObj(x, k)
  \/ Reads
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == a \in Bind /\ b \in Bind /\ c \in Bind /\ obj \in [Objs -> Vals]
\* an operation either changes bindings or one object, never both
NeverWritesThrough == [][obj' # obj => UNCHANGED <<a, b, c>>]_vars
OneObject == [][Cardinality({x \in Objs : obj[x] # obj'[x]}) <= 1]_vars
\* only writes (through an option that refers to it, or directly) change an object
WhoWrites == [][obj' # obj => last'.op \in WriteOps \cup {"write_obj"}]_vars
WritesWhereBound == [][(last'.op \in WriteOps) => \A x \in Objs : x # Get(last'.args[1]) => obj'[x] = obj[x]]_vars

Emit == PrintT("EDGE " \o ToJson([s |-> State, a |-> last', t |-> State2]))
View == <<a, b, c, obj>>
=============================================================================
