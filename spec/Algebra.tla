------------------------------- MODULE Algebra -------------------------------
(***************************************************************************)
(* The operators |, |=, & and ^ on three options of one type.              *)
(* Content: 0 empty, 1..NVals a value, MOVED a moved-from value.           *)
(* An operand is named by its slot and the way it is passed: "cl" const    *)
(* lvalue, "l" lvalue, "r" rvalue, "cr" const rvalue.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NVals, MoveKind, CanCopy

MOVED == 9
Slots == {1, 2, 3}
Vals == 1..NVals
Contents == 0..NVals \cup (IF MoveKind = "mark" THEN {MOVED} ELSE {})
Out(c) == IF MoveKind = "mark" /\ c # 0 THEN MOVED ELSE c
Cats == IF CanCopy THEN {"cl", "l", "r", "cr"} ELSE {"r"}
Ops == {"or", "and", "xor"}

VARIABLES slot, last
vars == <<slot, last>>

----------------------------------------------------------------------------
(* which operand is the result: 1 left, 2 right, 0 none *)
Side(op, x, y) ==
  CASE op = "or"  -> IF x # 0 THEN 1 ELSE IF y # 0 THEN 2 ELSE 0
    [] op = "and" -> IF x # 0 /\ y # 0 THEN 2 ELSE 0
    [] op = "xor" -> IF x # 0 /\ y = 0 THEN 1 ELSE IF x = 0 /\ y # 0 THEN 2 ELSE 0
F(op, x, y) == LET s == Side(op, x, y) IN IF s = 1 THEN x ELSE IF s = 2 THEN y ELSE 0

\* Laws of the operators, over all contents
ASSUME \A x, y, z \in 0..3 :
  /\ F("or", F("or", x, y), z) = F("or", x, F("or", y, z))
  /\ F("and", F("and", x, y), z) = F("and", x, F("and", y, z))
ASSUME \A x \in 0..3 :
  /\ F("or", x, 0) = x /\ F("or", 0, x) = x /\ F("or", x, x) = x
  /\ F("and", x, 0) = 0 /\ F("and", 0, x) = 0 /\ F("and", x, x) = x
  /\ F("xor", x, 0) = x /\ F("xor", 0, x) = x /\ F("xor", x, x) = 0
ASSUME \A x, y \in 0..3 :
  /\ (x # 0 /\ y # 0) => F("xor", x, y) = 0
  /\ F("xor", x, y) # 0 <=> (x # 0) # (y # 0)
  /\ F("xor", x, y) \in {0, F("or", x, y)}
  /\ F("or", F("xor", x, y), F("and", x, y)) \in {F("or", x, y), y}

----------------------------------------------------------------------------
NoEv == [cc |-> 0, mc |-> <<0, 0>>]
\* one copy or at least one move of the selected operand; moves of the result are left to the compiler
Ev(content, cat) == IF content = 0 THEN NoEv
                    ELSE IF cat = "r" THEN [cc |-> 0, mc |-> <<1, 3>>]
                    ELSE [cc |-> 1, mc |-> <<0, 2>>]
Step(op, args, s2, res, e) == slot' = s2 /\ last' = [op |-> op, args |-> args, res |-> res, ev |-> e]
AnyEv == [cc |-> -1, mc |-> <<0, 99>>]

Set(i, c) == Step("set", <<i, c>>, [slot EXCEPT ![i] = c], <<>>, AnyEv)
\* the left operand of & is only looked at
Bin(op, i, ci, j, cj) ==
  LET s == Side(op, slot[i], slot[j])
      k == IF s = 1 THEN i ELSE j
      c == IF s = 1 THEN ci ELSE cj
      x == IF s = 0 THEN 0 ELSE slot[k] IN
  Step(op \o "_" \o ci \o "_" \o cj, <<i, j>>, IF s # 0 /\ c = "r" THEN [slot EXCEPT ![k] = Out(x)] ELSE slot, <<x>>, Ev(x, c))
OrValue(i, ci, v, cv) ==
  LET own == slot[i] # 0 IN
  Step("orv_" \o ci \o "_" \o cv, <<i, v>>, IF own /\ ci = "r" THEN [slot EXCEPT ![i] = Out(slot[i])] ELSE slot,
       <<IF own THEN slot[i] ELSE v>>, IF own THEN Ev(slot[i], ci) ELSE Ev(v, cv))
OrAssign(i, j, cj) ==
  Step("oreq_" \o cj, <<i, j>>,
       IF slot[i] # 0 \/ i = j THEN slot
       ELSE IF cj = "r" THEN [slot EXCEPT ![i] = slot[j], ![j] = Out(slot[j])] ELSE [slot EXCEPT ![i] = slot[j]],
       <<i>>, IF slot[i] # 0 \/ i = j THEN NoEv ELSE [Ev(slot[j], cj) EXCEPT !.mc[2] = IF cj = "r" /\ slot[j] # 0 THEN 1 ELSE 0])
OrAssignValue(i, v, cv) ==
  Step("oreqv_" \o cv, <<i, v>>, IF slot[i] # 0 THEN slot ELSE [slot EXCEPT ![i] = v], <<i>>,
       IF slot[i] # 0 THEN NoEv ELSE [Ev(v, cv) EXCEPT !.mc[2] = IF cv = "r" THEN 1 ELSE 0])
OrAssignNone(i) == Step("oreq_none", <<i>>, slot, <<i>>, NoEv)
\* chains on const lvalues
ChainL(op, i, j, k) == CanCopy /\ Step(op \o "_chain_l", <<i, j, k>>, slot, <<F(op, F(op, slot[i], slot[j]), slot[k])>>, AnyEv)
ChainR(op, i, j, k) == CanCopy /\ Step(op \o "_chain_r", <<i, j, k>>, slot, <<F(op, slot[i], F(op, slot[j], slot[k]))>>, AnyEv)
\* with a fresh empty option
NoneLeft(op, i, c)  == Step(op \o "_none_l_" \o c, <<i>>, IF F(op, 0, slot[i]) # 0 /\ c = "r" THEN [slot EXCEPT ![i] = Out(slot[i])] ELSE slot,
                            <<F(op, 0, slot[i])>>, Ev(F(op, 0, slot[i]), c))
NoneRight(op, i, c) == Step(op \o "_none_r_" \o c, <<i>>, IF F(op, slot[i], 0) # 0 /\ c = "r" THEN [slot EXCEPT ![i] = Out(slot[i])] ELSE slot,
                            <<F(op, slot[i], 0)>>, Ev(F(op, slot[i], 0), c))
\* & with a left operand of another type, empty or not
AndOther(e, j, cj) == LET x == F("and", e, slot[j]) IN
  Step("andx_" \o cj, <<e, j>>, IF x # 0 /\ cj = "r" THEN [slot EXCEPT ![j] = Out(x)] ELSE slot, <<x>>, Ev(x, cj))

Init == slot = [i \in Slots |-> 0] /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>, ev |-> NoEv]
Next ==
  \/ \E i \in Slots, c \in 0..NVals : Set(i, c)
  \/ \E op \in Ops, i, j \in {1, 2} : \E ci, cj \in Cats : Bin(op, i, ci, j, cj)
  \/ \E i \in {1, 2}, v \in Vals : \E ci \in Cats, cv \in (IF CanCopy THEN {"l", "r"} ELSE {"r"}) : OrValue(i, ci, v, cv)
  \/ \E i, j \in {1, 2} : \E cj \in Cats \ {"cr"} : OrAssign(i, j, cj)
  \/ \E i \in {1, 2}, v \in Vals : \E cv \in (IF CanCopy THEN {"l", "r"} ELSE {"r"}) : OrAssignValue(i, v, cv)
  \/ \E i \in Slots : OrAssignNone(i)
  \/ \E op \in Ops : ChainL(op, 1, 2, 3) \/ ChainR(op, 1, 2, 3)
  \/ \E op \in Ops, i \in {1, 2}, c \in Cats : NoneLeft(op, i, c) \/ (op # "and" /\ NoneRight(op, i, c))
  \/ \E e \in {0, 1}, j \in {1, 2}, cj \in Cats : AndOther(e, j, cj)
Spec == Init /\ [][Next]_vars

TypeOK == slot \in [Slots -> Contents]
\* an operand that is not selected, or is passed as an lvalue, is unchanged; at most one option changes, |= apart
AtMostOne == [][Cardinality({i \in Slots : slot'[i] # slot[i]}) <= 2]_vars
EmptyStays == [][ last'.op \notin {"set"} => \A i \in Slots : slot[i] # 0 => slot'[i] # 0 ]_vars

Emit == PrintT("EDGE " \o ToJson([s |-> slot, a |-> last', t |-> slot']))
View == slot
=============================================================================
