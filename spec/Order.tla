-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Comparison of options, values and none.                                 *)
(* Content: 0 none, 1 < 2 < 3 values in order, NAN a value that is neither *)
(* equal to, less nor greater than any value.                              *)
(* Shapes: oo option with option, ov option with value, vo value with      *)
(* option, on option with opt::none, no opt::none with option.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NAN == 4
Plain == 0..3
Dom == 0..4
Ops == {"eq", "ne", "lt", "le", "gt", "ge"}
Shapes == {"oo", "ov", "vo", "on", "no"}

\* the six operators of T on values
ValOp(op, x, y) ==
  IF NAN \in {x, y} THEN op = "ne"
  ELSE CASE op = "eq" -> x = y [] op = "ne" -> x # y [] op = "lt" -> x < y
         [] op = "le" -> x <= y [] op = "gt" -> x > y [] op = "ge" -> x >= y
\* the six operators of a type whose operators have nothing to do with each other: bit n of m is the result of the n-th
Bit(op) == CASE op = "eq" -> 1 [] op = "ne" -> 2 [] op = "lt" -> 4 [] op = "le" -> 8 [] op = "gt" -> 16 [] op = "ge" -> 32
SpyOp(op, m) == (m \div Bit(op)) % 2 = 1

\* none equals none and is less than every value
NoneOp(op, x, y) ==
  LET l == IF x = 0 THEN 0 ELSE 1
      r == IF y = 0 THEN 0 ELSE 1 IN
  CASE op = "eq" -> l = r [] op = "ne" -> l # r [] op = "lt" -> l < r
    [] op = "le" -> l <= r [] op = "gt" -> l > r [] op = "ge" -> l >= r
Cmp(op, x, y) == IF x # 0 /\ y # 0 THEN ValOp(op, x, y) ELSE NoneOp(op, x, y)

----------------------------------------------------------------------------
(* The laws that make it a total order with none below every value *)
ASSUME \A x, y \in Plain :
  /\ Cmp("ne", x, y) = ~Cmp("eq", x, y)
  /\ Cmp("gt", x, y) = Cmp("lt", y, x)
  /\ Cmp("le", x, y) = (Cmp("lt", x, y) \/ Cmp("eq", x, y))
  /\ Cmp("ge", x, y) = Cmp("le", y, x)
  /\ Cmp("lt", x, y) = ~Cmp("ge", x, y)
  /\ Cmp("eq", x, y) = Cmp("eq", y, x)
  /\ Cardinality({op \in {"lt", "eq", "gt"} : Cmp(op, x, y)}) = 1
  /\ Cmp("le", x, y) \/ Cmp("le", y, x)
ASSUME \A x, y, z \in Plain :
  /\ Cmp("lt", x, y) /\ Cmp("lt", y, z) => Cmp("lt", x, z)
  /\ Cmp("eq", x, y) /\ Cmp("eq", y, z) => Cmp("eq", x, z)
  /\ Cmp("le", x, y) /\ Cmp("le", y, x) => Cmp("eq", x, y)
ASSUME \A y \in Dom \ {0} : Cmp("lt", 0, y) /\ Cmp("ne", 0, y) /\ ~Cmp("ge", 0, y)
\* with a value that compares to nothing, only the operators against none hold
ASSUME \A x \in Dom \ {0} : \A op \in Ops : Cmp(op, x, NAN) = (op = "ne")

----------------------------------------------------------------------------
(* Rows *)
Left(s)  == IF s = "no" THEN {0} ELSE IF s = "vo" THEN Dom \ {0} ELSE Dom
Right(s) == IF s = "on" THEN {0} ELSE IF s = "ov" THEN Dom \ {0} ELSE Dom
Row(k, q, r) == PrintT("ROW " \o ToJson([k |-> k, q |-> q, r |-> r]))
CmpRows == \A s \in Shapes, op \in Ops : \A x \in Left(s), y \in Right(s) : Row("cmp", <<s \o "_" \o op, x, y>>, Cmp(op, x, y))
\* engaged or not on either side, both from a pair of types whose operators are independent
SpyRows == \A s \in {"oo", "ov", "vo"}, op \in Ops, m \in 0..63 : \A x \in Left(s) \cap {0, 1}, y \in Right(s) \cap {0, 1} :
              Row("spy", <<s \o "_" \o op, x, y, m>>, IF x = 1 /\ y = 1 THEN SpyOp(op, m) ELSE NoneOp(op, x, y))
\* an operator exists for options iff it does for the contained types; against none always
TypeOps(t) == CASE t = "full" -> Ops [] t = "eqonly" -> {"eq", "ne"} [] t = "ltonly" -> {"lt"} [] t = "nothing" -> {}
ExistRows == \A s \in Shapes, op \in Ops, t \in {"full", "eqonly", "ltonly", "nothing"} :
              Row("exists", <<"exists_" \o t \o "_" \o s \o "_" \o op>>, s \in {"on", "no"} \/ op \in TypeOps(t))
ASSUME CmpRows /\ SpyRows /\ ExistRows
=============================================================================
