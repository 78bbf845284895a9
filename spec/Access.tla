-------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* opt::at, at_front, at_back, lookup, opt::get of variants, from_nullable.*)
(* Part "seq": a container with elements c (a sequence).                   *)
(* Part "map": a map m from keys to values (0: no such key).               *)
(* Part "set": a set, as a map whose value is the key itself.              *)
(* Part "var": a variant holding <<alternative, value>>, <<0, 0>> if       *)
(*             valueless.                                                  *)
(* Part "ptr": a pointer to object number q (0: null) of objects c.        *)
(* Results: <<value>> or <<>>; the harness checks by address that what is  *)
(* returned is the element itself.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, NVals, MoveKind, CanCopy, MaxLen, MinLen, Const

MOVED == 9
Vals == 1..NVals
Out(x) == IF MoveKind = "mark" THEN MOVED ELSE x
Engaged == Vals \cup (IF MoveKind = "mark" THEN {MOVED} ELSE {})
LCats == {"cl", "l", "r", "cr"}
Cats == IF Const THEN {"cl", "cr"} ELSE LCats
\* indices that are far beyond any size: 2^31, 2^32, 2^32+1, 2^63, the largest
Huge == 90..94
Indices == 0..(MaxLen + 1) \cup Huge

VARIABLES c, m, w, q, last
vars == <<c, m, w, q, last>>
Step(op, args, c2, m2, w2, q2, res) == c' = c2 /\ m' = m2 /\ w' = w2 /\ q' = q2 /\ last' = [op |-> op, args |-> args, res |-> res]

----------------------------------------------------------------------------
(* seq *)
Has(i) == i < Len(c)
Elem(i) == IF Has(i) THEN <<c[i + 1]>> ELSE <<>>
SetSeq(i, v) == ~Const /\ Has(i) /\ Step("set", <<i, v>>, [c EXCEPT ![i + 1] = v], m, w, q, <<>>)
Push(v) == Len(c) < MaxLen /\ Step("push", <<v>>, Append(c, v), m, w, q, <<>>)
Pop == Len(c) > MinLen /\ Step("pop", <<>>, SubSeq(c, 1, Len(c) - 1), m, w, q, <<>>)
At(i, k) == Step("at_" \o k, <<i>>, c, m, w, q, Elem(i))
Front(k) == Step("front_" \o k, <<>>, c, m, w, q, Elem(0))
Back(k) == Step("back_" \o k, <<>>, c, m, w, q, IF c = <<>> THEN <<>> ELSE <<c[Len(c)]>>)
At1(i, v) == IF Has(i) THEN [c EXCEPT ![i + 1] = v] ELSE c
Write(i, v) == ~Const /\ Step("write", <<i, v>>, At1(i, v), m, w, q, Elem(i))
\* moved out through the rvalue reference
Take(i) == ~Const /\ Step("take", <<i>>, IF Has(i) THEN At1(i, Out(c[i + 1])) ELSE c, m, w, q, Elem(i))
WriteEnd(op, v) == ~Const /\ LET i == IF op = "write_front" THEN 0 ELSE Len(c) - 1 IN
  Step(op, <<v>>, IF c = <<>> THEN c ELSE At1(i, v), m, w, q, IF c = <<>> THEN <<>> ELSE <<c[i + 1]>>)
NextSeq ==
  \/ \E v \in Vals : Push(v) \/ WriteEnd("write_front", v) \/ WriteEnd("write_back", v)
  \/ Pop
  \/ \E i \in Indices : Take(i) \/ (\E k \in Cats : At(i, k)) \/ (\E v \in Vals : SetSeq(i, v) \/ Write(i, v))
  \/ \E k \in Cats : Front(k) \/ Back(k)

----------------------------------------------------------------------------
(* map and set *)
Keys == 1..3
Val(k, v) == IF Part = "set" THEN k ELSE v
Insert(k, v) == ~Const /\ (Part = "set" => v = 1) /\ m[k] = 0 /\ Step("insert", <<k, v>>, c, [m EXCEPT ![k] = Val(k, v)], w, q, <<>>)
Erase(k) == ~Const /\ Step("erase", <<k>>, c, [m EXCEPT ![k] = 0], w, q, <<>>)
Lookup(k, cat) == Step("lookup_" \o cat, <<k>>, c, m, w, q, IF m[k] = 0 THEN <<>> ELSE <<m[k]>>)
MapWrite(k, v) == Part = "map" /\ Step("mapwrite", <<k, v>>, c, IF m[k] = 0 THEN m ELSE [m EXCEPT ![k] = v], w, q, IF m[k] = 0 THEN <<>> ELSE <<m[k]>>)
NextMap ==
  \/ \E k \in Keys, v \in Vals : Insert(k, v) \/ MapWrite(k, v)
  \/ \E k \in Keys : Erase(k)
  \/ \E k \in Keys, cat \in {"l", "cl", "cr"} : Lookup(k, cat)

----------------------------------------------------------------------------
(* variant of three alternatives *)
Alts == 1..3
SetVar(k, v) == Step("setvar", <<k, v>>, c, m, <<k, v>>, q, <<>>)
Valueless == Step("valueless", <<>>, c, m, <<0, 0>>, q, <<>>)
\* the alternative of number k, by index or by type
GetVar(op, k, cat) == Step(op \o "_" \o cat, <<k>>, c, m, w, q, IF w[1] = k THEN <<w[2]>> ELSE <<>>)
VarWrite(k, v) == Step("varwrite", <<k, v>>, c, m, IF w[1] = k THEN <<k, v>> ELSE w, q, IF w[1] = k THEN <<w[2]>> ELSE <<>>)
VarTake(k) == Step("vartake", <<k>>, c, m, IF w[1] = k THEN <<k, IF k = 1 THEN Out(w[2]) ELSE w[2]>> ELSE w, q, IF w[1] = k THEN <<w[2]>> ELSE <<>>)
NextVar ==
  \/ \E k \in Alts, v \in Vals : SetVar(k, v) \/ VarWrite(k, v)
  \/ Valueless
  \/ \E k \in Alts : VarTake(k) \/ \E cat \in LCats : GetVar("vget", k, cat) \/ GetVar("vgett", k, cat)

----------------------------------------------------------------------------
(* pointer *)
Point(k) == Step("point", <<k>>, c, m, w, k, <<>>)
FromNullable(cat) == Step("nullable_" \o cat, <<>>, c, m, w, q, IF q = 0 THEN <<>> ELSE <<c[q]>>)
PtrWrite(v) == Step("ptrwrite", <<v>>, IF q = 0 THEN c ELSE [c EXCEPT ![q] = v], m, w, q, IF q = 0 THEN <<>> ELSE <<c[q]>>)
NextPtr ==
  \/ \E k \in 0..2 : Point(k)
  \/ \E cat \in {"l", "cl"} : FromNullable(cat)
  \/ \E v \in Vals : PtrWrite(v)

----------------------------------------------------------------------------
Init == /\ c = IF Part = "ptr" THEN <<1, 2>> ELSE [i \in 1..MinLen |-> 1]
        /\ m = [k \in Keys |-> 0] /\ w = <<1, 1>> /\ q = 0
        /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next == CASE Part = "seq" -> NextSeq [] Part \in {"map", "set"} -> NextMap [] Part = "var" -> NextVar [] Part = "ptr" -> NextPtr
Spec == Init /\ [][Next]_vars
TypeOK == /\ Len(c) <= 3 /\ \A i \in DOMAIN c : c[i] \in Engaged
          /\ \A k \in Keys : m[k] \in {0} \cup 1..3
          /\ w[1] \in 0..3 /\ q \in 0..2
\* looking never changes anything, nothing is ever inserted by looking, and what is found was there
Looks == {"at_l", "at_cl", "at_r", "at_cr", "front_l", "front_cl", "front_r", "front_cr", "back_l", "back_cl", "back_r", "back_cr", "lookup_l", "lookup_cl", "lookup_cr", "nullable_l", "nullable_cl"}
Frame == [][ /\ last'.op \in Looks => UNCHANGED <<c, m, w, q>>
             /\ last'.op \notin {"push", "pop"} => Len(c') = Len(c)
             /\ last'.op \notin {"insert", "erase"} => \A k \in Keys : (m[k] = 0) <=> (m'[k] = 0)
             /\ last'.op \notin {"setvar", "valueless"} => w'[1] = w[1]
             /\ Len(last'.res) <= 1 ]_vars
St(x, y, z, u) == CASE Part = "seq" -> x [] Part \in {"map", "set"} -> y [] Part = "var" -> z [] Part = "ptr" -> <<u, x[1], x[2]>>
Emit == PrintT("EDGE " \o ToJson([s |-> St(c, m, w, q), a |-> last', t |-> St(c', m', w', q')]))
View == <<c, m, w, q>>
=============================================================================
