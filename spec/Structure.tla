------------------------------ MODULE Structure ------------------------------
(***************************************************************************)
(* zip, zip_with, unzip, flatten, option_cast and opt::get.                *)
(* Part "zip":  three options a[1..3] of T.  Content: 0 empty, value, or   *)
(*              MOVED (a moved-from value).                                *)
(* Part "nest": one option of options ... of T, Depth deep.  Content: -k   *)
(*              engaged k levels deep and then empty, or the value.        *)
(* Part "pair": one option of a pair-like type.  Content: <<>> empty, or   *)
(*              <<first, second>>.                                         *)
(* Operands are passed as "l", "cl", "r" or "cr".                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Part, NVals, MoveKind, CanCopy, Depth, SecondMoves, IsRef

MOVED == 9
Vals == 1..NVals
Moving == MoveKind = "mark"
Out(c) == IF Moving /\ c # 0 THEN MOVED ELSE c
Contents == 0..NVals \cup (IF Moving THEN {MOVED} ELSE {})
Engaged == Contents \ {0}
Cats == IF CanCopy THEN {"cl", "l", "r", "cr"} ELSE {"r"}
LCats == {"cl", "l", "r", "cr"}

VARIABLES a, n, p, last
vars == <<a, n, p, last>>

Step(op, args, a2, n2, p2, res, copies) ==
  a' = a2 /\ n' = n2 /\ p' = p2 /\ last' = [op |-> op, args |-> args, res |-> res, copies |-> copies]
\* number of T copied for operands passed as given: lvalues and const rvalues are copied
Copied(cat) == IF cat = "r" THEN 0 ELSE 1

----------------------------------------------------------------------------
(* zip *)
AllEngaged(is) == \A k \in DOMAIN is : a[is[k]] # 0
Values(is) == [k \in DOMAIN is |-> a[is[k]]]
After(is, cs) == [i \in 1..3 |-> IF AllEngaged(is) /\ \E k \in DOMAIN is : is[k] = i /\ cs[k] = "r" THEN Out(a[i]) ELSE a[i]]
Name(op, cs) == IF Len(cs) = 1 THEN op \o "_" \o cs[1] ELSE IF Len(cs) = 2 THEN op \o "_" \o cs[1] \o "_" \o cs[2] ELSE op \o "_" \o cs[1] \o "_" \o cs[2] \o "_" \o cs[3]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
CopiesOf(is, cs) == IF AllEngaged(is) THEN SumTo([k \in DOMAIN cs |-> Copied(cs[k])], Len(cs)) ELSE 0

SetA(i, c) == Step("set", <<i, c>>, [a EXCEPT ![i] = c], n, p, <<>>, -1)
\* the tuple of all values if all are engaged
Zip(is, cs) == Step(Name("zip", cs), is, After(is, cs), n, p, IF AllEngaged(is) THEN Values(is) ELSE <<0>>, CopiesOf(is, cs))
\* the function is called exactly once with all values, taking them by value
ZipWith(is, cs) == Step(Name("zipwith", cs), is, After(is, cs), n, p, IF AllEngaged(is) THEN <<1>> \o Values(is) ELSE <<0>>, CopiesOf(is, cs))
\* the function only looks: nothing is copied, nothing moves; once without a result, once returning the last argument itself
ZipLook(op, is, cs) == Step(Name(op, cs), is, a, n, p, IF AllEngaged(is) THEN <<1>> \o Values(is) ELSE <<0>>, 0)
\* unzip of zip gives back the contents, all or nothing
RoundTrip(is) == CanCopy /\ Step("roundtrip", is, a, n, p, IF AllEngaged(is) THEN Values(is) ELSE <<0, 0>>, -1)
Cast(op, i, c) == Step(op \o "_" \o c, <<i>>, IF c = "r" THEN [a EXCEPT ![i] = Out(a[i])] ELSE a, n, p, <<a[i]>>, IF a[i] = 0 THEN 0 ELSE Copied(c))
Zip0 == Step("zip0", <<>>, a, n, p, <<1>>, 0)
Pairs2 == {<<1, 2>>, <<2, 3>>, <<3, 1>>}
Cat2 == {<<x, y>> : x, y \in Cats}
Cat3 == {<<x, y, z>> : x, y, z \in Cats \ {"l", "cr"}}
\* the same option twice, as lvalues
SelfZip(i) == CanCopy /\ Step("zip_l_cl", <<i, i>>, a, n, p, IF a[i] # 0 THEN <<a[i], a[i]>> ELSE <<0>>, IF a[i] # 0 THEN 2 ELSE 0)
NextZip ==
  \/ \E i \in 1..3, c \in 0..NVals : SetA(i, c)
  \/ \E is \in Pairs2, cs \in Cat2 : Zip(is, cs) \/ ZipWith(is, cs)
  \/ \E cs \in Cat3 : Zip(<<1, 2, 3>>, cs) \/ ZipWith(<<1, 2, 3>>, cs)
  \/ \E c \in Cats, i \in 1..2 : Zip(<<i>>, <<c>>) \/ ZipWith(<<i>>, <<c>>) \/ Cast("cast", i, c)
  \/ \E x, y \in LCats : ZipLook("ziplook", <<1, 2>>, <<x, y>>)
  \/ \E x, y \in LCats : ZipLook("zipref", <<1, 2>>, <<x, y>>)
  \/ \E i \in 1..2 : SelfZip(i)
  \/ RoundTrip(<<1, 2>>) \/ Zip0
ZipLaw == [][ (Part = "zip" /\ last'.op = "roundtrip") =>
                (last'.res = IF a[1] # 0 /\ a[2] # 0 THEN <<a[1], a[2]>> ELSE <<0, 0>>) ]_vars
\* arguments change only if all are engaged, and then only those passed as rvalues
ZipFrame == [][ last'.op # "set" => \A i \in 1..3 : a'[i] # a[i] => (a[i] # 0 /\ a'[i] = MOVED) ]_vars

----------------------------------------------------------------------------
(* nest *)
NestContents == {-k : k \in 0..(Depth - 1)} \cup Engaged
SetN(c) == Step("set", <<c>>, a, c, p, <<>>, -1)
\* as an lvalue, the result refers to the innermost object itself; as an rvalue it takes the object
Flatten(c) == Step("flatten_" \o c, <<>>, a, IF c = "r" /\ n > 0 THEN Out(n) ELSE n, p, <<IF n > 0 THEN n ELSE 0, IF n > 0 /\ c \in {"l", "cl"} THEN 1 ELSE 0>>,
                   IF n > 0 /\ c = "cr" THEN 1 ELSE 0)
FlattenWrite(v) == Step("flatten_write", <<v>>, a, IF n > 0 THEN v ELSE n, p, <<IF n > 0 THEN 1 ELSE 0>>, -1)
NextNest ==
  \/ \E c \in {-k : k \in 0..(Depth - 1)} \cup Vals : SetN(c)
  \/ \E c \in (IF CanCopy THEN LCats ELSE {"l", "cl", "r"}) : Flatten(c)
  \/ ~IsRef /\ \E v \in Vals : FlattenWrite(v)

----------------------------------------------------------------------------
(* pair *)
OutP(x) == <<Out(x[1]), IF SecondMoves THEN Out(x[2]) ELSE x[2]>>
PairContents == {<<>>} \cup {<<x, y>> : x \in Engaged, y \in (IF SecondMoves THEN Engaged ELSE Vals)}
SetP(x, y) == Step("set", <<x, y>>, a, n, IF x = 0 THEN <<>> ELSE <<x, y>>, <<>>, -1)
Two(c) == IF c = "r" THEN 0 ELSE IF SecondMoves THEN 2 ELSE 1
Unzip(c) == Step("unzip_" \o c, <<>>, a, n, IF c = "r" /\ p # <<>> THEN OutP(p) ELSE p, IF p = <<>> THEN <<0, 0>> ELSE p, IF p = <<>> THEN 0 ELSE Two(c))
\* the result refers to the element itself, whatever the category
Get(op, k, c) == Step(op \o "_" \o c, <<k>>, a, n, p, IF p = <<>> THEN <<0, 0>> ELSE <<p[k], 1>>, 0)
GetWrite(k, v) == Step("getwrite", <<k, v>>, a, n, IF p = <<>> THEN p ELSE [p EXCEPT ![k] = v], IF p = <<>> THEN <<0>> ELSE <<1>>, -1)
\* the object is moved out through the rvalue reference
GetTake(k) == Step("gettake", <<k>>, a, n, IF p = <<>> THEN p ELSE [p EXCEPT ![k] = OutP(p)[k]], IF p = <<>> THEN <<0>> ELSE <<p[k]>>, 0)
RoundTripP == CanCopy /\ Step("roundtrip", <<>>, a, n, p, IF p = <<>> THEN <<0>> ELSE p, -1)
NextPair ==
  \/ \E x \in 0..NVals, y \in Vals : SetP(x, y)
  \/ \E c \in Cats : Unzip(c)
  \/ \E c \in LCats, k \in 1..2 : Get("get", k, c) \/ Get("gett", k, c)
  \/ \E k \in 1..2, v \in Vals : ~IsRef /\ GetWrite(k, v)
  \/ \E k \in 1..2 : ~IsRef /\ GetTake(k)
  \/ RoundTripP
PairLaw == [][ (Part = "pair" /\ last'.op = "roundtrip") => last'.res = (IF p = <<>> THEN <<0>> ELSE p) /\ p' = p ]_vars

----------------------------------------------------------------------------
Init == a = [i \in 1..3 |-> 0] /\ n = 0 /\ p = <<>> /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>, copies |-> 0]
Next == CASE Part = "zip" -> NextZip [] Part = "nest" -> NextNest [] Part = "pair" -> NextPair
Spec == Init /\ [][Next]_vars
TypeOK == a \in [1..3 -> Contents] /\ n \in NestContents /\ p \in PairContents
\* engagement of operands never changes except by "set"
Frame == [][ last'.op # "set" => /\ \A i \in 1..3 : (a[i] # 0) <=> (a'[i] # 0)
                                 /\ (n > 0) <=> (n' > 0) /\ (n <= 0 => n' = n)
                                 /\ (p = <<>>) <=> (p' = <<>>) ]_vars
St(x, y, z) == IF Part = "zip" THEN x ELSE IF Part = "nest" THEN <<y>> ELSE z
Emit == PrintT("EDGE " \o ToJson([s |-> St(a, n, p), a |-> last', t |-> St(a', n', p')]))
View == <<a, n, p>>
=============================================================================
