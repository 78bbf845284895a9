-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterators of an option: a range of zero or one element.                 *)
(*                                                                         *)
(* c: content (0 none, 1..NVals a value).  it: what each of the iterators  *)
(* a, b (mutable) and k (const) points to: NUL for the position of an      *)
(* empty option or a value-initialised iterator, 0 the element, 1 past it. *)
(* Only what a pointer to the element could do is enabled; results are     *)
(* those of a pointer.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NVals, Writes, MakesValue     \* Writes: elements can be written; MakesValue: the option's value can be assigned

NUL == -1
Its == {"a", "b", "k"}
Vals == 1..NVals
VARIABLES c, it, last
vars == <<c, it, last>>
Step(op, args, c2, it2, res) == c' = c2 /\ it' = it2 /\ last' = [op |-> op, args |-> args, res |-> res]
Pos(b) == IF c = 0 THEN NUL ELSE b
On(i) == it[i] # NUL
Fits(p) == p \in {0, 1}
Lost == [x \in Its |-> NUL]
\* a move by n from p is allowed
Moves(p, n) == IF p = NUL THEN n = 0 ELSE Fits(p + n)
To(p, n) == IF p = NUL THEN NUL ELSE p + n
B(x) == IF x THEN 1 ELSE 0

Emplace(v)   == Step("emplace", <<v>>, v, Lost, <<>>)                                 \* a new object
Reset        == Step("reset", <<>>, 0, Lost, <<>>)
AssignValue(v) == MakesValue /\ c # 0 /\ Step("assign_value", <<v>>, v, it, <<>>)    \* the same object: iterators stay
Begin(i)     == Step("begin_" \o i, <<>>, c, [it EXCEPT ![i] = Pos(0)], <<>>)
End(i)       == Step("end_" \o i, <<>>, c, [it EXCEPT ![i] = Pos(1)], <<>>)
Def(i)       == Step("def_" \o i, <<>>, c, [it EXCEPT ![i] = NUL], <<>>)
Copy(i, j)   == (i = "k" \/ j # "k") /\ Step("copy_" \o i \o "_" \o j, <<>>, c, [it EXCEPT ![i] = it[j]], <<>>)
MoveTo(i, op, n, res) == Step(op \o "_" \o i, <<n>>, c, [it EXCEPT ![i] = To(it[i], n)], res)
Inc(i)       == On(i) /\ Fits(it[i] + 1) /\ (MoveTo(i, "preinc", 1, <<>>) \/ MoveTo(i, "postinc", 1, <<it[i]>>))
Dec(i)       == On(i) /\ Fits(it[i] - 1) /\ (MoveTo(i, "predec", -1, <<>>) \/ MoveTo(i, "postdec", -1, <<it[i]>>))
Seek(i, n)   == Moves(it[i], n) /\ (MoveTo(i, "pluseq", n, <<>>) \/ MoveTo(i, "advance", n, <<>>))
Back(i, n)   == Moves(it[i], -n) /\ Step("minuseq_" \o i, <<n>>, c, [it EXCEPT ![i] = To(it[i], -n)], <<>>)
Plus(i, n)   == Moves(it[i], n) /\ (\E s \in {"plus", "plusl"} : Step(s \o "_" \o i, <<n>>, c, it, <<To(it[i], n)>>))
Minus(i, n)  == Moves(it[i], -n) /\ Step("minus_" \o i, <<n>>, c, it, <<To(it[i], -n)>>)
Deref(i)     == it[i] = 0 /\ (\E s \in {"deref", "arrow"} : Step(s \o "_" \o i, <<>>, c, it, <<c>>))
Index(i, n)  == On(i) /\ it[i] + n = 0 /\ Step("index_" \o i, <<n>>, c, it, <<c>>)
Write(i, v)  == Writes /\ i # "k" /\ it[i] = 0 /\ Step("write_" \o i, <<v>>, v, it, <<>>)
WriteAt(i, n, v) == Writes /\ i # "k" /\ On(i) /\ it[i] + n = 0 /\ Step("writeat_" \o i, <<n, v>>, v, it, <<>>)
Same(i, j)   == On(i) = On(j)
Dist(i, j)   == Same(i, j) /\ (i = "k" \/ j # "k") /\ Step("dist_" \o i \o "_" \o j, <<>>, c, it, <<IF On(i) THEN it[i] - it[j] ELSE 0>>)
Compare(i, j) == Same(i, j) /\ (i = "k" \/ j # "k") /\
                Step("compare_" \o i \o "_" \o j, <<>>, c, it, <<B(it[i] = it[j]), B(it[i] # it[j]), B(it[i] < it[j]), B(it[i] <= it[j]), B(it[i] > it[j]), B(it[i] >= it[j])>>)
ToAddress(i) == Step("address_" \o i, <<>>, c, it, <<it[i]>>)
\* what a loop or an algorithm sees
Each(w)      == Step("each_" \o w, <<>>, c, it, IF c = 0 THEN <<>> ELSE <<c>>)
Between(i, j) == Same(i, j) /\ (i = "k" \/ j # "k") /\ it[i] <= it[j] /\ Step("between_" \o i \o "_" \o j, <<>>, c, it, IF it[i] < it[j] THEN <<c>> ELSE <<>>)
EachWrite(v) == Writes /\ Step("each_write", <<v>>, IF c = 0 THEN 0 ELSE v, it, <<>>)

Init == c = 0 /\ it = Lost /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next ==
  \/ Reset
  \/ \E v \in Vals : Emplace(v) \/ AssignValue(v) \/ EachWrite(v)
  \/ \E w \in {"for", "cfor", "less", "back", "reverse", "copy", "views"} : Each(w)
  \/ \E i \in Its : \/ Begin(i) \/ End(i) \/ Def(i) \/ Inc(i) \/ Dec(i) \/ Deref(i) \/ ToAddress(i)
                    \/ \E n \in -1..1 : Seek(i, n) \/ Back(i, n) \/ Plus(i, n) \/ Minus(i, n) \/ Index(i, n) \/ \E v \in Vals : WriteAt(i, n, v)
                    \/ \E v \in Vals : Write(i, v)
                    \/ \E j \in Its : Copy(i, j) \/ Dist(i, j) \/ Compare(i, j) \/ Between(i, j)
Spec == Init /\ [][Next]_vars
TypeOK == c \in 0..NVals /\ \A i \in Its : it[i] \in {NUL, 0, 1}
\* no iterator outlives the element
Valid == c = 0 => \A i \in Its : it[i] = NUL
\* the random access laws, for all positions reached
Laws == \A i, j \in Its : On(i) /\ On(j) =>
          /\ To(it[j], it[i] - it[j]) = it[i]
          /\ (it[i] < it[j]) = (it[j] - it[i] > 0)
View == <<c, it>>
Emit == PrintT("EDGE " \o ToJson([s |-> <<c, it.a, it.b, it.k>>, a |-> last', t |-> <<c', it'.a, it'.b, it'.k>>]))
=============================================================================
