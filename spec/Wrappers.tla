------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* Options, D deep, around a payload W that designates K of its raw values *)
(* as levels: opt::sentinel, opt::sentinel_f, opt::member, opt::enforce,   *)
(* opt::sentinel_option_traits, user-defined opt::option_traits.           *)
(*                                                                         *)
(* The state is the representation, because users may write it: the raw    *)
(* value of the payload (1..NVals ordinary, S(k) the k-th designated one,  *)
(* MOVED, 0 where there is no payload) and, where more options are nested  *)
(* than W has levels, which of the outer ones is empty.                    *)
(* Depth 1 is the innermost option.  The option at depth d is empty        *)
(*   - exactly when the payload is S(d), if d <= K;                        *)
(*   - by a flag of its own otherwise.                                     *)
(* A designated value for which no option is nested is an ordinary one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS D, K, NVals, MoveKind, Writable, Caps

MOVED == 9
S(k) == 10 + k
FLAGGED(d) == 20 + d
Slots == {1, 2}
Min(a, b) == IF a < b THEN a ELSE b
Own == Min(D, K)                                   \* empty states kept in the payload
Spare == IF Writable THEN {S(k) : k \in (Own + 1)..K} ELSE {}
Vals == (1..NVals) \cup Spare                      \* ordinary values of the payload
Designated == IF Writable THEN {S(k) : k \in 1..K} ELSE {}
Raws == (1..NVals) \cup Designated

\* ---- representation: [raw, flag]
NoFlag == 0
Encode(e) == IF e.empty = 0 THEN [raw |-> e.val, flag |-> NoFlag]
             ELSE IF e.empty <= K THEN [raw |-> S(e.empty), flag |-> NoFlag]
             ELSE [raw |-> 0, flag |-> e.empty]
HasValue(r, d) == IF d <= K THEN r.raw # S(d) ELSE r.flag # d
RECURSIVE Look(_, _)
Look(r, d) == IF d = 0 THEN [empty |-> 0, val |-> r.raw]
              ELSE IF ~HasValue(r, d) THEN [empty |-> d, val |-> 0] ELSE Look(r, d - 1)
Decode(r) == Look(r, D)
Empty(d) == [empty |-> d, val |-> 0]
Some(v)  == [empty |-> 0, val |-> v]
Contents == {Empty(d) : d \in 1..D} \cup {Some(v) : v \in Vals \cup {MOVED}}

\* the encoding is faithful, and a user who writes a raw value gets just what it designates
ASSUME \A e \in Contents : Decode(Encode(e)) = e
ASSUME \A e, f \in Contents : e # f => Encode(e) # Encode(f)
ASSUME \A r \in Raws : Decode([raw |-> r, flag |-> NoFlag]) =
           IF \E k \in 1..Own : r = S(k) THEN Empty(r - 10) ELSE Some(r)

VARIABLES slot, last
vars == <<slot, last>>
Has(x) == x \in Caps
Cont(i) == Decode(slot[i])
Code(r) == IF r.flag # NoFlag THEN FLAGGED(r.flag) ELSE r.raw
Reach(i, d) == Cont(i).empty <= d                  \* all options outside of depth d are engaged
Step(op, args, s2, res) == slot' = s2 /\ last' = [op |-> op, args |-> args, res |-> res]
Put(i, e) == [slot EXCEPT ![i] = Encode(e)]
Raw(i, r) == [slot EXCEPT ![i] = [raw |-> r, flag |-> NoFlag]]
Left(r) == IF MoveKind = "mark" /\ Decode(r).empty = 0 THEN [r EXCEPT !.raw = MOVED] ELSE r   \* after being moved from
None == <<>>

CtorNone(i, v)   == Step("ctor_none", <<i, v>>, Put(i, Empty(D)), None)     \* v: how
CtorValue(i, v)  == Step("ctor_value", <<i, v>>, Put(i, Some(v)), None)
CtorUnder(i, v)  == Step("ctor_under", <<i, v>>, Put(i, Some(v)), None)     \* from the wrapped type
CtorCopy(i, j)   == Has("copy") /\ Step("ctor_copy", <<i, j>>, [slot EXCEPT ![i] = slot[j]], None)
CtorMove(i, j)   == Step("ctor_move", <<i, j>>, [slot EXCEPT ![i] = slot[j], ![j] = Left(slot[j])], None)
CopyAssign(i, j) == Has("copy") /\ Step("copy_assign", <<i, j>>, [slot EXCEPT ![i] = slot[j]], None)
MoveAssign(i, j) == Step("move_assign", <<i, j>>, [slot EXCEPT ![i] = slot[j], ![j] = Left(slot[j])], None)
Swap(i, j)       == Step("swap", <<i, j>>, [slot EXCEPT ![i] = slot[j], ![j] = slot[i]], None)
Reset(i, d)      == Reach(i, d) /\ Step("reset", <<i, d>>, Put(i, Empty(d)), None)
AssignNone(i, d) == Reach(i, d) /\ Step("assign_none", <<i, d>>, Put(i, Empty(d)), None)
Inner(i, d)      == d > 1 /\ Reach(i, d) /\ Step("emplace_default", <<i, d>>, Put(i, Empty(d - 1)), None)
Emplace(i, v)    == Reach(i, 1) /\ Step("emplace", <<i, v>>, Put(i, Some(v)), None)
AssignValue(i, v) == Reach(i, 1) /\ Step("assign_value", <<i, v>>, Put(i, Some(v)), None)
AssignUnder(i, v) == Reach(i, 1) /\ Step("assign_under", <<i, v>>, Put(i, Some(v)), None)
Take(i)          == Step("take", <<i>>, Put(i, Empty(D)), <<Code(slot[i])>>)
\* through the reference to the payload: whatever is written is what the options are
Write(i, r)      == Reach(i, 0) /\ Step("write", <<i, r>>, Raw(i, r), None)
WriteUnder(i, r) == Reach(i, 0) /\ Step("write_under", <<i, r>>, Raw(i, r), None)
WriteMember(i, r) == Reach(i, 0) /\ Step("write_member", <<i, r>>, Raw(i, r), None)
Unchecked(i, r)  == Has("plain") /\ slot[i].flag = NoFlag /\ Step("write_unchecked", <<i, r>>, Raw(i, r), None)
ReadUnchecked(i) == Has("plain") /\ Writable /\ slot[i].flag = NoFlag /\ Step("read_unchecked", <<i>>, slot, <<slot[i].raw>>)
AsOption(i, r)   == Has("plain") /\ Step("as_option", <<i, r>>, Raw(i, r), None)
\* the wrapper stands for what it wraps
Read(i, k)       == Reach(i, 0) /\ Step("read", <<i, k>>, slot, <<slot[i].raw>>)          \* k: value category
TakeOut(i)       == Reach(i, 0) /\ Step("take_out", <<i>>, [slot EXCEPT ![i] = Left(slot[i])], <<slot[i].raw>>)
ValueOr(i, v)    == Reach(i, 1) /\ Has("copy") /\ Step("value_or", <<i, v>>, slot, <<IF Reach(i, 0) THEN slot[i].raw ELSE v>>)
EqValue(i, v)    == Reach(i, 1) /\ Has("eq") /\ Step("eq_value", <<i, v>>, slot, <<IF slot[i].raw = v THEN 1 ELSE 0>>)
LtValue(i, v)    == Reach(i, 1) /\ Has("order") /\ slot[i].raw # MOVED /\ v < 10 /\ slot[i].raw < 10 + Own + 1 /\
                    Step("lt_value", <<i, v>>, slot, <<IF ~Reach(i, 0) THEN 1 ELSE IF slot[i].raw < 10 /\ slot[i].raw < v THEN 1 ELSE 0>>)
EqSlot(i, j)     == Has("eq") /\ Step("eq_slot", <<i, j>>, slot, <<IF Cont(i) = Cont(j) THEN 1 ELSE 0>>)
Map(i)           == Reach(i, 1) /\ Step("map", <<i>>, slot, IF Reach(i, 0) THEN <<slot[i].raw>> ELSE <<>>)
Wrap(v)          == Step("wrap", <<v>>, slot, LET l == IF MoveKind = "mark" THEN MOVED ELSE v IN <<l, l, v>>)                                      \* wrapper made, copied, moved, assigned, converted; what becomes of an rvalue it is made of, and assigned

Init == slot = [i \in Slots |-> Encode(Empty(D))] /\ last = [op |-> "init", args |-> <<>>, res |-> None]
Next ==
  \/ \E i \in Slots :
      \/ \E v \in Vals : CtorValue(i, v) \/ CtorUnder(i, v) \/ Emplace(i, v) \/ AssignValue(i, v) \/ AssignUnder(i, v)
                         \/ ValueOr(i, v) \/ EqValue(i, v) \/ LtValue(i, v)
      \/ \E r \in Raws : Write(i, r) \/ WriteUnder(i, r) \/ WriteMember(i, r) \/ Unchecked(i, r) \/ AsOption(i, r)
      \/ \E d \in 1..D : Reset(i, d) \/ AssignNone(i, d) \/ Inner(i, d)
      \/ \E h \in 1..3 : CtorNone(i, h)
      \/ \E k \in 1..4 : Read(i, k)
      \/ Take(i) \/ TakeOut(i) \/ ReadUnchecked(i) \/ Map(i)
      \/ \E j \in Slots : \/ EqSlot(i, j)
                          \/ i # j /\ (CtorCopy(i, j) \/ CtorMove(i, j) \/ CopyAssign(i, j) \/ MoveAssign(i, j) \/ Swap(i, j))
  \/ \E v \in Vals : Wrap(v)
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in Slots : slot[i].raw \in {0, MOVED} \cup (1..NVals) \cup {S(k) : k \in 1..K} /\ slot[i].flag \in {0} \cup (K+1)..D
\* an option further out is never disturbed by what happens further in, and the payload is only read where there is one
Exclusive == \A i \in Slots : (slot[i].flag # NoFlag) = (slot[i].raw = 0)
AllApart == \A i, j \in Slots : slot[i] # slot[j] => Cont(i) # Cont(j)
View == slot
TwoSlots == {"ctor_copy", "ctor_move", "copy_assign", "move_assign", "swap"}
Touched(i, a) == a.args[1] = i \/ (a.op \in TwoSlots /\ a.args[2] = i)
Frame == [][\A i \in Slots : slot'[i] # slot[i] => Touched(i, last')]_vars

Emit == PrintT("EDGE " \o ToJson([s |-> <<Code(slot[1]), Code(slot[2])>>, a |-> last', t |-> <<Code(slot'[1]), Code(slot'[2])>>]))
=============================================================================
