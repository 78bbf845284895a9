----------------------------- MODULE OptionNest -----------------------------
(***************************************************************************)
(* opt::option nested D deep around a payload T.                           *)
(*                                                                         *)
(* slot[i] is the abstract content:                                        *)
(*    c in 0..D-1   engaged at the depths 0..c-1, empty at depth c         *)
(*                  (0: the outermost option is empty)                     *)
(*    VAL + v       engaged at every depth, the payload is v               *)
(*    VAL + MOVED   likewise, moved-from                                   *)
(* Operations are applied to the option at some depth d of a slot, which   *)
(* exists iff everything outside of it is engaged.                         *)
(*                                                                         *)
(* The second half models how a payload with L spare representations and   *)
(* a flag with F of them store such a content, and that this is faithful.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS D, NVals, MoveKind, Caps, L, F

VAL == 100
MOVED == 9
Slots == {1, 2}
Vals == 1..NVals
Values == {VAL + v : v \in Vals}
Contents == (0..D-1) \cup Values \cup (IF MoveKind = "mark" THEN {VAL + MOVED} ELSE {})
Depths == 0..D-1
Depth(c) == IF c >= VAL THEN D ELSE c        \* number of engaged depths
Out(c) == IF MoveKind = "mark" /\ c >= VAL THEN VAL + MOVED ELSE c
Has(x) == x \in Caps

VARIABLES slot, last
vars == <<slot, last>>

Step(op, args, s2, res) == slot' = s2 /\ last' = [op |-> op, args |-> args, res |-> res]
Set(i, c) == [slot EXCEPT ![i] = c]
Set2(i, c, j, e) == [slot EXCEPT ![i] = c, ![j] = e]
At(i, d) == Depth(slot[i]) >= d              \* the option at depth d of slot i exists
Fits(e, d) == Depth(e) >= d                  \* e is a content of the option at depth d
Fresh == (0..D-1) \cup Values                \* contents built by the caller
NoRes == -1

Reset(i, d)      == At(i, d) /\ Step("reset", <<i, d>>, Set(i, d), NoRes)
AssignNone(i, d) == At(i, d) /\ Step("assign_none", <<i, d>>, Set(i, d), NoRes)
\* the option at depth d becomes a copy of (or takes over) one with content e
AssignL(i, d, e) == At(i, d) /\ Fits(e, d) /\ Has("copy") /\ Step("assign_l", <<i, d, e>>, Set(i, e), NoRes)
AssignR(i, d, e) == At(i, d) /\ Fits(e, d) /\ Step("assign_r", <<i, d, e>>, Set(i, e), NoRes)
\* assigned from what it contains: engaged at depth d whatever the inner content is
AssignInnerL(i, d, e) == At(i, d) /\ Fits(e, d + 1) /\ Has("copy") /\ Step("assign_inner_l", <<i, d, e>>, Set(i, e), NoRes)
AssignInnerR(i, d, e) == At(i, d) /\ Fits(e, d + 1) /\ Step("assign_inner_r", <<i, d, e>>, Set(i, e), NoRes)
AssignValue(i, d, v) == At(i, d) /\ Step("assign_value", <<i, d, VAL + v>>, Set(i, VAL + v), NoRes)
EmplaceInner(i, d, e) == At(i, d) /\ Fits(e, d + 1) /\ Step("emplace_inner", <<i, d, e>>, Set(i, e), NoRes)
EmplaceDefault(i, d) == At(i, d) /\ d < D - 1 /\ Step("emplace_default", <<i, d>>, Set(i, d + 1), NoRes)
EmplaceNone(i, d)    == At(i, d) /\ d < D - 1 /\ Step("emplace_none", <<i, d>>, Set(i, d + 1), NoRes)
TryEmplaceInner(i, d, e) == At(i, d) /\ Fits(e, d + 1) /\
   Step("try_emplace_inner", <<i, d, e>>, IF slot[i] = d THEN Set(i, e) ELSE slot, NoRes)
Take(i, d) == At(i, d) /\ Step("take", <<i, d>>, Set(i, d), slot[i])
TakeInto(i, d, j) == At(i, d) /\ At(j, d) /\ i # j /\ Step("take_into", <<i, d, j>>, Set2(i, d, j, slot[i]), NoRes)
Swap(i, d, j) == At(i, d) /\ At(j, d) /\ i # j /\ Step("swap", <<i, d, j>>, Set2(i, slot[j], j, slot[i]), NoRes)
CopyFrom(i, d, j) == At(i, d) /\ At(j, d) /\ i # j /\ Has("copy") /\ Step("copy_from", <<i, d, j>>, Set(i, slot[j]), NoRes)
MoveFrom(i, d, j) == At(i, d) /\ At(j, d) /\ i # j /\ Step("move_from", <<i, d, j>>, Set2(i, slot[j], j, Out(slot[j])), NoRes)
\* ... from the option one deeper in another slot
CopyInnerFrom(i, d, j) == At(i, d) /\ d < D - 1 /\ At(j, d + 1) /\ i # j /\ Has("copy") /\
   Step("copy_inner_from", <<i, d, j>>, Set(i, slot[j]), NoRes)
MoveInnerFrom(i, d, j) == At(i, d) /\ d < D - 1 /\ At(j, d + 1) /\ i # j /\
   Step("move_inner_from", <<i, d, j>>, Set2(i, slot[j], j, Out(slot[j])), NoRes)
\* construction of the whole
CtorNone(i) == Step("ctor_none", <<i>>, Set(i, 0), NoRes)
CtorCopy(i, j) == i # j /\ Has("copy") /\ Step("ctor_copy", <<i, j>>, Set(i, slot[j]), NoRes)
CtorMove(i, j) == i # j /\ Step("ctor_move", <<i, j>>, Set2(i, slot[j], j, Out(slot[j])), NoRes)
CtorInner(i, e) == Fits(e, 1) /\ Step("ctor_inner", <<i, e>>, Set(i, e), NoRes)
CtorInPlace(i, e) == Fits(e, 1) /\ Step("ctor_inplace", <<i, e>>, Set(i, e), NoRes)
CtorValue(i, v) == Step("ctor_value", <<i, VAL + v>>, Set(i, VAL + v), NoRes)
MapAt(i, d) == At(i, d) /\ Step("map_code", <<i, d>>, slot, IF Depth(slot[i]) > d THEN slot[i] ELSE d)

Init == slot = [i \in Slots |-> 0] /\ last = [op |-> "init", args |-> <<>>, res |-> NoRes]
Next ==
  \E i \in Slots :
    \/ CtorNone(i)
    \/ \E j \in Slots : CtorCopy(i, j) \/ CtorMove(i, j)
    \/ \E e \in Fresh : CtorInner(i, e) \/ CtorInPlace(i, e)
    \/ \E v \in Vals : CtorValue(i, v)
    \/ \E d \in Depths :
         \/ Reset(i, d) \/ AssignNone(i, d) \/ EmplaceDefault(i, d) \/ EmplaceNone(i, d) \/ Take(i, d) \/ MapAt(i, d)
         \/ \E e \in Fresh : AssignL(i, d, e) \/ AssignR(i, d, e) \/ AssignInnerL(i, d, e) \/ AssignInnerR(i, d, e)
                              \/ EmplaceInner(i, d, e) \/ TryEmplaceInner(i, d, e)
         \/ \E v \in Vals : AssignValue(i, d, v)
         \/ \E j \in Slots : TakeInto(i, d, j) \/ Swap(i, d, j) \/ CopyFrom(i, d, j) \/ MoveFrom(i, d, j)
                              \/ CopyInnerFrom(i, d, j) \/ MoveInnerFrom(i, d, j)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == slot \in [Slots -> Contents]
\* an operation at depth d leaves everything outside of d engaged
OuterStays ==
  [][ (Len(last'.args) >= 2 /\ last'.op \notin {"ctor_copy", "ctor_move", "ctor_inner", "ctor_inplace", "ctor_value"})
        => Depth(slot'[last'.args[1]]) >= last'.args[2] ]_vars

----------------------------------------------------------------------------
(* Storage.  The innermost min(D, L) options have no flag: the one at      *)
(* depth d is empty iff the payload holds its spare representation number  *)
(* D-1-d.  If D > L the next one out owns a flag (0: empty, 1: engaged),   *)
(* and those further out use the spare representations of that flag.       *)
(* NoFlag where there is none.  Each deeper state leaves the outer ones    *)
(* readable: rep is a function of the content and back.                    *)
NoFlag == -1
Lvl(k) == <<"level", k>>
Pay(v) == <<"value", v>>
Junk   == <<"dead", 0>>           \* flag says empty: nothing in the payload
Niched == IF D <= L THEN D ELSE L
FlagDepth == D - Niched - 1       \* depth that owns the flag, -1 if none
Encode(c) ==
  IF c >= VAL THEN [flag |-> IF FlagDepth >= 0 THEN 1 ELSE NoFlag, pay |-> Pay(c - VAL)]
  ELSE IF c > FlagDepth THEN [flag |-> IF FlagDepth >= 0 THEN 1 ELSE NoFlag, pay |-> Lvl(D - 1 - c)]
  ELSE IF c = FlagDepth THEN [flag |-> 0, pay |-> Junk]
  ELSE [flag |-> 2 + (FlagDepth - 1 - c), pay |-> Junk]
Decode(r) ==
  IF r.flag > 1 THEN FlagDepth - 1 - (r.flag - 2)
  ELSE IF r.flag = 0 THEN FlagDepth
  ELSE IF r.pay[1] = "level" THEN D - 1 - r.pay[2]
  ELSE VAL + r.pay[2]
Faithful ==
  /\ \A c \in Contents : Decode(Encode(c)) = c
  /\ \A c, e \in Contents : c # e => Encode(c) # Encode(e)
  /\ \A c \in Contents : Encode(c).pay[1] = "level" => Encode(c).pay[2] < L
  /\ \A c \in Contents : Encode(c).flag < F + 2
StorageOK == Faithful

Emit == PrintT("EDGE " \o ToJson([s |-> slot, a |-> last', t |-> slot']))
View == slot
=============================================================================
