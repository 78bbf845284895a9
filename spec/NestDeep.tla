------------------------------ MODULE NestDeep ------------------------------
(***************************************************************************)
(* One opt::option nested very deep: beyond the number L of spare states   *)
(* of the payload, so that the encoding wraps over into the flag and, past *)
(* F spare states of that flag, would need a second flag.                  *)
(* slot in 0..D-1: empty at that depth; VAL + v: engaged throughout.       *)
(* Operations are applied at the depths DS with arguments Arg; contents    *)
(* sample all depths.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS D, L, F, NVals, CanCopy

VAL == 1000
DS == {k \in {0, 1, 2, 64, D - L, D - L - 1, D - 1} : 0 <= k /\ k < D}
Vals == 1..NVals
Arg == {k \in {0, 1, 70, D - L, D - 66, D - 2} : 0 <= k /\ k < D} \cup {VAL + 1}
Depth(c) == IF c >= VAL THEN D ELSE c

VARIABLES slot, last
vars == <<slot, last>>
Step(op, args, s) == slot' = s /\ last' = [op |-> op, args |-> args]
At(d) == Depth(slot) >= d
Fits(e, d) == Depth(e) >= d

Renew(e) == Step("renew", <<e>>, e)
Reset(d) == At(d) /\ Step("reset", <<d>>, d)
None(d)  == At(d) /\ Step("none", <<d>>, d)
Fill(d, e) == At(d) /\ Fits(e, d) /\ Step("fill", <<d, e>>, e)
Copy(d, e) == CanCopy /\ At(d) /\ Fits(e, d) /\ Step("copy", <<d, e>>, e)
Move(d, e) == At(d) /\ Fits(e, d) /\ Step("move", <<d, e>>, e)
Swap(d, e) == At(d) /\ Fits(e, d) /\ Step("swap", <<d, e>>, e)
Take(d, e) == At(d) /\ Fits(e, d) /\ Step("take", <<d, e>>, d)

Init == slot = 0 /\ last = [op |-> "init", args |-> <<>>]
Next == \/ \E e \in {k \in 0..D-1 : k % 17 = 5} \cup DS \cup Arg \cup {VAL + v : v \in Vals} : Renew(e)
        \/ \E d \in DS : \/ Reset(d) \/ None(d)
                         \/ \E e \in Arg :
                              Fill(d, e) \/ Copy(d, e) \/ Move(d, e) \/ Swap(d, e) \/ Take(d, e)
Spec == Init /\ [][Next]_vars
TypeOK == slot \in 0..D-1 \/ slot \in {VAL + v : v \in Vals}

----------------------------------------------------------------------------
(* The representation: the innermost min(D, L) options live in the spare   *)
(* states of the payload, the next one owns a flag, those further out live *)
(* in the F spare states of the flag, and then again: a flag of its own.   *)
\* number of options out of the payload's reach, and which flag each uses
Niched == IF D <= L THEN D ELSE L
Rest == D - Niched                        \* depths 0..Rest-1 use flags
FlagOf(d) == (Rest - 1 - d) \div (F + 1)  \* 0: the innermost flag
LevelIn(d) == (Rest - 1 - d) % (F + 1)    \* 0: the owner of the flag (states 0 and 1), k: spare state k-1
Flags == IF Rest = 0 THEN 0 ELSE FlagOf(0) + 1
Encode(c) ==
  IF c >= VAL THEN [f \in 1..Flags |-> 1] \o <<<<"value", c - VAL>>>>
  ELSE IF c >= Rest THEN [f \in 1..Flags |-> 1] \o <<<<"level", D - 1 - c>>>>
  ELSE [f \in 1..Flags |-> IF Flags - f > FlagOf(c) THEN 1
                           ELSE IF Flags - f < FlagOf(c) THEN -1        \* not alive
                           ELSE IF LevelIn(c) = 0 THEN 0 ELSE 1 + LevelIn(c)] \o <<<<"dead", 0>>>>
Decode(r) ==
  IF \A f \in 1..Flags : r[f] = 1
  THEN LET p == r[Flags + 1] IN IF p[1] = "value" THEN VAL + p[2] ELSE D - 1 - p[2]
  ELSE LET f == CHOOSE f \in 1..Flags : r[f] # 1 /\ \A g \in 1..f-1 : r[g] = 1
           lvl == IF r[f] = 0 THEN 0 ELSE r[f] - 1
       IN  Rest - 1 - ((Flags - f) * (F + 1) + lvl)
StorageOK ==
  /\ Decode(Encode(slot)) = slot
  /\ LET p == Encode(slot)[Flags + 1] IN p[1] = "level" => p[2] < L
  /\ \A f \in 1..Flags : Encode(slot)[f] < F + 2

Emit == PrintT("EDGE " \o ToJson([s |-> slot, a |-> last', t |-> slot']))
View == slot
=============================================================================
