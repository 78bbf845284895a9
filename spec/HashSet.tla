------------------------------- MODULE HashSet -------------------------------
(***************************************************************************)
(* Hash of options, and a hash set of options.                             *)
(* Two options reached by different routes; a set that holds contents.     *)
(* Content 0 is empty, 1..NVals are values.  Hash(c) stands for the hash   *)
(* of content c: one symbol for empty, the hash of the value otherwise.    *)
(* Profile "value": options of values, equal iff the contents are.         *)
(* Profile "ref":   options of references; content is the object, val the  *)
(* values of the objects; hash depends on the object alone.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NVals, Profile, Copies

Slots == {1, 2}
Contents == 0..NVals
VARIABLES slot, set, val, last
vars == <<slot, set, val, last>>

Hash(c) == IF c = 0 THEN <<"none">> ELSE <<"hash of the value", c>>
Eq(x, y) == IF Profile = "ref" /\ x # 0 /\ y # 0 THEN val[x] = val[y] ELSE x = y

Routes == {"ctor", "emplace", "assign", "twice", "swapin", "nested"} \cup (IF Copies THEN {"copyin"} ELSE {})
Step(op, args, s2, set2, v2, res) ==
  slot' = s2 /\ set' = set2 /\ val' = v2 /\ last' = [op |-> op, args |-> args, res |-> res]

Put(r, i, c) == Step("put_" \o r, <<i, c>>, [slot EXCEPT ![i] = c], set, val, <<>>)
Empty(r, i) == Step("empty_" \o r, <<i>>, [slot EXCEPT ![i] = 0], set, val, <<>>)
CopyTo(i, j) == Copies /\ Step("copy", <<i, j>>, [slot EXCEPT ![j] = slot[i]], set, val, <<>>)
MoveTo(i, j) == i # j /\ Step("move", <<i, j>>, [slot EXCEPT ![j] = slot[i], ![i] = 0], set, val, <<>>)
Swap == Step("swap", <<>>, [slot EXCEPT ![1] = slot[2], ![2] = slot[1]], set, val, <<>>)
Write(o, v) == Profile = "ref" /\ Step("write", <<o, v>>, slot, set, [val EXCEPT ![o] = v], <<>>)
Insert(i) == Profile = "value" /\ Copies /\ Step("insert", <<i>>, slot, set \cup {slot[i]}, val, <<IF slot[i] \in set THEN 0 ELSE 1>>)
\* the option is moved into the set; the slot is emptied afterwards
InsertMove(i) == Profile = "value" /\ Step("insert_move", <<i>>, [slot EXCEPT ![i] = 0], set \cup {slot[i]}, val, <<IF slot[i] \in set THEN 0 ELSE 1>>)
Erase(i) == Profile = "value" /\ Step("erase", <<i>>, slot, set \ {slot[i]}, val, <<IF slot[i] \in set THEN 1 ELSE 0>>)
Find(i) == Profile = "value" /\ Step("find", <<i>>, slot, set, val, <<IF slot[i] \in set THEN 1 ELSE 0>>)
HashEq == Step("hash_eq", <<>>, slot, set, val, <<IF Hash(slot[1]) = Hash(slot[2]) THEN 1 ELSE 0, IF Eq(slot[1], slot[2]) THEN 1 ELSE 0>>)

Init == slot = [i \in Slots |-> 0] /\ set = {} /\ val = [o \in 1..NVals |-> o] /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next == \/ \E r \in Routes, i \in Slots, c \in 1..NVals : Put(r, i, c)
        \/ \E r \in {"reset", "none", "take", "fresh", "emplaced"}, i \in Slots : Empty(r, i)
        \/ \E i, j \in Slots : CopyTo(i, j) \/ MoveTo(i, j)
        \/ Swap \/ HashEq
        \/ \E o \in 1..NVals, v \in 1..2 : Write(o, v)
        \/ \E i \in Slots : Insert(i) \/ InsertMove(i) \/ Erase(i) \/ Find(i)
Spec == Init /\ [][Next]_vars

TypeOK == slot \in [Slots -> Contents] /\ set \subseteq Contents
\* equal options of values have equal hashes; hashes of references follow the object, not its value
EqualHash == Profile = "value" => \A i, j \in Slots : Eq(slot[i], slot[j]) => Hash(slot[i]) = Hash(slot[j])
RefHash == \A i, j \in Slots : slot[i] = slot[j] <=> Hash(slot[i]) = Hash(slot[j])
St(s, m, v) == <<s[1], s[2], [c \in 1..(NVals + 1) |-> IF (c - 1) \in m THEN 1 ELSE 0], [o \in 1..NVals |-> v[o]]>>
Emit == PrintT("EDGE " \o ToJson([s |-> St(slot, set, val), a |-> last', t |-> St(slot', set', val')]))
View == <<slot, set, val>>
=============================================================================
