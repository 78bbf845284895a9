----------------------------- MODULE Patterns -----------------------------
(***************************************************************************)
(* Bit patterns of types with built-in spare representations.              *)
(*                                                                         *)
(* A pattern is a sequence of 16-bit limbs, most significant first.  For   *)
(* every type this module defines which patterns an ordinary value can     *)
(* have - from the language and the x86-64 / Itanium ABI, not from the     *)
(* library - and the range of patterns the library documents as spare.     *)
(*   - TLC checks that the documented ranges hold no ordinary pattern;     *)
(*   - it emits ordinary patterns at the edges of the domains (and next to *)
(*     the spare ranges) which the harness stores in real options;         *)
(*   - it validates what the harness recorded from the real code: pattern  *)
(*     of every level, patterns that read as empty among all (or very many)*)
(*     patterns of the type.  The recording comes from the environment     *)
(*     (RECORD); without it only the first two are done.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

B == 65536
F == 65535
\* unsigned comparison and addition of limb sequences of equal length
RECURSIVE Lt(_, _)
Lt(a, b) == Len(a) > 0 /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Lt(Tail(a), Tail(b))))
Le(a, b) == a = b \/ Lt(a, b)
Inside(x, lo, hi) == Le(lo, x) /\ Le(x, hi)
RECURSIVE Add(_, _)
Add(a, n) ==              \* a + n (mod 2^width), n any integer below 2^30
  IF Len(a) = 0 THEN <<>>
  ELSE LET s == a[Len(a)] + n IN Append(Add(SubSeq(a, 1, Len(a) - 1), s \div B), s % B)

W1(x) == <<x>>
W2(a, b) == <<a, b>>
W4(a, b, c, d) == <<a, b, c, d>>
U64(n) == Add(W4(0, 0, 0, 0), n)
U32(n) == Add(W2(0, 0), n)

NullPage == 4096
UserPtr(x) == Lt(x, W4(256, 0, 0, 0))                            \* below 2^56: the lower half with 57-bit addresses
KernPtr(x) == Le(W4(65280, 0, 0, 0), x)                            \* the upper half
ErrPtr(x)  == Le(Add(W4(0, 0, 0, 0), -NullPage), x)               \* -1 .. -4096, used as error codes and handles
Object(x)  == UserPtr(x) /\ Le(U64(NullPage), x)                  \* where an object can be

NaN32(x) == (x[1] % 32768) > 32640 \/ ((x[1] % 32768) = 32640 /\ x[2] > 0)
Pay32(x) == <<(x[1] % 64), x[2]>>                                  \* payload without the quiet bit
NaN64(x) == (x[1] % 32768) > 32752 \/ ((x[1] % 32768) = 32752 /\ (x[2] > 0 \/ x[3] > 0 \/ x[4] > 0))
\* NaNs that programs make: default, from 0x..20/0x..4 (signaling_NaN), small payloads (nan("n")), all ones (memset)
OrdPay32(p) == p \in {<<0, 0>>, <<32, 0>>, <<63, F>>} \/ (p[1] = 0 /\ p[2] < 1024)
OrdPay64(a, b, c, d) == (b = 0 /\ c = 0 /\ (a = 0 \/ a = 4) /\ d < 1024) \/ (a = 7 /\ b = F /\ c = F /\ d = F)

\* Enumerations of the harness: declared enumerators (flags may be combined where unsigned and not scoped by sentinels)
Enums == [
  EAuto   |-> [w |-> 8,  vals |-> {0, 1, 2, 9}, upto |-> 16],
  EAuto32 |-> [w |-> 32, vals |-> {0, 3, 700}, upto |-> 1024],
  EBit0   |-> [w |-> 8,  vals |-> {0}, upto |-> 1],
  EBit7   |-> [w |-> 8,  vals |-> {1, 64}, upto |-> 128],
  ETop8   |-> [w |-> 8,  vals |-> {0, 255}, upto |-> 256],
  EPow8   |-> [w |-> 8,  vals |-> {0, 7}, upto |-> 8],
  EPow9   |-> [w |-> 8,  vals |-> {0, 8}, upto |-> 16],
  E16     |-> [w |-> 16, vals |-> {0, 1, 511}, upto |-> 512],
  E16b    |-> [w |-> 16, vals |-> {2, 255, 256}, upto |-> 512],
  E16c    |-> [w |-> 16, vals |-> {0, 5, 4000}, upto |-> 8],
  E16d    |-> [w |-> 16, vals |-> {0, 1023}, upto |-> 1024],
  E32     |-> [w |-> 32, vals |-> {0, 1, 2, 4, 8, 16, 32, 64, 128}, upto |-> 256],
  ENone   |-> [w |-> 32, vals |-> {}, upto |-> 0],
  EOpen   |-> [w |-> 32, vals |-> {0, 1, 5}, upto |-> 8],          \* no fixed underlying type
  EHid    |-> [w |-> 8,  vals |-> {0, 1, 100}, upto |-> 128],         \* in an anonymous namespace
  EHidTop |-> [w |-> 8,  vals |-> {0, 255}, upto |-> 256],
  EHidOpn |-> [w |-> 32, vals |-> {0, 1}, upto |-> 2],
  ELoc    |-> [w |-> 8,  vals |-> {0, 20}, upto |-> 32],           \* local to a lambda
  EFar    |-> [w |-> 16, vals |-> {5000}, upto |-> 0]]
Probe(e) == IF e.w = 8 THEN 256 ELSE 1024

\* floatq, doubleq: float and double where OPTION_USE_QUIET_NAN is set (docs/macros.md)
Names == {"bool", "float", "double", "floatq", "doubleq", "intptr", "voidptr", "fnptr", "refw", "mdata", "mfun", "poly", "sview", "uptr", "vec", "vecb", "str", "ESent", "EStart", "EStartS", "EStartEnd", "EMin", "EMinEnd"}
         \cup DOMAIN Enums

Ordinary(n, x) ==
  CASE n = "bool" -> x[1] \in {0, 1}
    [] n \in {"float", "floatq"} -> ~NaN32(x) \/ OrdPay32(Pay32(x))
    [] n \in {"double", "doubleq"} -> ~NaN64(x) \/ OrdPay64(x[1] % 8, x[2], x[3], x[4])
    [] n \in {"intptr", "voidptr"} -> UserPtr(x) \/ KernPtr(x)
    [] n = "fnptr" -> UserPtr(x) \/ KernPtr(x)
    [] n = "refw" -> Object(x)
    [] n = "mdata" -> Inside(x, U64(0), Add(U64(1073741823), 1073741823)) \/ Le(Add(U64(0), -65536), x)     \* offsets, -1: null
    [] n = "mfun" -> UserPtr(x)                                    \* null, offset + 1, code address
    [] n = "poly" -> Object(x)
    [] n \in {"sview", "uptr"} -> UserPtr(x) \/ ErrPtr(x)
    [] n \in {"vec", "vecb"} -> x = U64(0) \/ Object(x)              \* first word: begin of the storage
    [] n = "str" -> Object(SubSeq(x, 1, 4))                        \* first word: the characters (second: the size)
    [] n = "ESent" -> x # <<F, F>>                                  \* every int but the sentinel
    [] n = "EStart" -> x[1] < 250
    [] n = "EStartS" -> x[1] < 120 \/ x[1] >= 128                   \* signed char
    [] n = "EStartEnd" -> ~(x[1] \in 10..20)
    [] n = "EMin" -> x # <<32768, 0>>                               \* SENTINEL is the least int
    [] n = "EMinEnd" -> ~Inside(x, <<32768, 0>>, <<32768, 9>>)
    [] n \in DOMAIN Enums /\ Enums[n].upto = 0 -> TRUE            \* no enumerator found: used like an integer
    [] n \in DOMAIN Enums -> \E v \in (0..Enums[n].upto - 1) \cup Enums[n].vals : x = (IF Enums[n].w = 32 THEN U32(v) ELSE <<v>>)

Spare(n) ==                     \* documented: first pattern, number (docs/builtin_traits.md)
  CASE n = "bool" -> <<W1(2), 254>>
    [] n = "float" -> <<W2(65471, 27055), 256>>
    [] n = "double" -> <<W4(65526, 51103, 21936, 35215), 256>>
    [] n = "floatq" -> <<W2(65475, 61365), 256>>
    [] n = "doubleq" -> <<W4(65531, 62052, 12475, 13655), 256>>
    [] n \in {"intptr", "voidptr", "fnptr"} -> <<W4(63713, 45442, 23901, 27751), 512>>
    [] n = "refw" -> <<U64(0), 256>>
    [] n = "mdata" -> <<W4(F, F, 54194, 63922), 255>>
    [] n = "mfun" -> <<W4(F, F, 54194, 63922), 255>>
    [] n = "poly" -> <<Add(U64(0), -89152), 255>>
    [] n = "sview" -> <<Add(U64(0), -32185), 255>>
    [] n = "uptr" -> <<Add(U64(0), -46509), 255>>
    [] n = "ESent" -> <<<<F, F>>, 1>>
    [] n = "EStart" -> <<W1(250), 6>>
    [] n = "EStartS" -> <<W1(120), 8>>
    [] n = "EStartEnd" -> <<W1(10), 11>>
    [] n = "EMin" -> <<<<32768, 0>>, 1>>
    [] n = "EMinEnd" -> <<<<32768, 0>>, 10>>
    [] n = "E32" -> <<U32(256), 768>>
    [] n \in {"EAuto", "EBit0", "EBit7", "EPow8", "EPow9", "E16", "E16b", "E16c"} -> <<W1(Enums[n].upto), Probe(Enums[n]) - Enums[n].upto>>
    [] OTHER -> <<<<>>, 0>>

\* the documented ranges are disjoint from the ordinary patterns
ASSUME \A n \in Names : \A k \in 0..Spare(n)[2] - 1 : ~Ordinary(n, Add(Spare(n)[1], k))

\* by default they are signaling NaNs, on request quiet ones
Quiet(n, x) == IF n \in {"float", "floatq"} THEN NaN32(x) /\ (x[1] \div 64) % 2 = 1 ELSE NaN64(x) /\ (x[1] \div 8) % 2 = 1
Signaling(n, x) == (IF n \in {"float", "floatq"} THEN NaN32(x) ELSE NaN64(x)) /\ ~Quiet(n, x)
ASSUME \A k \in 0..255 : (\A n \in {"float", "double"} : Signaling(n, Add(Spare(n)[1], k))) /\ (\A n \in {"floatq", "doubleq"} : Quiet(n, Add(Spare(n)[1], k)))

\* Ordinary patterns for the harness
Edge64 == {U64(k) : k \in {0, 1, 2, 3, 7, 254, 255, 256, 257, 4095, 4096, 65535, 65536}} \cup {Add(U64(0), -k) : k \in {1, 2, 3, 4095, 4096, 4097, 31930, 32186, 46254, 46510, 65535, 76071, 76327, 88897, 89153}}
          \cup {W4(a, b, c, d) : a \in {0, 127, 255, 256, 32767, 32768, 65280, F}, b \in {0, 1, F}, c \in {0, 32767, 32768, F}, d \in {0, 1, F}}
          \cup {W4(32752, 0, 0, 0), W4(65520, 0, 0, 0), W4(32760, 0, 0, 0), W4(65528, 0, 0, 0), W4(32756, 0, 0, 0), W4(65524, 0, 0, 0), W4(32760, 0, 0, 1), W4(32752, 0, 0, 1), W4(65520, 0, 0, 1),
                W4(32751, F, F, F), W4(65519, F, F, F), W4(32767, F, F, F), W4(16, 0, 0, 0), W4(16368, 0, 0, 0), W4(15, F, F, F)}
Edge32 == {U32(k) : k \in {0, 1, 2, 255, 256, 700, 701, 1023, 1024, 65535, 65536, 4000, 5000}} \cup {<<a, b>> : a \in {127, 128, 16256, 32639, 32640, 32672, 32704, 32736, 32767, 32768, 65407, 65408, 65440, 65472, 65504, F}, b \in {0, 1, 9, 10, F}}
Edge16 == {<<x>> : x \in {0, 1, 5, 7, 8, 9, 10, 15, 16, 20, 21, 255, 256, 300, 511, 512, 700, 1023, 1024, 4000, 5000, 32767, 32768, F}}
Edge8  == {<<x>> : x \in 0..255}
Width(n) == CASE n \in {"bool", "EStart", "EStartS"} -> 8
              [] n = "EStartEnd" -> 16
              [] n \in {"float", "floatq", "ESent", "EMin", "EMinEnd"} -> 32
              [] n \in DOMAIN Enums -> Enums[n].w
              [] OTHER -> 64
Edge(n) == CASE Width(n) = 8 -> Edge8 [] Width(n) = 16 -> Edge16 [] Width(n) = 32 -> Edge32 [] OTHER -> Edge64
Near(n) == IF Spare(n)[2] = 0 THEN {} ELSE {Add(Spare(n)[1], -1), Add(Spare(n)[1], Spare(n)[2])}
\* 8 and 16 bit patterns are single limbs: additions may leave the width
Fits(n, x) == Width(n) # 8 \/ x[1] < 256
Stored == {"bool", "float", "double", "floatq", "doubleq", "intptr", "voidptr", "fnptr", "ESent", "EStart", "EStartS", "EStartEnd", "EMin", "EMinEnd"} \cup DOMAIN Enums
ASSUME \A n \in Stored : \A x \in Edge(n) \cup Near(n) :
         (Ordinary(n, x) /\ Fits(n, x)) => PrintT("ROW " \o ToJson([type |-> n, pat |-> x]))

----------------------------------------------------------------------------
(* Validation of what was recorded, one record for each type:              *)
(*  levels, pats (the patterns of the levels 0..);                         *)
(*  e1, e2, e3: for options nested 1, 2, 3 deep, the patterns that read as *)
(*  none, some(none), ...; levelled: how many patterns of those tried have *)
(*  a level, covered: how many of these are in pats.                       *)
Rec == IF "RECORD" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.RECORD) ELSE <<>>
\* each depth of emptiness has one pattern, a reserved one, and they differ
Apart(e, ps) == (\A i \in 1..Len(e) : Len(e[i]) = 1 /\ e[i][1] \in ps) /\ Cardinality(Range(e)) = Len(e)

Problem(r) ==
  LET ps == Range(r.pats)
      ord == {p \in ps : Ordinary(r.type, p)}
      isE == r.type \in DOMAIN Enums
      en == Enums[r.type]
      n == IF en.upto = 0 THEN 0 ELSE Probe(en) - en.upto
  IN CASE ord # {} -> "an ordinary pattern is used as an empty state: " \o ToString(CHOOSE p \in ord : TRUE)
       [] Cardinality(ps) # Len(r.pats) -> "two empty states share a pattern"
       [] r.type \in {"float", "double"} /\ \E p \in ps : ~Signaling(r.type, p) -> "an empty state is not a signaling NaN"
       [] r.type \in {"floatq", "doubleq"} /\ \E p \in ps : ~Quiet(r.type, p) -> "an empty state is not a quiet NaN with OPTION_USE_QUIET_NAN"
       [] r.levels >= 1 /\ ~Apart(r.e1, ps) -> "patterns that read as empty: " \o ToString(r.e1)
       [] r.levels >= 2 /\ ~Apart(r.e2, ps) -> "patterns that read as none, some(none): " \o ToString(r.e2)
       [] r.levels >= 3 /\ ~Apart(r.e3, ps) -> "patterns that read as none, some(none), some(some(none)): " \o ToString(r.e3)
       [] r.levelled # r.covered -> "patterns with a level: " \o ToString(r.levelled) \o ", of which reserved: " \o ToString(r.covered)
       [] isE /\ ~(r.levels \in {n, IF n = 0 THEN 0 ELSE n - 1}) -> "number of levels " \o ToString(r.levels)
       [] OTHER -> ""
ASSUME \A i \in 1..Len(Rec) : LET p == Problem(Rec[i]) IN IF p = "" THEN PrintT("OKREC " \o Rec[i].type) ELSE PrintT("BADREC " \o Rec[i].type \o ": " \o p)

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
