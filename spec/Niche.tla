------------------------------- MODULE Niche -------------------------------
(***************************************************************************)
(* Spare representations ("levels") of types, how composites and options   *)
(* derive theirs, what an option costs, and that the derived encoding is   *)
(* faithful for every composition enumerated here.                         *)
(*                                                                         *)
(* A type is a tree: a leaf with a documented number of levels, a composite*)
(* of members, or an option.  The module                                   *)
(*   - proves on the abstract memory (each leaf holds an ordinary value or *)
(*     a level) that emptying writes one member only, that no ordinary     *)
(*     combination reads as empty, that all depths of nesting stay apart;  *)
(*   - emits, for every tree, the number of levels and the size of each    *)
(*     nesting, which the conformance harness compares with the real types.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Wide                  \* TRUE: enumerate more trees

FLAG == 254                    \* spare representations of the flag of an option

Leaf(n, l) == [k |-> "leaf", n |-> n, l |-> l]
\* name, levels as documented (docs/builtin_traits.md, or by the wrapper / user traits used)
TInt    == Leaf("int", 0)
Plain  == Leaf("plain", 0)         \* a class without traits
Sent1  == Leaf("enum_sentinel", 1)
Sent2  == Leaf("sentinel2", 2)     \* opt::sentinel with two values
Three  == Leaf("three", 3)         \* user traits, max_level 3
Bool   == Leaf("bool", 254)
Flt    == Leaf("float", 256)
Dbl    == Leaf("double", 256)
Ptr    == Leaf("ptr", 512)
FnPtr  == Leaf("fnptr", 512)
Str    == Leaf("string", 255)
WStr   == Leaf("u16string", 255)
View   == Leaf("string_view", 255)
Vec    == Leaf("vector", 255)
VecB   == Leaf("vector_bool", 255)
UPtr   == Leaf("unique_ptr", 255)
UArr   == Leaf("unique_arr", 255)
RefW   == Leaf("refw", 256)
MData  == Leaf("mdata", 255)
MFun   == Leaf("mfun", 255)
Poly   == Leaf("poly", 255)
Pad8   == Leaf("pad8", 255)
Pad16  == Leaf("pad16", 65535)
EStart == Leaf("enum_start", 6)
EStSi  == Leaf("enum_start_signed", 8)
EStEnd == Leaf("enum_start_end", 11)
EAuto  == Leaf("enum_auto", 240)        \* 0..9: 16 and up are unused
EOpen  == Leaf("enum_open", 1016)       \* 0..5, no fixed underlying type
EHid   == Leaf("enum_hidden", 128)      \* 0..100, in an anonymous namespace
LDbl   == Leaf("long_double", 0)
Char   == Leaf("char", 0)
SPtr   == Leaf("shared_ptr", 0)
Mem    == Leaf("member_ptr", 512)    \* opt::member of a pointer
MemB   == Leaf("member_bool", 254)
SentF  == Leaf("sentinel_f3", 3)
SentT  == Leaf("sentinel_traits", 1)
(* Enumerations with an unsigned underlying type: the values looked at are  *)
(* below 256 (one byte) or 1024; the values after the last enumerator       *)
(* among them, rounded up to a power of two, are unused.                    *)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
EnumLevels(bytes, probed) ==                         \* probed: the enumerators
  LET top == IF bytes = 1 THEN 255 ELSE 1023
      in  == {e \in probed : e >= 0 /\ e <= top}
      last == CHOOSE e \in in : \A f \in in : f <= e
  IN IF in = {} THEN 0 ELSE IF Pow2(last + 1, 1) > top THEN 0 ELSE top + 1 - Pow2(last + 1, 1)
Enums == {Leaf("enum_flags5", EnumLevels(1, {1, 2, 16})), Leaf("enum_flags8", EnumLevels(1, {7})), Leaf("enum_full", EnumLevels(1, {255})),
          Leaf("enum_none", EnumLevels(1, {})), Leaf("enum_flags9", EnumLevels(2, {1, 256})), Leaf("enum_flags10", EnumLevels(4, {0, 512})),
          Leaf("enum_u64", EnumLevels(8, {0, 1000000})), Leaf("enum_char16", EnumLevels(2, {0, 1})), Leaf("enum_far", EnumLevels(2, {65535, 1022})),
          Leaf("enum_far2", EnumLevels(2, {65535, 1023})), Leaf("enum_bool", 0), Leaf("enum_one", EnumLevels(4, {0})), Leaf("enum_signed", 0),
          Leaf("enum_flags6", EnumLevels(8, {33, 5000}))}
\* an allocator that is stored, or a deleter that is not the standard one, moves the pointers: no levels
Stored == {Leaf("string_stateful", 0), Leaf("vector_stateful", 0), Leaf("vecbool_stateful", 0),
           Leaf("unique_deleter", 0), Leaf("unique_deleter_stateful", 0), Leaf("unique_deleter_fn", 0)}
NotStored == {Leaf("string_empty_alloc", 255), Leaf("vector_empty_alloc", 255), Leaf("vecbool_empty_alloc", 255),
              Leaf("string_traits", 255), Leaf("view_traits", 255)}

\* further kinds: what is pointed to, how many characters wide, how a class comes by its functions: it makes no difference
Kinds == {Leaf(x, 512) : x \in {"ptr_void", "ptr_cchar", "ptr_ptr", "ptr_incomplete", "ptr_array", "ptr_poly", "fnptr_noexcept", "fnptr_variadic"}}
         \cup {Leaf(x, 255) : x \in {"wstring", "u32string", "wstring_view", "u32string_view", "vector_vector", "unique_const", "unique_poly",
                                     "poly_no_data", "poly_two_bases", "poly_virtual_base", "poly_final", "poly_packed",
                                     "mfun_const", "mfun_incomplete", "mfun_virtual", "mdata_incomplete", "mdata_const", "mdata_pointer"}}
         \cup {Leaf(x, 256) : x \in {"refw_const", "refw_fn", "refw_incomplete"}}
         \cup {Leaf(x, 0) : x \in {"empty_class", "final_class", "union", "opted_out", "nullptr", "byte", "int128", "float128", "monostate", "std_optional", "variant", "list", "map", "duration",
                                   "pmr_string", "pmr_vector", "virtual_base_only", "weak_ptr", "bitset", "empty_array"}}
\* what cannot be written cannot hold a level, alone or as a member (sizes only: such objects cannot be assigned)
\* (the option of one writes its own storage: there it offers the u levels of the unqualified type)
Const(x, u) == [k |-> "leaf", n |-> x, l |-> 0, u |-> u]
Consts == {Const("const_bool", 254), Const("const_double", 256), Const("const_pointer", 512), Const("const_poly", 255), Const("const_enum", 6), Const("const_mdata", 255)}

Leaves == Kinds \cup {TInt, Plain, Sent1, Sent2, Three, Bool, Flt, Dbl, Ptr, FnPtr, Str, WStr, View, Vec, VecB, UPtr, UArr,
           RefW, MData, MFun, Poly, Pad8, Pad16, EStart, EStSi, EStEnd, EAuto, EOpen, EHid, LDbl, Char, SPtr, Mem, MemB, SentF, SentT} \cup Stored \cup NotStored \cup Enums

Comp(k, m) == [k |-> k, m |-> m]       \* pair, tuple, tuple-like (member or free get), aggregate
Arr(t, n)  == [k |-> "array", m |-> [i \in 1..n |-> t]]
Cplx(t)    == [k |-> "complex", m |-> <<t, t>>]
Opt(t)     == [k |-> "opt", m |-> <<t>>]

RECURSIVE Levels(_), Under(_)
Under(t) == IF t.k = "leaf" /\ "u" \in DOMAIN t THEN t.u ELSE Levels(t)      \* what an option of t can use
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Levels(t) ==
  CASE t.k = "leaf" -> t.l
    [] t.k = "opt"  -> IF Under(t.m[1]) >= 1 THEN Under(t.m[1]) - 1 ELSE FLAG
    [] t.k \in {"array", "complex"} -> Levels(t.m[1])
    [] OTHER -> Max({0} \cup {Levels(t.m[i]) : i \in 1..Len(t.m)})

\* how many times an option adds a flag when t is nested n deep: never more than once here
Flags(t, n) == IF n = 0 THEN 0 ELSE IF Under(t) >= n THEN 0 ELSE 1
RECURSIVE Nested(_, _)
Nested(t, n) == IF n = 0 THEN t ELSE Opt(Nested(t, n - 1))
\* a flag is added exactly where the type below has no level left
FlagsConsistent(t) ==
  \A n \in 1..5 : Flags(t, n) = Cardinality({m \in 0..n-1 : Under(Nested(t, m)) = 0})

(* Abstract memory.  A leaf holds 0 (an ordinary value) or k >= 1 (its     *)
(* spare representation k-1); an option of a type without levels holds a   *)
(* flag: <<"flag", 0 or 1 or 2+k>>.                                        *)
(* The chosen member is any one with the most levels.                      *)
Best(t) == CHOOSE i \in 1..Len(t.m) : \A j \in 1..Len(t.m) : Levels(t.m[j]) <= Levels(t.m[i])

RECURSIVE Ordinary(_), GetLevel(_, _), SetLevel(_, _, _)
Ordinary(t) ==
  CASE t.k = "leaf" -> 0
    [] t.k = "opt"  -> [flag |-> IF Under(t.m[1]) = 0 THEN 1 ELSE -1, v |-> Ordinary(t.m[1])]
    [] OTHER -> [i \in 1..Len(t.m) |-> Ordinary(t.m[i])]
\* level read from a representation; -1: none
GetLevel(t, r) ==
  CASE t.k = "leaf" -> r - 1
    [] t.k = "opt"  -> IF r.flag >= 0 THEN (IF r.flag >= 2 THEN r.flag - 2 ELSE -1)
                       ELSE LET l == GetLevel(t.m[1], r.v) IN IF l >= 1 THEN l - 1 ELSE -1
    [] t.k \in {"array", "complex"} -> GetLevel(t.m[1], r[1])
    [] OTHER -> GetLevel(t.m[Best(t)], r[Best(t)])
SetLevel(t, r, k) ==
  CASE t.k = "leaf" -> k + 1
    [] t.k = "opt"  -> IF r.flag >= 0 THEN [r EXCEPT !.flag = k + 2] ELSE [r EXCEPT !.v = SetLevel(t.m[1], @, k + 1)]
    [] t.k \in {"array", "complex"} -> [r EXCEPT ![1] = SetLevel(t.m[1], @, k)]
    [] OTHER -> [r EXCEPT ![Best(t)] = SetLevel(t.m[Best(t)], @, k)]

Small(n) == IF n > 4 THEN 4 ELSE n
Faithful(t) ==
  /\ GetLevel(t, Ordinary(t)) = -1
  /\ \A k \in 0..Small(Levels(t)) - 1 : GetLevel(t, SetLevel(t, Ordinary(t), k)) = k
  \* at most one member differs from an ordinary one
  /\ (t.k \notin {"leaf", "opt"} /\ Levels(t) > 0) =>
        Cardinality({i \in 1..Len(t.m) : SetLevel(t, Ordinary(t), 0)[i] # Ordinary(t)[i]}) = 1

----------------------------------------------------------------------------
L5 == {TInt, Sent2, Bool, Flt, Str}
L6 == {TInt, Sent1, Three, Bool, Ptr, Opt(TInt)}
L9 == {TInt, Plain, Sent1, Sent2, Three, Bool, Flt, Ptr, Str}
Basic == {TInt, Sent2, Bool, Ptr}
Pairs == {Comp("pair", <<a, b>>) : a \in L9, b \in L9}
Tuples == {Comp("tuple", <<a, b, c>>) : a \in L5, b \in Basic, c \in L5} \cup {Comp("tuple", <<a>>) : a \in L9}
          \cup {Comp("tuple", <<TInt, a, b, Three>>) : a \in L6, b \in L6}
TLikes == {Comp("tlm", <<a, b>>) : a \in L6, b \in L6} \cup {Comp("tlf", <<a, b>>) : a \in L6, b \in L6}
          \cup {Comp("tlf", <<TInt, a, b>>) : a \in Basic, b \in Basic}
Aggs == {Comp("agg", <<a, b>>) : a \in L6, b \in L6} \cup {Comp("agg", <<a, TInt, b>>) : a \in L5, b \in L5} \cup {Comp("agg", <<a>>) : a \in L9}
Arrays == {Arr(a, n) : a \in L9, n \in {1, 3}}
Cplxs == {Cplx(Flt), Cplx(Dbl), Cplx(LDbl)}
Deep == {Comp("pair", <<Comp("tuple", <<a, b>>), Arr(c, 2)>>) : a \in Basic, b \in Basic, c \in Basic}
        \cup {Comp("tuple", <<Opt(a), Comp("pair", <<Opt(b), c>>)>>) : a \in Basic, b \in Basic, c \in Basic}
        \cup {Arr(Comp("pair", <<a, Opt(b)>>), 2) : a \in Basic, b \in L6}
        \cup {Comp("agg", <<Comp("pair", <<a, b>>), Opt(c)>>) : a \in Basic, b \in Basic, c \in Basic}
        \cup {Comp("agg", <<Comp("agg", <<a, b>>), c>>) : a \in Basic, b \in Basic, c \in Basic}
        \cup {Comp("tlm", <<Comp("agg", <<a, b>>), Opt(Opt(c))>>) : a \in Basic, b \in Basic, c \in {TInt, Bool}}
Opts == {Opt(Comp("pair", <<a, b>>)) : a \in Basic, b \in Basic} \cup {Opt(Opt(a)) : a \in L9} \cup {Opt(a) : a \in (Leaves \cup Consts) \ {UPtr, UArr}}
        \cup {Opt(Comp("pair", <<a, b>>)) : a \in Stored, b \in {Bool, Str}}
Wider == IF ~Wide THEN {} ELSE
  {Comp("tuple", <<a, b, c>>) : a \in L9, b \in L9, c \in L9} \cup {Comp("agg", <<a, b, c>>) : a \in L6, b \in L6, c \in L6}
  \cup {Comp("tlf", <<a, b, c>>) : a \in L6, b \in L6, c \in L6}
WithConst == {Comp("pair", <<c, a>>) : c \in Consts, a \in {TInt, Sent2, Bool, Str}} \cup {Comp("tuple", <<a, c, b>>) : c \in Consts, a \in {TInt, Sent2}, b \in {TInt, Bool}}
             \cup {Comp("agg", <<c, a>>) : c \in Consts, a \in {TInt, Sent2, Bool}} \cup {Arr(c, 2) : c \in Consts}
             \cup {Comp("pair", <<TInt, a>>) : a \in Kinds} \cup {Comp("agg", <<TInt, a>>) : a \in {b \in Kinds : b.l # 256}}
Composites == WithConst \cup Pairs \cup Tuples \cup TLikes \cup Aggs \cup Arrays \cup Cplxs \cup Deep \cup Wider
Trees == Leaves \cup Consts \cup Composites \cup Opts

ASSUME \A t \in Trees : FlagsConsistent(t) /\ Faithful(t)

Row(t) == [tree |-> t, levels |-> Levels(t), flags |-> [n \in 1..6 |-> Flags(t, n)]]
ASSUME \A t \in Trees : PrintT("ROW " \o ToJson(Row(t)))

\* deep nesting: a flag whenever the levels below are used up (a flag brings FLAG levels itself)
RECURSIVE LevelsAt(_, _)
LevelsAt(t, n) == IF n = 0 THEN Levels(t) ELSE LET l == LevelsAt(t, n - 1) IN IF l >= 1 THEN l - 1 ELSE FLAG
DeepFlags(t, n) == Cardinality({m \in 0..n-1 : LevelsAt(t, m) = 0})
Ref == Leaf("ref", 255)                \* option<T&>, the innermost option of a reference (holds a pointer)
ASSUME \A t \in {TInt, Bool, EStEnd, UPtr, Ref} : \A n \in {1, 2, 11, 12, 13, 200, 253, 254, 255, 256, 266, 300} :
         PrintT("DEEP " \o ToJson([tree |-> t, n |-> n, flags |-> DeepFlags(t, n)]))

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
