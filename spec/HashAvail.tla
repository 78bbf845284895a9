------------------------------ MODULE HashAvail ------------------------------
(***************************************************************************)
(* When std::hash of an option is available, and when it may throw: over   *)
(* all trees of options, const and references on leaves that are hashable  *)
(* without throwing (N), hashable (H) or not at all (U).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Leaves == {"HN", "HH", "HU", "int", "std::string", "HPair", "HDefault"}
LeafHash(l) == l \in {"HN", "HH", "int", "std::string"}
LeafNoexcept(l) == l \in {"HN", "int", "std::string"}
\* a type: [n |-> name in C++, h |-> hashable, x |-> noexcept, k |-> kind]
Leaf(l) == [n |-> l, h |-> LeafHash(l), x |-> LeafNoexcept(l), k |-> "leaf"]
Const(t) == [n |-> "const " \o t.n, h |-> FALSE, x |-> FALSE, k |-> "const", of |-> t.n]
Opt(t) ==
  LET n == "opt::option<" \o t.n \o ">" IN
  CASE t.k \in {"lref", "rref"} -> [n |-> n, h |-> TRUE, x |-> TRUE, k |-> "opt"]
    [] OTHER -> [n |-> n, h |-> t.h, x |-> t.x, k |-> "opt"]
\* an option of const T hashes like one of T
OptConst(t) == [n |-> "opt::option<const " \o t.n \o ">", h |-> t.h, x |-> t.x, k |-> "opt"]
LRef(t) == [n |-> t.n \o "&", h |-> FALSE, x |-> FALSE, k |-> "lref"]
CRef(t) == [n |-> "const " \o t.n \o "&", h |-> FALSE, x |-> FALSE, k |-> "lref"]
RRef(t) == [n |-> t.n \o "&&", h |-> FALSE, x |-> FALSE, k |-> "rref"]

T0 == {Leaf(l) : l \in Leaves}
Opts(S) == {Opt(t) : t \in S} \cup {OptConst(t) : t \in S} \cup {Opt(LRef(t)) : t \in S} \cup {Opt(CRef(t)) : t \in S} \cup {Opt(RRef(t)) : t \in S}
T1 == Opts(T0)
T2 == Opts(T1)
T3 == {Opt(t) : t \in T2}
All == T1 \cup T2 \cup T3
\* availability passes through any depth of options, and references are always hashable
ASSUME \A t \in T1 : Opt(t).h = t.h /\ Opt(Opt(t)).h = t.h
ASSUME \A t \in T0 \cup T1 : Opt(LRef(t)).h /\ Opt(RRef(t)).h
ASSUME \A t \in All : t.x => t.h
Row(q, r) == PrintT("ROW " \o ToJson([q |-> q, r |-> IF r THEN 1 ELSE 0]))
Rows == \A t \in All : Row("hashable<" \o t.n \o ">", t.h) /\ (t.h => Row("hash_noexcept<" \o t.n \o ">", t.x))
ASSUME Rows
=============================================================================
