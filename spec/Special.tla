------------------------------ MODULE Special -------------------------------
(***************************************************************************)
(* Which special members an option has, whether they are trivial and       *)
(* whether they promise not to throw, as a function of those of the        *)
(* contained type; and which constructors, conversions and assignments     *)
(* exist, and which of them are explicit, as a function of what T can be   *)
(* made of.  Types are enumerated by their features; every row is asked of *)
(* the compiler on a type with these features.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

B(x) == IF x THEN 1 ELSE 0
Ask(d, q, r) == PrintT("ROW " \o ToJson([d |-> d, q |-> q, r |-> B(r)]))

(* ------------------------------------------------ part 1: special members *)
Copies == {"deleted", "throws", "nothrow", "trivial"}
Moves == Copies \cup {"none"}     \* not declared: copying takes its place
Dtors == {"trivial", "nothrow", "throws"}
T0 == [cc : Copies, mc : Moves, ca : Copies, ma : Moves, d : Dtors, lv : {FALSE, TRUE}]

\* what std's type traits say of such a type
DOk(t) == t.d # "throws"
Eff(m, c) == IF m = "none" THEN c ELSE m
MC(t) == Eff(t.mc, t.cc)
MA(t) == Eff(t.ma, t.ca)
Can(k) == k # "deleted"
Quiet(k) == k \in {"nothrow", "trivial"}
CanC(t) == Can(t.cc)     CanM(t) == Can(MC(t))   CanCA(t) == Can(t.ca)   CanMA(t) == Can(MA(t))
NoC(t) == Quiet(t.cc) /\ DOk(t)
NoM(t) == Quiet(MC(t)) /\ DOk(t)
NoCA(t) == Quiet(t.ca)
NoMA(t) == Quiet(MA(t))
TrD(t) == t.d = "trivial"
TrC(t) == t.cc = "trivial" /\ TrD(t)
TrM(t) == MC(t) = "trivial" /\ TrD(t)
TrCA(t) == t.ca = "trivial"
TrMA(t) == MA(t) = "trivial"

\* the option; where it cannot move it copies, like any type whose move operation is left out
OC(t) == CanC(t)
OCA(t) == CanC(t) /\ CanCA(t)
OM(t) == CanM(t) \/ OC(t)
OMA(t) == (CanM(t) /\ CanMA(t)) \/ OCA(t)
OTrD(t) == TrD(t)
OTrC(t) == TrC(t)
OTrCA(t) == OCA(t) /\ TrCA(t) /\ TrC(t)
ONoC(t) == OC(t) /\ NoC(t)
ONoCA(t) == OCA(t) /\ NoCA(t) /\ NoC(t)
OTrM(t) == IF CanM(t) THEN TrM(t) ELSE OTrC(t)
ONoM(t) == IF CanM(t) THEN NoM(t) ELSE ONoC(t)
OTrMA(t) == IF CanM(t) /\ CanMA(t) THEN TrMA(t) /\ TrM(t) ELSE OTrCA(t)
ONoMA(t) == IF CanM(t) /\ CanMA(t) THEN NoMA(t) /\ NoM(t) ELSE ONoCA(t)
\* its own swap needs T's; otherwise std's works where the option can be moved
OSwap(t) == CanM(t) /\ CanMA(t)
ONoSwap(t) == OSwap(t) /\ NoM(t) /\ NoMA(t)
StdSwap(t) == OSwap(t) \/ (OM(t) /\ OMA(t))
NoStdSwap(t) == IF OSwap(t) THEN ONoSwap(t) ELSE StdSwap(t) /\ ONoM(t) /\ ONoMA(t)

\* laws: nothing is promised that T does not promise; trivial operations exist and do not throw; nesting changes nothing
AsT(t) == [cc |-> IF ~OC(t) THEN "deleted" ELSE IF OTrC(t) THEN "trivial" ELSE IF ONoC(t) THEN "nothrow" ELSE "throws",
           mc |-> IF ~OM(t) THEN "deleted" ELSE IF OTrM(t) THEN "trivial" ELSE IF ONoM(t) THEN "nothrow" ELSE "throws",
           ca |-> IF ~OCA(t) THEN "deleted" ELSE IF OTrCA(t) THEN "trivial" ELSE IF ONoCA(t) THEN "nothrow" ELSE "throws",
           ma |-> IF ~OMA(t) THEN "deleted" ELSE IF OTrMA(t) THEN "trivial" ELSE IF ONoMA(t) THEN "nothrow" ELSE "throws",
           d |-> IF OTrD(t) THEN "trivial" ELSE "nothrow", lv |-> t.lv]
ASSUME \A t \in T0 :
  /\ (OTrC(t) => ONoC(t)) /\ (OTrM(t) => ONoM(t)) /\ (OTrCA(t) => ONoCA(t) /\ OTrC(t)) /\ (OTrMA(t) => ONoMA(t))
  /\ (OCA(t) => OC(t)) /\ (OMA(t) => OM(t)) /\ (ONoCA(t) => ONoC(t)) /\ (CanMA(t) => (ONoMA(t) => ONoM(t)) /\ (OTrMA(t) => OTrM(t)))
  /\ (OC(t) => OM(t)) /\ (OCA(t) => OMA(t))
  /\ (DOk(t) /\ (CanM(t) => CanMA(t)) => LET u == AsT(t) IN AsT(u) = u)

\* types that exist in practice, all of them with flags, a part of them with levels
Sane(t) ==
  /\ (t.mc = "none" => t.cc # "deleted") /\ (t.ma = "none" => t.ca # "deleted")
  /\ (t.lv => t.d # "throws" /\ t.mc # "none" /\ t.ma # "none")
  /\ (t.d = "throws" => t.cc \in {"nothrow", "trivial"} /\ t.ca \in {"nothrow", "trivial"})
TName(t) == "S_" \o t.cc \o "_" \o t.mc \o "_" \o t.ca \o "_" \o t.ma \o "_" \o t.d \o (IF t.lv THEN "_L" ELSE "")
TDef(t) == (IF t.lv THEN "DEFL(" ELSE "DEF(") \o TName(t) \o ", " \o t.cc \o ", " \o t.mc \o ", " \o t.ca \o ", " \o t.ma \o ", " \o t.d \o ")"

Members(d, o, c, m, ca, ma, trc, trm, trca, trma, trd, noc, nom, noca, noma) ==
  LET q(tr, r) == Ask(d, "std::is_" \o tr \o "_v<" \o o \o ">", r) IN
  /\ q("default_constructible", TRUE) /\ q("nothrow_default_constructible", TRUE)
  /\ q("copy_constructible", c) /\ q("move_constructible", m) /\ q("copy_assignable", ca) /\ q("move_assignable", ma)
  /\ q("trivially_copy_constructible", trc) /\ q("trivially_move_constructible", trm) /\ q("trivially_copy_assignable", trca) /\ q("trivially_move_assignable", trma)
  /\ q("trivially_destructible", trd)
  /\ q("nothrow_copy_constructible", noc) /\ q("nothrow_move_constructible", nom) /\ q("nothrow_copy_assignable", noca) /\ q("nothrow_move_assignable", noma)
  /\ q("nothrow_destructible", TRUE)
  /\ Ask(d, "std::is_constructible_v<" \o o \o ", opt::none_t>", TRUE) /\ Ask(d, "std::is_nothrow_constructible_v<" \o o \o ", opt::none_t>", TRUE)
  /\ Ask(d, "std::is_nothrow_assignable_v<" \o o \o "&, opt::none_t>", TRUE)
MemberRows == \A t \in T0 : Sane(t) =>
  LET d == TDef(t)
      o == "opt::option<" \o TName(t) \o ">"
      q(tr, r) == Ask(d, "std::is_" \o tr \o "_v<" \o o \o ">", r)
      \* which operations exist decides whether the whole is trivially copyable
      tc == (OC(t) => OTrC(t)) /\ (OM(t) => OTrM(t)) /\ (OCA(t) => OTrCA(t)) /\ (OMA(t) => OTrMA(t)) /\ TrD(t) /\ (OC(t) \/ OM(t) \/ OCA(t) \/ OMA(t))
  IN
  /\ Members(d, o, OC(t), OM(t), OCA(t), OMA(t), OTrC(t), OTrM(t), OTrCA(t), OTrMA(t), OTrD(t), ONoC(t), ONoM(t), ONoCA(t), ONoMA(t))
  \* compilers differ where something is deleted
  /\ (OC(t) /\ OCA(t) /\ CanM(t) /\ CanMA(t) => q("trivially_copyable", tc))
  /\ q("swappable", StdSwap(t)) /\ q("nothrow_swappable", NoStdSwap(t))
  /\ (CanM(t) /\ CanMA(t) => Ask(d, "noexcept(dv<" \o o \o "&>().swap(dv<" \o o \o "&>()))", ONoSwap(t)))
  /\ Ask(d, "can_opt_swap<" \o o \o ", " \o o \o ">", OSwap(t))
\* nested options (not of types that can be copied but not moved: compilers differ on them)
NestRows == \A t \in T0 : (Sane(t) /\ (CanC(t) => CanM(t)) /\ (CanCA(t) => CanMA(t)) /\ t.d # "throws" /\ t.mc # "none" /\ t.ma # "none" /\ ~t.lv /\ t.cc = t.ca) =>
  LET d == TDef(t)
      oo == "opt::option<opt::option<" \o TName(t) \o ">>"
      u == AsT(t) IN
  Members(d, oo, OC(u), OM(u), OCA(u), OMA(u), OTrC(u), OTrM(u), OTrCA(u), OTrMA(u), OTrD(u), ONoC(u), ONoM(u), ONoCA(u), ONoMA(u))
\* constant objects: never assigned, copied instead of moved
ConstRows == \A t \in T0 : (Sane(t) /\ t.d # "throws" /\ t.mc \in {"none", t.cc} /\ t.ca = t.ma) =>
  Members(TDef(t), "opt::option<" \o TName(t) \o " const>", OC(t), OC(t), FALSE, FALSE, OTrC(t), OTrC(t), FALSE, FALSE, OTrD(t), ONoC(t), ONoC(t), FALSE, FALSE)
\* references: everything trivial
RefRows == \A r \in {"S_r&", "S_r const&", "S_r&&"} :
  /\ Members("DEF(S_r, throws, throws, deleted, throws, nothrow)", "opt::option<" \o r \o ">", TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE)
  /\ Ask("DEF(S_r, throws, throws, deleted, throws, nothrow)", "std::is_trivially_copyable_v<opt::option<" \o r \o ">>", TRUE)
\* two types with their own swap
SwapKinds == {"throws", "nothrow", "deleted"}
SwapRows == \A x, y \in {"deleted", "throws", "nothrow"}, s, z \in SwapKinds :
  LET n == "X_" \o x \o "_" \o y \o "_" \o s \o "_" \o z
      d == "DEFSWAP(" \o n \o ", " \o x \o ", " \o y \o ", " \o s \o ", " \o z \o ")"
      a == "opt::option<" \o n \o "_a>"
      b == "opt::option<" \o n \o "_b>"
      ok == Can(x) /\ Can(y) /\ s # "deleted" /\ z # "deleted"
      quiet == ok /\ Quiet(x) /\ Quiet(y) /\ s = "nothrow" /\ z = "nothrow" IN
  /\ Ask(d, "can_opt_swap<" \o a \o ", " \o b \o ">", ok)
  /\ Ask(d, "can_opt_swap<" \o b \o ", " \o a \o ">", ok)
  /\ (ok => /\ Ask(d, "noexcept(opt::swap(dv<" \o a \o "&>(), dv<" \o b \o "&>()))", quiet)
            /\ Ask(d, "noexcept(dv<" \o b \o "&>().swap(dv<" \o a \o "&>()))", quiet))

\* what never throws, and what must not promise that on a type whose operations throw
Always == {"get()", "operator*()", "operator->()", "get_unchecked()", "has_value()", "operator bool()", "ptr_or_null()", "begin()", "end()"}
LD == "DEF(Loud, throws, throws, throws, throws, nothrow)"
LQ(q, r) == Ask(LD, "noexcept(" \o q \o ")", r)
NoexceptRows == \A o \in {"dv<opt::option<Loud>&>()", "dv<opt::option<Loud> const&>()", "dv<opt::option<Loud>&&>()"} :
  /\ \A f \in Always : LQ(o \o "." \o f, TRUE)
  /\ \A f \in {"value()", "value_or_throw()", "value_or(dv<Loud>())", "value_or_construct()", "map(LoudF{})", "and_then(LoudO{})", "or_else(LoudO{})", "filter(LoudP{})", "inspect(LoudP{})", "has_value_and(LoudP{})", "map_or(dv<Loud>(), LoudF{})", "map_or_else(LoudF{}, LoudF{})"} : LQ(o \o "." \o f, FALSE)
  /\ \A f \in {"opt::flatten", "opt::zip", "opt::make_option", "opt::option_cast<Loud>"} : LQ(f \o "(" \o o \o ")", FALSE)
  /\ LQ("opt::zip_with(LoudF{}, " \o o \o ")", FALSE)
  /\ LQ(o \o " | " \o o, FALSE) /\ LQ(o \o " ^ " \o o, FALSE) /\ LQ(o \o " & " \o o, FALSE) /\ LQ(o \o " | dv<Loud>()", FALSE)
NoexceptRows2 == LET o == "dv<opt::option<Loud>&>()" IN
  /\ LQ(o \o ".reset()", TRUE)
  /\ \A f \in {"take()", "take_if(LoudP{})", "emplace()", "emplace(dv<Loud>())", "try_emplace(dv<Loud>())"} : LQ(o \o "." \o f, FALSE)
  /\ LQ(o \o " = dv<Loud>()", FALSE) /\ LQ(o \o " = dv<Loud const&>()", FALSE) /\ LQ(o \o " |= dv<Loud>()", FALSE)
  /\ LQ("opt::option<Loud>(dv<Loud>())", FALSE) /\ LQ("opt::option<Loud>(std::in_place)", FALSE)
  /\ LQ("opt::from_nullable(dv<Loud*>())", TRUE) /\ LQ("opt::io(" \o o \o ")", TRUE)
  /\ LQ("opt::at(dv<std::vector<Loud>&>(), 0)", TRUE)
  /\ LQ("opt::get<0>(dv<std::variant<Loud>&>())", TRUE)

(* -------------------------------- part 2: what options can be made of *)
\* T made from const A& / A&& (no, explicitly, implicitly), assigned from them, made and assigned from option<A>
Ways == {"no", "explicitly", "implicitly"}
F0 == [c : Ways, m : Ways, ac : BOOLEAN, am : BOOLEAN, oc : BOOLEAN, oa : BOOLEAN]
FName(t) == "F_" \o t.c \o "_" \o t.m \o "_" \o ToString(B(t.ac)) \o ToString(B(t.am)) \o ToString(B(t.oc)) \o ToString(B(t.oa))
FDef(t) == "DEFF(" \o FName(t) \o ", " \o t.c \o ", " \o t.m \o ", " \o ToString(B(t.ac)) \o ", " \o ToString(B(t.am)) \o ", " \o ToString(B(t.oc)) \o ", " \o ToString(B(t.oa)) \o ")"
\* from an lvalue or const: only const A&; from an rvalue: A&& or const A&
FromL(t) == t.c # "no"
FromR(t) == t.c # "no" \/ t.m # "no"
ImpL(t) == t.c = "implicitly"
\* overload resolution among implicit ways
ImpR(t) == t.c = "implicitly" \/ t.m = "implicitly"
AsgL(t) == t.ac \/ ImpL(t)
AsgR(t) == t.ac \/ t.am \/ ImpR(t)
\* an option of A as the source: T itself has the first word
OptL(t) == t.oc \/ FromL(t)
OptR(t) == t.oc \/ FromR(t)
OptImpL(t) == t.oc \/ ImpL(t)
OptImpR(t) == t.oc \/ ImpR(t)
\* assignment: what T makes of an option comes first, and conversions by content only if T has no way of its own
OptAsgL(t) == IF t.oc THEN TRUE ELSE FromL(t) /\ AsgL(t) /\ ~t.oa
OptAsgR(t) == IF t.oc THEN TRUE ELSE FromR(t) /\ AsgR(t) /\ ~t.oa
ASSUME \A t \in F0 : (ImpL(t) => FromL(t)) /\ (ImpR(t) => FromR(t)) /\ (FromL(t) => FromR(t)) /\ (OptImpL(t) => OptL(t))
ConvRows == \A t \in F0 :
  LET d == FDef(t)
      n == FName(t)
      o == "opt::option<" \o n \o ">"
      con(x, r) == Ask(d, "std::is_constructible_v<" \o o \o ", " \o x \o ">", r)
      imp(x, r) == Ask(d, "std::is_convertible_v<" \o x \o ", " \o o \o ">", r)
      asg(x, r) == Ask(d, "std::is_assignable_v<" \o o \o "&, " \o x \o ">", r)
      \* an assignment that is not one of the option still works through the implicit conversion and move assignment
  IN
  /\ con("A const&", FromL(t)) /\ con("A&", FromL(t)) /\ con("A", FromR(t)) /\ con("A const", FromL(t))
  /\ imp("A const&", ImpL(t)) /\ imp("A&", ImpL(t)) /\ imp("A", ImpR(t))
  /\ con("std::in_place_t, A const&", FromL(t)) /\ con("std::in_place_t, A", FromR(t))
  /\ imp("std::in_place_t", FALSE)
  /\ con("opt::option<A> const&", OptL(t)) /\ con("opt::option<A>&", OptL(t)) /\ con("opt::option<A>", OptR(t))
  /\ imp("opt::option<A> const&", OptImpL(t)) /\ imp("opt::option<A>&", OptImpL(t)) /\ imp("opt::option<A>", OptImpR(t))
  /\ asg("A const&", (FromL(t) /\ AsgL(t)) \/ ImpL(t)) /\ asg("A&", (FromL(t) /\ AsgL(t)) \/ ImpL(t)) /\ asg("A", (FromR(t) /\ AsgR(t)) \/ ImpR(t))
  /\ asg("opt::option<A> const&", OptAsgL(t) \/ OptImpL(t)) /\ asg("opt::option<A>", OptAsgR(t) \/ OptImpR(t))
  /\ con("Unrelated", FALSE) /\ asg("Unrelated", FALSE) /\ con("opt::option<Unrelated>", FALSE) /\ asg("opt::option<Unrelated>", FALSE)
  /\ con(n, TRUE) /\ imp(n, TRUE) /\ con(n \o " const&", TRUE) /\ asg(n, TRUE) /\ asg(n \o " const&", TRUE)
  /\ con("opt::none_t", TRUE) /\ imp("opt::none_t", TRUE) /\ asg("opt::none_t", TRUE)
  /\ con("std::in_place_t", TRUE) /\ con("std::in_place_t, Unrelated", FALSE)
  /\ con("A, A, A, A", FALSE)

\* how many arguments T takes; only the counts it takes make an option
ArgRows == \A k \in {0, 2, 3} :
  LET n == "N_" \o ToString(k)
      d == "DEFN(" \o n \o ", " \o ToString(k) \o ")"
      args(j) == CASE j = 0 -> "" [] j = 1 -> ", A" [] j = 2 -> ", A, A" [] j = 3 -> ", A, A, A"
  IN \A j \in 0..3 :
    /\ Ask(d, "std::is_constructible_v<opt::option<" \o n \o ">, std::in_place_t" \o args(j) \o ">", j = k)
    /\ (j > 0 => Ask(d, "std::is_constructible_v<opt::option<" \o n \o ">" \o args(j) \o ">", j = k))
    /\ Ask(d, "std::is_constructible_v<opt::option<" \o n \o ">, std::in_place_t, std::initializer_list<A>" \o args(j) \o ">", k = 2 /\ j = 1)
\* aggregates are made of prefixes of their members' values
AggRows == \A j \in 0..4 :
  LET args == CASE j = 0 -> "" [] j = 1 -> ", int" [] j = 2 -> ", int, A" [] j = 3 -> ", int, A, int" [] j = 4 -> ", int, A, int, int" IN
  /\ Ask("", "std::is_constructible_v<opt::option<Agg3>, std::in_place_t" \o args \o ">", j <= 3)
  /\ (j > 0 => Ask("", "std::is_constructible_v<opt::option<Agg3>" \o args \o ">", j <= 3))

\* options of references: exactly what the reference binds to without making anything
\* classes Base <- Derived, Other; a source is an expression of type x (const or not), lvalue or not
Cls == {"Base", "Derived", "Other"}
Upcast(x, y) == x = y \/ (x = "Derived" /\ y = "Base")
RefBinds(tb, tc, tr, x, xc, xl) == Upcast(x, tb) /\ (xc => tc) /\ (tr = "l" <=> xl)
RefRows2 == \A tb \in Cls, tc, xc, xl \in BOOLEAN, tr \in {"l", "r"}, x \in Cls :
  LET o == "opt::option<" \o tb \o (IF tc THEN " const" ELSE "") \o (IF tr = "l" THEN "&" ELSE "&&") \o ">"
      src == x \o (IF xc THEN " const" ELSE "") \o (IF xl THEN "&" ELSE "&&")
      r == RefBinds(tb, tc, tr, x, xc, xl) IN
  /\ Ask("", "std::is_constructible_v<" \o o \o ", " \o src \o ">", r)
  /\ Ask("", "std::is_convertible_v<" \o src \o ", " \o o \o ">", r)
  /\ Ask("", "std::is_assignable_v<" \o o \o "&, " \o src \o ">", r)
  \* an option of a reference
  /\ Ask("", "std::is_constructible_v<" \o o \o ", opt::option<" \o src \o ">>", r)
  /\ Ask("", "std::is_convertible_v<opt::option<" \o src \o ">, " \o o \o ">", r)
  /\ Ask("", "std::is_assignable_v<" \o o \o "&, opt::option<" \o src \o ">>", r)
  /\ Ask("", "std::is_constructible_v<" \o o \o ", " \o src \o ", int>", FALSE)
WrapRows == \A tc, xc \in BOOLEAN :
  LET o == "opt::option<Base" \o (IF tc THEN " const" ELSE "") \o "&>"
      w == "std::reference_wrapper<Base" \o (IF xc THEN " const" ELSE "") \o ">" IN
  /\ (tc \/ ~xc => Ask("", "std::is_constructible_v<" \o o \o ", " \o w \o ">", TRUE) /\ Ask("", "std::is_assignable_v<" \o o \o "&, " \o w \o ">", TRUE))
  /\ (~tc /\ xc => Ask("", "std::is_constructible_v<" \o o \o ", " \o w \o ">", FALSE) /\ Ask("", "std::is_assignable_v<" \o o \o "&, " \o w \o ">", FALSE))
\* temporaries of the value do not become references
DangleRows == \A o \in {"opt::option<int&>", "opt::option<int const&>"} :
  /\ Ask("", "std::is_constructible_v<" \o o \o ", int>", FALSE) /\ Ask("", "std::is_constructible_v<" \o o \o ", long&>", FALSE)
  /\ Ask("", "std::is_assignable_v<" \o o \o "&, int>", FALSE) /\ Ask("", "std::is_assignable_v<" \o o \o "&, long&>", FALSE)
  /\ Ask("", "std::is_constructible_v<" \o o \o ", opt::option<int>>", FALSE)
  /\ Ask("", "std::is_constructible_v<" \o o \o ", opt::option<int>&>", FALSE)
\* bool is special: an option of it is not made from whether another option has a value
BoolRows ==
  /\ \A x \in {"opt::option<int>", "opt::option<int>&", "opt::option<int> const&"} :
       /\ Ask("", "std::is_constructible_v<opt::option<bool>, " \o x \o ">", TRUE)      \* by content
       /\ Ask("", "std::is_convertible_v<" \o x \o ", opt::option<bool>>", TRUE)
  /\ Ask("", "std::is_constructible_v<opt::option<bool>, opt::option<Unrelated>>", FALSE)
  /\ Ask("", "std::is_constructible_v<opt::option<bool>, int>", TRUE)
  /\ Ask("", "std::is_convertible_v<opt::option<int>, bool>", FALSE)
  /\ Ask("", "std::is_convertible_v<opt::option<int>, int>", FALSE)
  /\ Ask("", "std::is_constructible_v<int, opt::option<int>>", FALSE)
ASSUME MemberRows /\ NestRows /\ ConstRows /\ RefRows /\ SwapRows /\ NoexceptRows /\ NoexceptRows2
ASSUME ConvRows /\ ArgRows /\ AggRows /\ RefRows2 /\ WrapRows /\ DangleRows /\ BoolRows
=============================================================================
