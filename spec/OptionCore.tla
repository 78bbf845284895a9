----------------------------- MODULE OptionCore -----------------------------
(***************************************************************************)
(* The life of a pool of opt::option<T> objects of one type.               *)
(*                                                                         *)
(* slot[i] is the abstract content of the i-th option:                     *)
(*     0        empty                                                      *)
(*     v > 0    engaged, holding the value v                               *)
(*     MOVED    engaged, holding a moved-from value                        *)
(* One action per public operation (and per value category of *this where  *)
(* the operation is overloaded on it).  An action is the whole call: the   *)
(* library is sequential, the return of the call is where its effect is    *)
(* observed.  `last` is the call and everything the caller can observe of  *)
(* it: its result, how often a callback ran and what it was given, which   *)
(* special members of T ran, and which objects of T were alive afterwards. *)
(*                                                                         *)
(* MoveKind "mark": moving a T leaves MOVED behind (tracked types,         *)
(* std::string, std::vector, std::unique_ptr);  "keep": moving is copying. *)
(* Caps: what T can do ("copy", "move", "assign").                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSlots, NVals, MoveKind, Caps

Slots == 1..NSlots
Vals  == 1..NVals
MOVED == 9
Codes == {0, MOVED} \cup Vals
ANY   == 99                    \* "unbounded" in event intervals

VARIABLES slot, last
vars == <<slot, last>>

Engaged(c) == c # 0
Out(c)     == IF MoveKind = "mark" /\ c # 0 THEN MOVED ELSE c   \* what a move leaves
Has(c)     == c \in Caps

\* ---- events: [vc value-ctors, cc copy-ctors, ca copy-assigns, intervals of moves]
Ev0 == [vc |-> 0, cc |-> 0, ca |-> 0, va |-> 0, ma |-> <<0, 0>>, mc |-> <<0, 0>>]
VC  == [Ev0 EXCEPT !.vc = 1]
VCm == [Ev0 EXCEPT !.vc = 1, !.mc = <<0, ANY>>]
VA  == [Ev0 EXCEPT !.va = 1]
CC  == [Ev0 EXCEPT !.cc = 1]
CCm == [Ev0 EXCEPT !.cc = 1, !.mc = <<0, ANY>>]  \* a copy, then any number of moves of the result
CA  == [Ev0 EXCEPT !.ca = 1]
MA  == [Ev0 EXCEPT !.ma = <<1, 1>>]
MC  == [Ev0 EXCEPT !.mc = <<1, 1>>]
MCm == [Ev0 EXCEPT !.mc = <<1, ANY>>]
SW  == [Ev0 EXCEPT !.mc = <<0, ANY>>, !.ma = <<0, ANY>>]

NoCall == [n |-> 0, arg |-> 0, cat |-> "-"]
Call(c, cat) == [n |-> 1, arg |-> c, cat |-> cat]

R0         == <<"void">>
ROpt(c)    == <<"opt", c>>
RVal(c)    == <<"val", c>>
RBool(b)   == <<"bool", b>>
RSelf      == <<"self">>
RThrow     == <<"throw">>
RNull      == <<"null">>

Step(op, args, s2, res, ev, call) ==
  /\ slot' = s2
  /\ last' = [op |-> op, args |-> args, res |-> res, ev |-> ev, call |-> call,
              live |-> Cardinality({i \in Slots : Engaged(s2[i])})]

Set(i, c)        == [slot EXCEPT ![i] = c]
Set2(i, c, j, d) == [slot EXCEPT ![i] = c, ![j] = d]

----------------------------------------------------------------------------
(* Construction: the option object itself is destroyed and created anew.   *)

CtorDefault(i) == Step("ctor_default", <<i>>, Set(i, 0), R0, Ev0, NoCall)
CtorNone(i)    == Step("ctor_none",    <<i>>, Set(i, 0), R0, Ev0, NoCall)
CtorBraces(i)  == Step("ctor_braces",  <<i>>, Set(i, 0), R0, Ev0, NoCall)
CtorInPlace(i, v) == Step("ctor_inplace", <<i, v>>, Set(i, v), R0, VC, NoCall)
CtorValR(i, v) == Has("move") /\ Step("ctor_valr", <<i, v>>, Set(i, v), R0, MC, NoCall)
CtorValL(i, v) == Has("copy") /\ Step("ctor_vall", <<i, v>>, Set(i, v), R0, CC, NoCall)
CtorCopy(i, j) == Has("copy") /\ i # j /\
   Step("ctor_copy", <<i, j>>, Set(i, slot[j]), R0, IF Engaged(slot[j]) THEN CC ELSE Ev0, NoCall)
CtorMove(i, j) == Has("move") /\ i # j /\
   Step("ctor_move", <<i, j>>, Set2(i, slot[j], j, Out(slot[j])), R0,
        IF Engaged(slot[j]) THEN MC ELSE Ev0, NoCall)
MakeOption(i, v) == Has("move") /\ Step("make_option_t", <<i, v>>, Set(i, v), R0, VCm, NoCall)
MakeOptionL(i, v) == Has("copy") /\ Step("make_option_l", <<i, v>>, Set(i, v), R0, CCm, NoCall)
MakeOptionR(i, v) == Has("move") /\ Step("make_option_r", <<i, v>>, Set(i, v), R0, MCm, NoCall)

(* Modification                                                             *)

Reset(i)      == Step("reset",       <<i>>, Set(i, 0), R0, Ev0, NoCall)
AssignNone(i) == Step("assign_none", <<i>>, Set(i, 0), RSelf, Ev0, NoCall)
AssignL(i, v) == Has("copy") /\ Has("assign") /\
   Step("assign_l", <<i, v>>, Set(i, v), RSelf, IF Engaged(slot[i]) THEN CA ELSE CC, NoCall)
AssignR(i, v) == Has("move") /\ Has("assign") /\
   Step("assign_r", <<i, v>>, Set(i, v), RSelf, IF Engaged(slot[i]) THEN MA ELSE MC, NoCall)

AssignEv(i, j, a, c) ==
   IF Engaged(slot[j]) THEN (IF Engaged(slot[i]) THEN a ELSE c) ELSE Ev0
CopyAssign(i, j) == Has("copy") /\ Has("assign") /\
   Step("copy_assign", <<i, j>>, Set(i, slot[j]), RSelf, AssignEv(i, j, CA, CC), NoCall)
MoveAssign(i, j) == Has("move") /\ Has("assign") /\ i # j /\
   Step("move_assign", <<i, j>>, Set2(i, slot[j], j, Out(slot[j])), RSelf,
        AssignEv(i, j, MA, MC), NoCall)

Emplace(i, v) == Step("emplace", <<i, v>>, Set(i, v), RVal(v), VC, NoCall)
TryEmplace(i, v) ==
   LET c == IF Engaged(slot[i]) THEN slot[i] ELSE v
   IN Step("try_emplace", <<i, v>>, Set(i, c), RVal(c), IF Engaged(slot[i]) THEN Ev0 ELSE VC, NoCall)

SwapEv(i, j) == IF i = j THEN SW
                ELSE IF Engaged(slot[i]) /\ Engaged(slot[j]) THEN SW
                ELSE IF Engaged(slot[i]) \/ Engaged(slot[j]) THEN MCm ELSE Ev0
\* swapping an engaged option with itself goes through T's self-move: only where moving keeps
Swap(i, j)   == Has("move") /\ Has("assign") /\ (i = j => MoveKind = "keep") /\
   Step("swap", <<i, j>>, Set2(i, slot[j], j, slot[i]), R0, SwapEv(i, j), NoCall)
SwapFree(i, j) == Has("move") /\ Has("assign") /\ i # j /\
   Step("swap_free", <<i, j>>, Set2(i, slot[j], j, slot[i]), R0, SwapEv(i, j), NoCall)

Take(i) == Has("move") /\
   Step("take", <<i>>, Set(i, 0), ROpt(slot[i]), IF Engaged(slot[i]) THEN MCm ELSE Ev0, NoCall)
TakeInto(i, j) == Has("move") /\ Has("assign") /\
   Step("take_into", <<i, j>>, [slot EXCEPT ![i] = 0, ![j] = slot[i]], R0, SW, NoCall)
TakeIf(i, p) == Has("move") /\
   LET hit == Engaged(slot[i]) /\ p = 1
   IN Step("take_if", <<i, p>>, IF hit THEN Set(i, 0) ELSE slot,
           ROpt(IF hit THEN slot[i] ELSE 0), IF hit THEN MCm ELSE Ev0,
           IF Engaged(slot[i]) THEN Call(slot[i], "l") ELSE NoCall)

\* writing through what an accessor returns; each reaches the one contained object
Write(i, v, how) == Has("copy") /\ Has("assign") /\ Engaged(slot[i]) /\
   Step("write_" \o how, <<i, v>>, Set(i, v), R0, CA, NoCall)
WriteWays == {"deref", "get", "unchecked", "value", "value_or_throw", "ptr", "begin", "arrow", "range", "cb_inspect", "cb_map"}
WriteRange0(i, v) == ~Engaged(slot[i]) /\ Has("copy") /\ Has("assign") /\
   Step("write_range", <<i, v>>, slot, R0, Ev0, NoCall)
WritePtr0(i) == ~Engaged(slot[i]) /\ Step("ptr_empty", <<i>>, slot, RNull, Ev0, NoCall)

(* Observation                                                              *)

Cats == {"l", "cl", "r", "cr"}
Plain(c) == IF c = "cr" THEN "cr" ELSE c

\* value()/value_or_throw() in each category; for r the value is moved out
ValueCalls == {"value", "value_or_throw"}
Value(i, cat, m) ==
   /\ IF cat = "r" THEN Has("move") ELSE Has("copy")
   /\ IF ~Engaged(slot[i]) THEN Step(m \o "_" \o cat, <<i>>, slot, RThrow, Ev0, NoCall)
      ELSE IF cat = "r" THEN Step(m \o "_r", <<i>>, Set(i, Out(slot[i])), RVal(slot[i]), MCm, NoCall)
      ELSE Step(m \o "_" \o cat, <<i>>, slot, RVal(slot[i]), CCm, NoCall)
AccessCalls == {"get", "deref", "get_unchecked"}
Access(i, cat, m) ==
   Engaged(slot[i]) /\
   IF cat = "r"
        THEN Has("move") /\ Step(m \o "_r", <<i>>, Set(i, Out(slot[i])), RVal(slot[i]), MCm, NoCall)
        ELSE Has("copy") /\ Step(m \o "_" \o cat, <<i>>, slot, RVal(slot[i]), CCm, NoCall)

ValueOr(i, cat, v, argcat) ==
   /\ Has("move") /\ (cat = "cl" => Has("copy")) /\ (argcat = "l" => Has("copy"))
   /\ LET ev == IF Engaged(slot[i]) THEN (IF cat = "r" THEN MCm ELSE CCm)
                ELSE (IF argcat = "l" THEN CCm ELSE MCm)
      IN Step("value_or_" \o cat \o "_" \o argcat, <<i, v>>,
              IF cat = "r" THEN Set(i, Out(slot[i])) ELSE slot,
              RVal(IF Engaged(slot[i]) THEN slot[i] ELSE v), ev, NoCall)
ValueOrConstruct(i, cat, v) ==
   /\ Has("move") /\ (cat = "cl" => Has("copy"))
   /\ Step("value_or_construct_" \o cat, <<i, v>>,
           IF cat = "r" THEN Set(i, Out(slot[i])) ELSE slot,
           RVal(IF Engaged(slot[i]) THEN slot[i] ELSE v),
           IF Engaged(slot[i]) THEN (IF cat = "r" THEN MCm ELSE CCm) ELSE VCm, NoCall)

(* Callbacks: "peek" looks at its argument, "sink" moves out of an rvalue. *)

CallIf(i, cat) == IF Engaged(slot[i]) THEN Call(slot[i], cat) ELSE NoCall
Sunk(i, k)     == IF k = "sink" THEN Set(i, Out(slot[i])) ELSE slot
SinkEv(i, k)   == IF k = "sink" /\ Engaged(slot[i]) THEN MCm ELSE Ev0
KindOK(cat, k) == k = "sink" => (cat = "r" /\ Has("move"))
Kinds          == {"peek", "sink"}

HasValueAnd(i, cat, p) ==
   Step("has_value_and_" \o cat, <<i, p>>, slot, RBool(Engaged(slot[i]) /\ p = 1), Ev0, CallIf(i, cat))
Inspect(i, cat) == Step("inspect_" \o cat, <<i>>, slot, RSelf, Ev0, CallIf(i, cat))
MapV(c) == c + 100
Map(i, cat, k) == KindOK(cat, k) /\
   Step("map_" \o cat \o "_" \o k, <<i>>, Sunk(i, k),
        ROpt(IF Engaged(slot[i]) THEN MapV(slot[i]) ELSE 0), SinkEv(i, k), CallIf(i, cat))
AndThen(i, cat, k, p) == KindOK(cat, k) /\
   Step("and_then_" \o cat \o "_" \o k, <<i, p>>, Sunk(i, k),
        ROpt(IF Engaged(slot[i]) /\ p = 1 THEN MapV(slot[i]) ELSE 0), SinkEv(i, k), CallIf(i, cat))
MapOr(i, cat, k) == KindOK(cat, k) /\
   Step("map_or_" \o cat \o "_" \o k, <<i>>, Sunk(i, k),
        RVal(IF Engaged(slot[i]) THEN MapV(slot[i]) ELSE 55), SinkEv(i, k), CallIf(i, cat))
\* the default function of map_or_else runs exactly when the mapping one does not
MapOrElse(i, cat, k) == KindOK(cat, k) /\
   Step("map_or_else_" \o cat \o "_" \o k, <<i>>, Sunk(i, k),
        RVal(IF Engaged(slot[i]) THEN MapV(slot[i]) ELSE 66), SinkEv(i, k),
        IF Engaged(slot[i]) THEN Call(slot[i], cat) ELSE Call(0, "default"))
Filter(i, cat, p) ==
   /\ IF cat = "r" THEN Has("move") ELSE Has("copy")
   /\ LET hit == Engaged(slot[i]) /\ p = 1
      IN Step("filter_" \o cat, <<i, p>>, IF hit /\ cat = "r" THEN Set(i, Out(slot[i])) ELSE slot,
              ROpt(IF hit THEN slot[i] ELSE 0),
              IF ~hit THEN Ev0 ELSE IF cat = "r" THEN MCm ELSE CCm,
              IF Engaged(slot[i]) THEN Call(slot[i], IF cat \in {"l", "r"} THEN "l" ELSE "cl") ELSE NoCall)
\* or_else: v = 0 means the function returns an empty option
OrElse(i, cat, v) ==
   /\ IF cat = "r" THEN Has("move") ELSE Has("copy")
   /\ Step("or_else_" \o cat, <<i, v>>,
           IF cat = "r" THEN Set(i, Out(slot[i])) ELSE slot,
           ROpt(IF Engaged(slot[i]) THEN slot[i] ELSE v),
           IF Engaged(slot[i]) THEN (IF cat = "r" THEN MCm ELSE CCm)
           ELSE IF v = 0 THEN Ev0 ELSE VCm,
           IF Engaged(slot[i]) THEN NoCall ELSE Call(0, "default"))

----------------------------------------------------------------------------
Init == slot = [i \in Slots |-> 0] /\
        last = [op |-> "init", args |-> <<>>, res |-> R0, ev |-> Ev0, call |-> NoCall, live |-> 0]

Next ==
  \E i \in Slots :
    \/ CtorDefault(i) \/ CtorNone(i) \/ CtorBraces(i) \/ Reset(i) \/ AssignNone(i) \/ Take(i)
    \/ WritePtr0(i)
    \/ \E v \in Vals :
         \/ CtorInPlace(i, v) \/ CtorValR(i, v) \/ CtorValL(i, v)
         \/ MakeOption(i, v) \/ MakeOptionL(i, v) \/ MakeOptionR(i, v)
         \/ AssignL(i, v) \/ AssignR(i, v) \/ Emplace(i, v) \/ TryEmplace(i, v)
         \/ \E w \in WriteWays : Write(i, v, w)
         \/ WriteRange0(i, v)
         \/ \E cat \in {"cl", "r"} :
              \/ \E ac \in {"l", "r"} : ValueOr(i, cat, v, ac)
              \/ ValueOrConstruct(i, cat, v)
    \/ \E j \in Slots :
         \/ CtorCopy(i, j) \/ CtorMove(i, j) \/ CopyAssign(i, j) \/ MoveAssign(i, j)
         \/ Swap(i, j) \/ SwapFree(i, j) \/ (i # j /\ TakeInto(i, j))
    \/ \E p \in {0, 1} :
         \/ TakeIf(i, p)
         \/ \E cat \in Cats : HasValueAnd(i, cat, p) \/ Filter(i, cat, p)
         \/ \E cat \in Cats, k \in Kinds : AndThen(i, cat, k, p)
    \/ \E cat \in Cats :
         \/ Inspect(i, cat)
         \/ \E m \in ValueCalls : Value(i, cat, m)
         \/ \E m \in AccessCalls : Access(i, cat, m)
         \/ \E k \in Kinds : Map(i, cat, k) \/ MapOr(i, cat, k) \/ MapOrElse(i, cat, k)
    \/ \E cat \in {"cl", "r"}, v \in Vals \cup {0} : OrElse(i, cat, v)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What must hold (checked by TLC over every reachable state and step).    *)

TypeOK == slot \in [Slots -> Codes]

\* one live T per engaged option, none for an empty one
LiveIsEngaged == [][last'.live = Cardinality({i \in Slots : slot'[i] # 0})]_vars

\* an operation named for one option changes no other one, except where it says so
Touches2 == {"ctor_move", "move_assign", "swap", "swap_free", "take_into"}
LocalStep ==
  [][ \A i \in Slots : (slot'[i] # slot[i]) =>
        \/ Len(last'.args) >= 1 /\ last'.args[1] = i
        \/ Len(last'.args) >= 2 /\ last'.op \in Touches2 /\ last'.args[2] = i ]_vars

\* copies never change their source, and never move
CopyStep ==
  [][ last'.op \in {"ctor_copy", "copy_assign"} =>
        slot'[last'.args[2]] = slot[last'.args[2]] ]_vars

\* a moved-from option stays engaged: only take, reset, none (and swap) disengage
Disengagers == {"ctor_default", "ctor_none", "ctor_braces", "reset", "assign_none", "take", "take_if",
                "take_into", "swap", "swap_free", "ctor_copy", "ctor_move", "copy_assign", "move_assign"}
MoveKeepsEngaged ==
  [][ \A i \in Slots : (slot[i] # 0 /\ slot'[i] = 0) => last'.op \in Disengagers ]_vars

\* a callback runs at most once per call, and only on an engaged value (or as the default)
CallOnce ==
  [][ /\ last'.call.n \in {0, 1}
      /\ (last'.call.n = 1 /\ last'.call.cat # "default") =>
           /\ slot[last'.args[1]] # 0
           /\ last'.call.arg = slot[last'.args[1]] ]_vars

\* rvalue operations never copy a T, except reading a const rvalue
RvalueNoCopy ==
  [][ last'.op \in {"ctor_move", "ctor_valr", "move_assign", "assign_r", "take", "take_if", "take_into",
                    "swap", "swap_free", "filter_r", "or_else_r", "value_r", "get_r", "deref_r",
                    "value_or_r_r", "emplace", "try_emplace"}
        => last'.ev.cc = 0 /\ last'.ev.ca = 0 ]_vars

\* every transition, for the conformance harness
Emit == PrintT("EDGE " \o ToJson([s |-> slot, a |-> last', t |-> slot']))
View == slot
=============================================================================
