---------------------------- MODULE OptionTrace ----------------------------
(***************************************************************************)
(* The other direction of conformance: histories recorded from the real    *)
(* opt::option<T> (operations chosen at random by the recorder, without    *)
(* any knowledge of OptionCore) are checked to be behaviours of OptionCore.*)
(*                                                                         *)
(* Rec is a sequence of records                                            *)
(*   [op, args]     the call;  op = "begin": a new pool of empty options   *)
(*   [t, res, call, ev, live]  what was observed: the contents of all      *)
(*       options after the call, its result, the callback (runs, argument, *)
(*       category), the counts of T's operations, the number of live T     *)
(*   [tr]           which of T's operations are counted: a set of names    *)
(*   [led]          live objects per engaged option (0: not counted)       *)
(* Every step must be one step of OptionCore that allows what was observed.*)
(* A history that is not a behaviour stops before its last record.         *)
(***************************************************************************)
EXTENDS OptionCore, IOUtils

Rec == ndJsonDeserialize(IOEnv.RECORD)

VARIABLE at                 \* the next record
tvars == <<slot, last, at>>

In(x, iv) == iv[1] <= x /\ x <= iv[2]

Allowed(r) ==
  /\ slot' = r.t
  /\ last'.res = r.res
  /\ <<last'.call.n, last'.call.arg, last'.call.cat>> = r.call
  /\ LET on == {r.tr[k] : k \in DOMAIN r.tr}
         ev == last'.ev
     IN /\ ("vc" \in on) => r.ev[1] = ev.vc
        /\ ("cc" \in on) => r.ev[2] = ev.cc
        /\ ("ca" \in on) => r.ev[3] = ev.ca
        /\ ("ma" \in on) => In(r.ev[4], ev.ma)
        /\ ("mc" \in on) => In(r.ev[5], ev.mc)
  /\ r.led > 0 => r.live = r.led * last'.live

Begin(r) == r.op = "begin" /\ slot' = [i \in Slots |-> 0] /\ last' = last

\* the action of OptionCore of that name; operations with a category or way in their name by enumeration
Do(r) ==
  LET op == r.op
      i  == r.args[1]
      a  == IF Len(r.args) > 1 THEN r.args[2] ELSE 0
  IN \/ op = "ctor_default" /\ CtorDefault(i)
     \/ op = "ctor_none" /\ CtorNone(i)
     \/ op = "ctor_braces" /\ CtorBraces(i)
     \/ op = "ctor_inplace" /\ CtorInPlace(i, a)
     \/ op = "ctor_valr" /\ CtorValR(i, a)
     \/ op = "ctor_vall" /\ CtorValL(i, a)
     \/ op = "ctor_copy" /\ CtorCopy(i, a)
     \/ op = "ctor_move" /\ CtorMove(i, a)
     \/ op = "make_option_t" /\ MakeOption(i, a)
     \/ op = "make_option_l" /\ MakeOptionL(i, a)
     \/ op = "make_option_r" /\ MakeOptionR(i, a)
     \/ op = "reset" /\ Reset(i)
     \/ op = "assign_none" /\ AssignNone(i)
     \/ op = "assign_l" /\ AssignL(i, a)
     \/ op = "assign_r" /\ AssignR(i, a)
     \/ op = "copy_assign" /\ CopyAssign(i, a)
     \/ op = "move_assign" /\ MoveAssign(i, a)
     \/ op = "emplace" /\ Emplace(i, a)
     \/ op = "try_emplace" /\ TryEmplace(i, a)
     \/ op = "swap" /\ Swap(i, a)
     \/ op = "swap_free" /\ SwapFree(i, a)
     \/ op = "take" /\ Take(i)
     \/ op = "take_into" /\ TakeInto(i, a)
     \/ op = "take_if" /\ TakeIf(i, a)
     \/ op = "write_range" /\ (Write(i, a, "range") \/ WriteRange0(i, a))
     \/ \E w \in WriteWays \ {"range"} : op = "write_" \o w /\ Write(i, a, w)
     \/ op = "ptr_empty" /\ WritePtr0(i)
     \/ \E c \in Cats : \/ \E m \in ValueCalls : op = m \o "_" \o c /\ Value(i, c, m)
                        \/ \E m \in AccessCalls : op = m \o "_" \o c /\ Access(i, c, m)
                        \/ op = "has_value_and_" \o c /\ HasValueAnd(i, c, a)
                        \/ op = "inspect_" \o c /\ Inspect(i, c)
                        \/ op = "filter_" \o c /\ Filter(i, c, a)
                        \/ \E k \in Kinds : \/ op = "map_" \o c \o "_" \o k /\ Map(i, c, k)
                                            \/ op = "map_or_" \o c \o "_" \o k /\ MapOr(i, c, k)
                                            \/ op = "map_or_else_" \o c \o "_" \o k /\ MapOrElse(i, c, k)
                                            \/ op = "and_then_" \o c \o "_" \o k /\ AndThen(i, c, k, a)
     \/ \E c \in {"cl", "r"} : \/ \E ac \in {"l", "r"} : op = "value_or_" \o c \o "_" \o ac /\ ValueOr(i, c, a, ac)
                               \/ op = "value_or_construct_" \o c /\ ValueOrConstruct(i, c, a)
                               \/ op = "or_else_" \o c /\ OrElse(i, c, a)

TInit == Init /\ at = 1
TNext == /\ at <= Len(Rec)
         /\ at' = at + 1
         /\ \/ Begin(Rec[at])
            \/ Rec[at].op # "begin" /\ Do(Rec[at]) /\ Allowed(Rec[at])

TSpec == TInit /\ [][TNext]_tvars

\* contents are recorded, so there is one state per accepted record: Len(Rec) + 1 distinct states if all are
TView == at
=============================================================================
