------------------------------ MODULE WrapOps ------------------------------
(***************************************************************************)
(* The operations of the payload wrappers (opt::sentinel, opt::sentinel_f, *)
(* opt::member, opt::enforce) on the value they wrap: what is passed in as  *)
(* a modifiable rvalue is moved from and never copied; what is passed in   *)
(* otherwise is copied once and left alone; the wrapper converts to the    *)
(* value in its own category; what may throw is what the value says.       *)
(* An operation is a sequence of transfers between places; TLC runs them   *)
(* and prints the outcome of each as a row for the compiled program.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Cats == {[c |-> c, r |-> r] : c \in BOOLEAN, r \in {"l", "r"}}
Q(t, s) == (IF s.c THEN "const " ELSE "") \o t \o (IF s.r = "l" THEN "&" ELSE "&&")
Moves(s) == s.r = "r" /\ ~s.c

\* the state: a source with a value and whether it was moved from, a destination with a value and copies so far
Start(v) == [src |-> v, gone |-> FALSE, dst |-> 0, copies |-> 0]
Transfer(m, s) == [m EXCEPT !.dst = m.src, !.gone = Moves(s), !.copies = IF Moves(s) THEN 0 ELSE 1]
Code(m) == m.copies * 1000 + (IF m.gone THEN 100 ELSE 0) + m.dst

ASSUME \A s \in Cats : LET m == Transfer(Start(5), s) IN m.dst = 5 /\ (m.gone <=> m.copies = 0) /\ (s.c => ~m.gone) /\ (s.r = "l" => ~m.gone)

Row(q, r) == PrintT("ROW " \o ToJson([q |-> q, r |-> r]))
B(b) == IF b THEN 1 ELSE 0
Ws == 0..3
WT(w) == "WT<" \o ToString(w) \o ">"
OW(w) == "opt::option<" \o WT(w) \o ">"

\* from a value, and from something a value is made of or assigned from
Into(w) == { WT(w) \o " w(FW(x)); return out(w);", WT(w) \o " w{FW(x)}; return out(w);",
             OW(w) \o " o(std::in_place, FW(x)); return out(o);", OW(w) \o " o; o.emplace(FW(x)); return out(o);",
             OW(w) \o " o(std::in_place, Trk(1)); o.emplace(FW(x)); return out(o);",
             OW(w) \o " o{FW(x)}; return out(o);", OW(w) \o " o; Trk t = o.value_or_construct(FW(x)); return t;" }
OnlyValue(w) == { WT(w) \o " w; w = FW(x); return out(w);", WT(w) \o " w(Trk(1)); auto& q = (w = FW(x)); return &q == &w ? out(w) : Trk();",
             OW(w) \o " o; o = FW(x); return out(o);", OW(w) \o " o(std::in_place, Trk(1)); o = FW(x); return out(o);",
             WT(w) \o " w = FW(x); return out(w);", "auto f = [](" \o WT(w) \o " w) { return out(w); }; return f(FW(x));" }
FromValues == \A w \in Ws, s \in Cats :
  /\ \A b \in Into(w) \cup OnlyValue(w) : Row("(via<" \o Q("Trk", s) \o ">(src_t(), [](auto&& x) -> Trk { " \o b \o " }))", Code(Transfer(Start(5), s)))
  /\ \A b \in Into(w) : Row("(via<" \o Q("Src", s) \o ">(src_s(), [](auto&& x) -> Trk { " \o b \o " }))", Code(Transfer(Start(7), s)))
\* several arguments: each in its own category
Two(w) == { WT(w) \o " w(FW(x), FW(y)); return out(w);", WT(w) \o " w{FW(x), FW(y)}; return out(w);", OW(w) \o " o(std::in_place, FW(x), FW(y)); return out(o);",
            OW(w) \o " o; o.emplace(FW(x), FW(y)); return out(o);" }
FromTwo == \A w \in Ws, s \in Cats, t \in Cats : \A b \in Two(w) :
  Row("(via2<" \o Q("Src", s) \o ", " \o Q("Src2", t) \o ">([](auto&& x, auto&& y) -> Trk { " \o b \o " }))",
      1000 * (B(~Moves(t)) + 10 * B(~Moves(s))) + 100 * B(Moves(s)) + 200 * B(Moves(t)) + 10)
\* between wrappers, and out of them
Same(w) == { WT(w) \o " w(FW(x)); return out(w);", WT(w) \o " w = FW(x); return out(w);", WT(w) \o " w; w = FW(x); return out(w);", OW(w) \o " o{FW(x)}; return out(o);",
             OW(w) \o " o; o = FW(x); return out(o);", OW(w) \o " o(std::in_place, Trk(1)); o = FW(x); return out(o);", 
             "Trk t = FW(x); return t;", "Trk t; t = static_cast<" \o "TQ>(FW(x)); return t;", "auto f = [](Trk t) { return t; }; return f(FW(x));" }
OutOf(w) == { "Trk t = *FW(x); return t;", "Trk t = FW(x).get(); return t;", "Trk t = FW(x).value_or_throw(); return t;", WT(w) \o " v = *FW(x); return out(v);",
              "auto m = FW(x).map([](auto&& v) -> Trk { Trk t = FW(v); return t; }); return std::move(*m);" }
FromWrapped == \A w \in Ws, s \in Cats :
  /\ \A b \in Same(w) : Row("(via<" \o Q(WT(w), s) \o ">(src_w<" \o WT(w) \o ">(), [](auto&& x) -> Trk { using TQ = " \o Q("Trk", s) \o "; " \o b \o " }))", Code(Transfer(Start(6), s)))
  /\ \A b \in OutOf(w) : Row("(via<" \o Q(OW(w), s) \o ">(src_o<" \o WT(w) \o ">(), [](auto&& x) -> Trk { " \o b \o " }))", Code(Transfer(Start(6), s)))

\* references reach into the wrapper, in its category
Binds(s, t) == (s.c => t.c) /\ (s.r = t.r)
Facts == \A w \in Ws :
  /\ \A s \in Cats, t \in Cats : (t.r = "r" \/ ~t.c) =>
       Row("std::is_convertible_v<" \o Q(WT(w), s) \o ", " \o Q("Trk", t) \o ">", B(Binds(s, t)))
  /\ \A t \in {"Trk&", "const Trk&"} : Row("([] { " \o WT(w) \o " x(Trk(4)); " \o t \o " a = x; " \o t \o " b = x; x = Trk(8); return &a == &b && a.v == 8; }())", 1)
  /\ Row("std::is_nothrow_default_constructible_v<" \o WT(w) \o ">", B(TRUE))
  /\ \A t \in {"Trk", "Src"}, s \in Cats : Row("std::is_nothrow_constructible_v<" \o WT(w) \o ", " \o Q(t, s) \o ">", B(Moves(s)))
  /\ \A s \in Cats, u \in Cats : Row("std::is_nothrow_constructible_v<" \o WT(w) \o ", " \o Q("Src", s) \o ", " \o Q("Src2", u) \o ">", B(Moves(s) /\ Moves(u)))
  /\ \A s \in Cats : /\ Row("std::is_nothrow_constructible_v<" \o WT(w) \o ", " \o Q(WT(w), s) \o ">", B(Moves(s)))
                     /\ Row("std::is_convertible_v<" \o Q("Trk", s) \o ", " \o WT(w) \o ">", 1)
                     /\ Row("std::is_convertible_v<" \o Q("Src", s) \o ", " \o WT(w) \o ">", 0)
                     /\ Row("std::is_constructible_v<" \o WT(w) \o ", " \o Q("Other", s) \o ">", 0)
  /\ Row("std::is_constructible_v<" \o WT(w) \o ", Src, Other>", 0)
  /\ Row("int(opt::option_traits<" \o WT(w) \o ">::max_level)", IF w = 2 THEN 254 ELSE 2)

ASSUME FromValues /\ FromTwo /\ FromWrapped /\ Facts

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
