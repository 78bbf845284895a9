----------------------------- MODULE Categories -----------------------------
(***************************************************************************)
(* The types of all accesses: a calculus of constness and reference kinds. *)
(* A type is a base with a constness and a reference kind ("" none, "l" &, *)
(* "r" &&); an expression of an option has a constness and is an lvalue or *)
(* rvalue.  Every operation maps these to the type of its result or of the *)
(* argument of its callback.  TLC checks the laws and prints, for every    *)
(* combination, the C++ question "is the type of E exactly R?".            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ty(b, c, r) == [b |-> b, c |-> c, r |-> r]
Collapse(r1, r2) == IF r1 = "" THEN r2 ELSE IF r2 = "" THEN r1 ELSE IF r1 = "r" /\ r2 = "r" THEN "r" ELSE "l"
\* const applied to a reference does nothing
AddConst(t, c) == IF t.r = "" THEN [t EXCEPT !.c = t.c \/ c] ELSE t
AddRef(t, r) == [t EXCEPT !.r = Collapse(t.r, r)]
NoRef(t) == [t EXCEPT !.r = ""]
NoCv(t) == IF t.r = "" THEN [t EXCEPT !.c = FALSE] ELSE t
NoCvref(t) == NoCv(NoRef(t))
WithRef(t, r) == [t EXCEPT !.r = r]

Name(t) == t.b \o (IF t.c THEN " const" ELSE "") \o (CASE t.r = "" -> "" [] t.r = "l" -> "&" [] t.r = "r" -> "&&")
OptN(n) == "opt::option<" \o n \o ">"
OptOf(t) == OptN(Name(t))

Cats == {[c |-> c, r |-> r] : c \in BOOLEAN, r \in {"l", "r"}}
\* an expression of type x in category s
Expr(x, s) == "dv<" \o x \o (IF s.c THEN " const" ELSE "") \o (IF s.r = "l" THEN "&" ELSE "&&") \o ">()"

\* the type of the contained object through an option expression of category s
Deref(t, s) == AddRef(AddConst(t, s.c), s.r)
\* ... when the option is used as an lvalue whatever it is
DerefL(t, s) == Deref(t, [s EXCEPT !.r = "l"])

Bases == {"int", "std::string", "MO", "opt::option<int>", "short*"}
Copyable == {"int", "std::string", "opt::option<int>"}
Types == {Ty(b, c, r) : b \in Bases, c \in BOOLEAN, r \in {"", "l", "r"}}

(* -------------------------------------------------------------- laws *)
ASSUME \A t \in Types, s \in Cats :
  LET d == Deref(t, s) IN
  /\ d.r # ""                                                         \* access never copies
  /\ (t.c => d.c) /\ (s.c /\ t.r = "" => d.c) /\ (d.c => t.c \/ s.c)   \* const is neither lost nor invented
  /\ (t.r # "" => d.c = t.c)                                          \* an option of a reference is shallow
  /\ (d.r = "r" <=> s.r = "r" /\ t.r # "l")                           \* nothing is offered for moving unless the option is and the reference allows it
  /\ AddRef(d, "l").r = "l" /\ AddRef(d, "r") = d
ASSUME \A a, b, c \in {"", "l", "r"} : Collapse(a, Collapse(b, c)) = Collapse(Collapse(a, b), c) /\ Collapse(a, "") = a

(* ------------------------------------------------- nesting and composites *)
\* options in options: what flatten yields; n is the element below d options, x the type of the outermost contained object
RECURSIVE FlatRes(_, _)
\* t is a chain <<outermost value type, ..., element type>>, s the category the chain is accessed in
FlatRes(ch, s) ==
  LET t == ch[1] IN
  IF Len(ch) = 1
    THEN IF s.r = "l" THEN (IF t.r = "r" THEN t ELSE DerefL(t, s)) ELSE t
    ELSE LET d == Deref(t, s) IN FlatRes(Tail(ch), [c |-> d.c, r |-> d.r])
\* the chain of types for an element under option layers with qualifiers qs
RECURSIVE Chain(_, _)
Chain(e, qs) == IF qs = <<>> THEN <<e>> ELSE LET in == Chain(e, Tail(qs)) IN <<Ty(OptOf(in[1]), Head(qs).c, Head(qs).r)>> \o in
\* no result refers into a temporary: a reference comes from a reference or an lvalue
\* only options proper are flattened, not const options or references to options
Plain == [c |-> FALSE, r |-> ""]
Chains == {Chain(e, qs) : e \in {x \in Types : x.b # "opt::option<int>"}, qs \in {<<>>, <<Plain>>, <<Plain, Plain>>, <<Plain, Plain, Plain>>}}
ASSUME \A ch \in Chains, s \in Cats :
  LET x == FlatRes(ch, s) IN
  /\ (x.r # "" => s.r = "l" \/ \E i \in 1..Len(ch) : ch[i].r # "")
  /\ (ch[Len(ch)].c => x.c)

\* std::get of an element e of an object of type x
Elem(e, x) == AddRef(AddConst(e, x.c), x.r)
\* opt::get, opt::at: the reference kind of the first argument
Refd(e, s) == WithRef(e, s.r)

(* -------------------------------------------------------------- rows *)
Is(e, n) == PrintT("ROW " \o ToJson([q |-> "is<decltype(" \o e \o "), " \o n \o ">", r |-> 1]))
Yes(q) == PrintT("ROW " \o ToJson([q |-> q, r |-> 1]))

AccessRows == \A t \in Types, s \in Cats :
  LET o == Expr(OptOf(t), s)
      d == Name(Deref(t, s))
      p == Name(NoRef(DerefL(t, s))) \o "*"
  IN
  /\ \A op \in {"get()", "value()", "value_or_throw()", "get_unchecked()"} : Is(o \o "." \o op, d)
  /\ Is("*" \o o, d)
  /\ Is(o \o ".operator->()", p)
  /\ Is(o \o ".ptr_or_null()", p)
  /\ Is("*" \o o \o ".begin()", Name(DerefL(t, s)))
  /\ Is("*" \o o \o ".end()", Name(DerefL(t, s)))
  /\ Is("&*" \o o \o ".begin()", p)
  /\ Is(o \o ".begin().operator->()", p)
  /\ Is(o \o ".begin()[0]", Name(DerefL(t, s)))
  /\ (t.r = "" => /\ Is(o \o ".value_or(dv<" \o t.b \o ">())", Name(NoCv(t)))
                  /\ Is(o \o ".value_or_construct()", Name(NoCv(t))))
  /\ (t.r = "l" => Is(o \o ".value_or(dv<" \o Name(t) \o ">())", Name(t)))
  /\ Is(o \o ".filter(Yes{})", OptOf(t))
  /\ Is(o \o ".or_else(dv<Ret<" \o OptOf(t) \o ">>())", OptOf(t))
  /\ Is(o \o ".has_value_and(Yes{})", "bool")
  /\ Is(o \o ".has_value()", "bool")
  /\ Is(o \o ".inspect(Yes{})", OptOf(t) \o (IF s.c THEN " const&" ELSE "&"))
  /\ (~s.c => /\ Is(o \o ".take()", OptOf(t))
              /\ Is(o \o ".take_if(Yes{})", OptOf(t))
              /\ Is(o \o ".emplace()", Name(DerefL(t, s)))
              /\ Is(o \o ".try_emplace()", Name(DerefL(t, s)))
              /\ Is(o \o ".reset()", "void"))
  /\ (~s.c /\ s.r = "l" => /\ Is(o \o " = opt::none", OptOf(t) \o "&")
                           /\ ((t.r = "" => ~t.c) => Is(o \o " = dv<" \o OptOf(t) \o ">()", OptOf(t) \o "&"))
                           /\ Is(o \o " |= " \o o, OptOf(t) \o "&"))

\* a reference to an option cannot be made an option of (a reference to) it by its value: constructors from options convert
Makes == {t \in Types : t.b # "opt::option<int>" \/ t.r = ""}
\* what callbacks are given
CallRows == \A t \in Types, s \in Cats :
  LET o == Expr(OptOf(t), s)
      d == Name(Deref(t, s))
      id == "id<" \o d \o ">"
  IN
  /\ Is(o \o ".map(ArgId{})", OptN(id))
  /\ Is(o \o ".and_then(ArgOpt{})", OptN(id))
  /\ Is(o \o ".map_or_else(dv<Ret<" \o id \o ">>(), ArgId{})", id)
  /\ Is("opt::zip_with(ArgId{}, " \o o \o ")", OptN(id))
  /\ (t.b \in Copyable /\ t \in Makes =>
        /\ Yes("cb_has_value_and<" \o OptOf(t) \o ", " \o t.b \o ", " \o Name(Ty("O", s.c, s.r)) \o ", " \o d \o ">()")
        /\ Yes("cb_inspect<" \o OptOf(t) \o ", " \o t.b \o ", " \o Name(Ty("O", s.c, s.r)) \o ", " \o d \o ">()")
        /\ Yes("cb_map_or<" \o OptOf(t) \o ", " \o t.b \o ", " \o Name(Ty("O", s.c, s.r)) \o ", " \o d \o ">()")
        /\ (t.r # "r" \/ s.r = "r" => Yes("cb_filter<" \o OptOf(t) \o ", " \o t.b \o ", " \o Name(Ty("O", s.c, s.r)) \o ", " \o Name(DerefL(t, s)) \o ">()"))
        /\ (~s.c => Yes("cb_take_if<" \o OptOf(t) \o ", " \o t.b \o ", " \o Name(Ty("O", s.c, s.r)) \o ", " \o Name(DerefL(t, s)) \o ">()")))

\* results of callbacks; const on a result that is no object of a class is dropped by the language
Scalar(t) == t.b \in {"int", "short*"}
Prvalue(t) == IF t.r = "" /\ Scalar(t) THEN NoCv(t) ELSE t
ResultRows == \A t \in Makes, s \in Cats :
  LET o == Expr("opt::option<long>", s)
      f == "dv<Ret<" \o Name(t) \o ">>()"
  IN
  /\ Is(o \o ".map(" \o f \o ")", OptOf(NoCv(t)))
  /\ ((t.b = "MO" /\ t.r = "" => ~t.c) => Is("opt::zip_with(" \o f \o ", " \o o \o ")", OptOf(Prvalue(t))))
  /\ (t.r = "" /\ ~t.c => /\ Is(o \o ".map_or_else(" \o f \o ", " \o f \o ")", Name(NoCvref(t)))
                          /\ Is(o \o ".map_or(dv<" \o Name(t) \o ">(), " \o f \o ")", Name(NoCvref(t))))
  /\ (t.b \in Copyable => /\ Is(o \o ".map_or(dv<" \o Name(t) \o ">(), dv<Ret<" \o t.b \o ">>())", Name(NoCvref(t)))
                          /\ Is(o \o ".map_or_else(" \o f \o ", " \o f \o ")", Name(NoCvref(t))))
  /\ Is(o \o ".and_then(dv<Ret<" \o OptOf(t) \o ">>())", OptOf(t))
VoidRow == \A s \in Cats : Is("opt::zip_with(dv<Ret<void>>(), " \o Expr("opt::option<long>", s) \o ")", "void")

\* two options
PairTypes == {t \in Types : t.b \in {"int", "std::string"}}
ZipRows ==
  /\ \A t \in Types, s \in Cats : Is("opt::zip(" \o Expr(OptOf(t), s) \o ")", OptN("std::tuple<" \o Name(t) \o ">"))
  /\ \A t \in PairTypes, u \in {x \in PairTypes : x.c = (x.r = "l")}, s \in Cats, v \in Cats :
       LET a == Expr(OptOf(t), s)
           b == Expr(OptOf(u), v) IN
       /\ Is("opt::zip(" \o a \o ", " \o b \o ")", OptN("std::tuple<" \o Name(t) \o ", " \o Name(u) \o ">"))
       /\ Is("opt::zip_with(ArgId{}, " \o a \o ", " \o b \o ")", OptN("id<" \o Name(Deref(t, s)) \o ", " \o Name(Deref(u, v)) \o ">"))
       /\ Is(a \o " & " \o b, OptOf(u))
  /\ \A t \in Types, s \in Cats, v \in Cats :
       LET a == Expr(OptOf(t), s)
           b == Expr(OptOf(t), v) IN
       /\ Is(a \o " | " \o b, OptOf(t))
       /\ Is(a \o " ^ " \o b, OptOf(t))
       /\ Is(a \o " & " \o b, OptOf(t))
  /\ \A t \in {x \in Types : x.b \in {"int", "std::string", "short*"}}, s \in Cats : Is(Expr(OptOf(t), s) \o " | dv<" \o Name(IF t.r = "r" THEN t ELSE AddRef(t, "l")) \o ">()", Name(NoCv(t)))
  /\ Is("opt::zip()", "opt::option<std::tuple<>>")

\* a value is made from the element: it has to be possible
FlatMakes(ch, s) == LET x == FlatRes(ch, s) IN x.r # "" \/ x.b # "MO" \/ ~(s.c \/ x.c)
FlatRows == \A ch \in Chains, s \in Cats : FlatMakes(ch, s) => Is("opt::flatten(" \o Expr(OptOf(ch[1]), s) \o ")", OptOf(FlatRes(ch, s)))

Comp(k, e, f) ==
  CASE k = "pair" -> "std::pair<" \o Name(e) \o ", " \o Name(f) \o ">"
    [] k = "tuple" -> "std::tuple<" \o Name(e) \o ", " \o Name(f) \o ", char>"
    [] k = "array" -> "std::array<" \o Name(e) \o ", 2>"
Elems == {t \in Types : t.b = "int" \/ (t.b = "MO" /\ t.r # "r")}
Second == Ty("long", FALSE, "")
GetRows == \A k \in {"pair", "tuple", "array"}, e \in Elems, c \in {Ty("", cc, r) : cc \in BOOLEAN, r \in {"", "l", "r"}}, s \in Cats :
  (k = "array" => e.r = "") =>
  LET t == [c EXCEPT !.b = Comp(k, e, Second)]
      o == Expr(OptOf(t), s)
      x == Deref(t, s)
      el == Elem(e, x)
      snd == Elem(IF k = "array" THEN e ELSE Second, x)
      byType == k # "array" /\ e.r = ""
  IN
  /\ Is("opt::get<0>(" \o o \o ")", OptOf(Refd(el, s)))
  /\ Is("opt::get<1>(" \o o \o ")", OptOf(Refd(snd, s)))
  /\ (byType => Is("opt::get<" \o Name(e) \o ">(" \o o \o ")", OptOf(Refd(el, s))))
  /\ (k # "array" => Is("opt::get<long>(" \o o \o ")", OptOf(Refd(snd, s))))
UnzipRows == \A k \in {"pair", "tuple", "array"}, e \in {x \in Elems : x.b = "int" /\ x.r # "r"}, c \in {Ty("", cc, r) : cc \in BOOLEAN, r \in {"", "l"}}, s \in Cats :
  (k = "array" => e.r = "") =>
  LET t == [c EXCEPT !.b = Comp(k, e, Second)] IN
  Is("opt::unzip(" \o Expr(OptOf(t), s) \o ")",
     CASE k = "pair" -> "std::pair<" \o OptOf(e) \o ", opt::option<long>>"
       [] k = "tuple" -> "std::tuple<" \o OptOf(e) \o ", opt::option<long>, opt::option<char>>"
       [] k = "array" -> "std::array<" \o OptOf(e) \o ", 2>")
\* constness of a variant is that of its alternative; references cannot be alternatives
VariantRows == \A b \in {"int", "std::string", "MO"}, ec \in BOOLEAN, s \in Cats :
  LET e == Ty(b, ec, "")
      v == Expr("std::variant<long, " \o Name(e) \o ">", s) IN
  /\ Is("opt::get<1>(" \o v \o ")", OptOf(Refd(AddConst(e, s.c), s)))
  /\ Is("opt::get<0>(" \o v \o ")", OptOf(Refd(Ty("long", s.c, ""), s)))
  /\ Is("opt::get<" \o Name(e) \o ">(" \o v \o ")", OptOf(Refd(AddConst(e, s.c), s)))
ContRows == \A b \in {"int", "std::string", "MO"}, s \in Cats :
  LET at(c, e) == /\ Is("opt::at(" \o Expr(c, s) \o ", 0)", OptOf(Refd(e, s)))
                  /\ Is("opt::at_front(" \o Expr(c, s) \o ")", OptOf(Refd(e, s)))
                  /\ Is("opt::at_back(" \o Expr(c, s) \o ")", OptOf(Refd(e, s)))
      deep == Ty(b, s.c, "")
  IN
  /\ at("std::vector<" \o b \o ">", deep)
  /\ at("std::deque<" \o b \o ">", deep)
  /\ at("std::array<" \o b \o ", 3>", deep)
  /\ at("std::array<" \o b \o " const, 3>", Ty(b, TRUE, ""))
  /\ at("std::string_view", Ty("char", TRUE, ""))
  /\ at("std::string", Ty("char", s.c, ""))
  /\ at("Split<" \o b \o ">", deep)
  /\ (IF s.r = "l" THEN at("Gives<" \o b \o ">", deep)
      ELSE \A f \in {"opt::at(", "opt::at_front(", "opt::at_back("} : Is(f \o Expr("Gives<" \o b \o ">", s) \o (IF f = "opt::at(" THEN ", 0)" ELSE ")"), OptN(b)))
  /\ at("Proxy<" \o b \o ">", Ty(b, FALSE, "l"))
  /\ (s.r = "l" =>
       /\ Is("opt::lookup(" \o Expr("std::map<int, " \o b \o ">", s) \o ", 1)", OptOf(AddRef(deep, "l")))
       /\ Is("opt::lookup(" \o Expr("std::unordered_map<int, " \o b \o ">", s) \o ", 1)", OptOf(AddRef(deep, "l")))
       /\ Is("opt::lookup(" \o Expr("std::map<int, " \o b \o "&>", s) \o ", 1)", OptN(b \o "&"))
       /\ Is("opt::lookup(" \o Expr("std::multimap<int, " \o b \o ">", s) \o ", 1)", OptOf(AddRef(deep, "l")))
       /\ Is("opt::lookup(" \o Expr("std::set<" \o b \o ">", s) \o ", dv<" \o b \o ">())", OptN(b \o " const&")))
ProxyRows == \A s \in Cats :
  /\ Is("opt::at(" \o Expr("std::vector<bool>", s) \o ", 0)", OptN(IF s.c THEN "bool" ELSE "std::vector<bool>::reference"))
  /\ Is("opt::at_front(" \o Expr("std::vector<bool>", s) \o ")", OptN(IF s.c THEN "bool" ELSE "std::vector<bool>::reference"))
  /\ Is("opt::at_back(" \o Expr("std::vector<bool>", s) \o ")", OptN(IF s.c THEN "bool" ELSE "std::vector<bool>::reference"))

(* ---------------------------------------------- making and converting *)
MakeRows == \A t \in Types :
  LET x == "dv<" \o Name(t) \o ">()"
      base == NoCvref(t)
      isOpt == t.b = "opt::option<int>"
  IN
  /\ Is("opt::make_option(" \o x \o ")", OptOf(base))
  /\ (t \in Makes => Is("opt::make_option<" \o Name(t) \o ">(" \o x \o ")", OptOf(t)))
  /\ (~isOpt /\ (t.b = "MO" => ~t.c /\ t.r # "l") => Is("opt::option(" \o x \o ")", OptOf(base)))
  /\ (isOpt => Is("opt::option(" \o x \o ")", t.b))
  /\ (t.r # "r" => Is("opt::from_nullable(dv<" \o Name(NoRef(t)) \o "*>())", OptOf(AddRef(t, "l"))))
  /\ \A s \in Cats : /\ Is("opt::option_cast<long>(" \o Expr("opt::option<int>", s) \o ")", "opt::option<long>")
                     /\ (t.r = "" => Is("opt::option_cast<" \o t.b \o ">(" \o Expr(OptOf(t), s) \o ")", OptN(t.b)))
  /\ Yes("std::is_same_v<" \o OptOf(t) \o "::value_type, " \o Name(t) \o ">")
  /\ \A s \in Cats :
      /\ Yes("opt::is_option_v<" \o OptOf(t) \o ">")
      /\ Yes("opt::is_option_v<" \o t.b \o "> == " \o (IF isOpt THEN "1" ELSE "0"))
      /\ Is(Expr(OptOf(t), s) \o ".begin()", OptOf(t) \o "::" \o (IF s.c THEN "const_iterator" ELSE "iterator"))
ArrayRows ==
  /\ Is("opt::make_option(dv<char const(&)[4]>())", "opt::option<char const*>")
  /\ Is("opt::option(dv<char const(&)[4]>())", "opt::option<char const*>")
  /\ Is("opt::make_option(dv<int(&)(int)>())", "opt::option<int(*)(int)>")
  /\ Is("opt::as_option(dv<double const&>())", "opt::option<double>")
  /\ Is("opt::as_option(dv<bool>())", "opt::option<bool>")

ASSUME AccessRows /\ CallRows /\ ResultRows /\ VoidRow /\ ZipRows /\ FlatRows /\ GetRows /\ UnzipRows /\ VariantRows /\ ContRows /\ ProxyRows /\ MakeRows /\ ArrayRows
=============================================================================
