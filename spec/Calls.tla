------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Callables: what a call INVOKE(f, x) is for member pointers, and in what  *)
(* category callables are used.  A subject is what an option contains: an  *)
(* object (or a reference to one, or one of a derived class), something    *)
(* that points to an object, or a reference_wrapper.  The object is        *)
(* reached through it with a constness and a category; member functions    *)
(* are callable by their qualifiers, data members get the category.  TLC   *)
(* proves the laws and prints every call as a row with its outcome.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Cats == {[c |-> c, r |-> r] : c \in BOOLEAN, r \in {"l", "r"}}
CatN(s) == (IF s.c THEN "const O" ELSE "O") \o (IF s.r = "l" THEN "&" ELSE "&&")
Collapse(r1, r2) == IF r1 = "" THEN r2 ELSE IF r1 = "r" /\ r2 = "r" THEN "r" ELSE "l"

\* n, how the object is reached, constness and reference kind of what the option contains, constness behind it, derived, copyable
Sub(n, how, c, r, pc, d, cp) == [n |-> n, how |-> how, c |-> c, r |-> r, pc |-> pc, d |-> d, cp |-> cp]
Subs == { Sub(0, "obj", FALSE, "", FALSE, FALSE, TRUE), Sub(1, "obj", TRUE, "", FALSE, FALSE, TRUE), Sub(2, "obj", FALSE, "l", FALSE, FALSE, TRUE),
          Sub(3, "obj", TRUE, "l", FALSE, FALSE, TRUE), Sub(4, "obj", FALSE, "r", FALSE, FALSE, TRUE), Sub(5, "obj", FALSE, "", FALSE, TRUE, TRUE),
          Sub(6, "obj", FALSE, "l", FALSE, TRUE, TRUE), Sub(7, "ptr", FALSE, "", FALSE, FALSE, TRUE), Sub(8, "ptr", FALSE, "", TRUE, FALSE, TRUE),
          Sub(9, "ptr", FALSE, "", FALSE, TRUE, TRUE), Sub(10, "ptr", FALSE, "", FALSE, FALSE, FALSE), Sub(11, "ptr", FALSE, "", FALSE, FALSE, TRUE),
          Sub(12, "own", FALSE, "", FALSE, FALSE, TRUE), Sub(13, "own", FALSE, "", FALSE, FALSE, TRUE), Sub(14, "wrap", FALSE, "", FALSE, FALSE, TRUE),
          Sub(15, "wrap", FALSE, "", TRUE, FALSE, TRUE), Sub(16, "wrap", FALSE, "", FALSE, TRUE, TRUE), Sub(17, "ptr", TRUE, "", FALSE, FALSE, TRUE),
          Sub(18, "ptr", FALSE, "", TRUE, FALSE, FALSE), Sub(19, "obj", TRUE, "", FALSE, TRUE, TRUE), Sub(20, "obj", TRUE, "r", FALSE, FALSE, TRUE),
          Sub(21, "ptr", FALSE, "l", FALSE, TRUE, TRUE), Sub(22, "wrap", FALSE, "l", FALSE, FALSE, TRUE), Sub(23, "own", TRUE, "", FALSE, FALSE, TRUE) }

\* the contained thing in an option of category s
Thing(x, s) == [c |-> IF x.r = "" THEN x.c \/ s.c ELSE x.c, r |-> Collapse(x.r, s.r)]
\* the object behind a thing of category y
Behind(x, y) == IF x.how \in {"obj", "own"} THEN y ELSE [c |-> x.pc, r |-> "l"]
Obj(x, s) == Behind(x, Thing(x, s))
AsL(s) == [s EXCEPT !.r = "l"]

Quals == 0..8
Const(q) == q \in {1, 3, 5, 7}
RefQ(q) == IF q \in {2, 3} THEN "l" ELSE IF q \in {4, 5, 8} THEN "r" ELSE ""
\* (a const& function may not be called on an rvalue through a member pointer before C++20: not asked)
Callable(q, y) == (y.c => Const(q)) /\ (RefQ(q) # "" => RefQ(q) = y.r)

ASSUME \A x \in Subs, s \in Cats :
  /\ Obj(x, s) \in Cats
  /\ \E q \in Quals : Callable(q, Obj(x, s))
  /\ (Obj(x, s).r = "r" => s.r = "r" /\ x.how \in {"obj", "own"} /\ x.r # "l")        \* nothing is moved from behind a pointer or a reference
  /\ (x.how \in {"ptr", "wrap"} => \A u \in Cats : Obj(x, s) = Obj(x, u))             \* constness of pointers is shallow
  /\ \A q \in Quals : Callable(q, [Obj(x, s) EXCEPT !.c = TRUE]) => Callable(q, Obj(x, s))

Row(q) == PrintT("ROW " \o ToJson([q |-> q, r |-> 1]))
With(x, s, body) == Row("(with<" \o ToString(x.n) \o ", " \o CatN(s) \o ">([](auto&& o, Hm& h) -> int { (void) h; " \o body \o " }))")
Without(x, s, body) == Row("(without<" \o ToString(x.n) \o ", " \o CatN(s) \o ">([](auto&& o) -> int { " \o body \o " }))")
Ref(b, bc, y) == b \o (IF bc \/ y.c THEN " const" ELSE "") \o (IF y.r = "l" THEN "&" ELSE "&&")
Opt(n) == "opt::option<" \o n \o ">"
Tells(q) == "ran == 1" \o ToString(q) \o " && runs == 1"
F(k, q) == "&Hm::" \o k \o ToString(q)
\* filter keeps a copy of lvalues; it hands out lvalues
Filters(x, s) == (s.r = "r" /\ ~s.c /\ x.n # 23) \/ (x.cp /\ x.r # "r" /\ x.n # 23)

DataRows == \A x \in Subs, s \in Cats :
  LET y == Obj(x, s) IN
  /\ \A m \in {<<"m", "int", FALSE>>, <<"cm", "int", TRUE>>, <<"s", "std::string", FALSE>>} :
       LET ty == Ref(m[2], m[3], y)
           p == "&Hm::" \o m[1] IN
       /\ With(x, s, "auto r = FW(o).map(" \o p \o "); return is<decltype(r), " \o Opt(ty) \o "> && r.has_value() && &*r == &h." \o m[1] \o ";")
       /\ With(x, s, "auto r = opt::zip_with(" \o p \o ", FW(o)); return is<decltype(r), " \o Opt(ty) \o "> && r.has_value() && &*r == &h." \o m[1] \o ";")
       /\ Without(x, s, "auto r = FW(o).map(" \o p \o "); return is<decltype(r), " \o Opt(ty) \o "> && !r;")
       /\ With(x, s, "decltype(auto) r = FW(o).map_or(" \o m[2] \o "(), " \o p \o "); return is<decltype(r), " \o m[2] \o "> && r == " \o (IF m[1] = "m" THEN "5" ELSE IF m[1] = "cm" THEN "6" ELSE "\"s\"") \o ";")
       /\ With(x, s, "decltype(auto) r = FW(o).map_or_else(Ret<" \o ty \o ">{}, " \o p \o "); return is<decltype(r), " \o m[2] \o "> && r == " \o (IF m[1] = "m" THEN "5" ELSE IF m[1] = "cm" THEN "6" ELSE "\"s\"") \o ";")
  /\ With(x, s, "return FW(o).has_value_and(&Hm::t) && !FW(o).has_value_and(&Hm::f);")
  /\ With(x, s, "auto& r = FW(o).inspect(&Hm::m); return &r == &o;")
  /\ With(x, s, "auto r = FW(o).and_then(&Hm::o); auto q = FW(o).and_then(&Hm::e); return is<decltype(r), OI> && r.has_value() && !q;")
  /\ (Filters(x, s) => With(x, s, "auto q = FW(o).filter(&Hm::f); return !q;") /\ With(x, s, "auto q = FW(o).filter(&Hm::t); return q.has_value();"))
  /\ (~s.c => /\ With(x, s, "auto q = FW(o).take_if(&Hm::f); return !q && o.has_value();")
              /\ (x.n \notin {1, 17, 19, 23} => With(x, s, "auto q = FW(o).take_if(&Hm::t); return q.has_value() && !o.has_value();")))

FunRows == \A x \in Subs, s \in Cats, q \in Quals :
  LET y == Obj(x, s)
      z == Behind(x, AsL(Thing(x, s)))
      v == "5 + " \o ToString(q)
      t == Tells(q)
  IN
  /\ (Callable(q, y) =>
       /\ With(x, s, "auto r = FW(o).map(" \o F("i", q) \o "); return is<decltype(r), OI> && *r == " \o v \o " && " \o t \o ";")
       /\ With(x, s, "auto r = FW(o).map(" \o F("s", q) \o "); return is<decltype(r), opt::option<Hm&>> && &*r == &h && " \o t \o ";")
       /\ With(x, s, "auto r = FW(o).and_then(" \o F("o", q) \o "); return is<decltype(r), OI> && *r == " \o v \o " && " \o t \o ";")
       /\ With(x, s, "auto r = FW(o).and_then(" \o F("e", q) \o "); return is<decltype(r), OI> && !r && " \o t \o ";")
       /\ With(x, s, "auto r = FW(o).map_or(1, " \o F("i", q) \o "); return r == " \o v \o " && " \o t \o ";")
       /\ With(x, s, "auto r = FW(o).map_or_else(fn_zero, " \o F("i", q) \o "); return r == " \o v \o " && " \o t \o ";")
       /\ With(x, s, "return FW(o).has_value_and(" \o F("t", q) \o ") && " \o t \o ";")
       /\ With(x, s, "return !FW(o).has_value_and(" \o F("f", q) \o ") && " \o t \o ";")
       /\ With(x, s, "auto& r = FW(o).inspect(" \o F("n", q) \o "); return &r == &o && " \o t \o ";")
       /\ With(x, s, "auto r = opt::zip_with(" \o F("i", q) \o ", FW(o)); return is<decltype(r), OI> && *r == " \o v \o " && " \o t \o ";")
       /\ With(x, s, "opt::zip_with(" \o F("n", q) \o ", FW(o)); return " \o t \o ";")
       \* further arguments: by value (copied from an lvalue, moved from an rvalue), references
       /\ With(x, s, "opt::option<Arg> a{std::in_place, 3}; auto r = opt::zip_with(" \o F("a", q) \o ", FW(o), a); return *r == 100 + " \o ToString(q) \o " && a->v == 3 && " \o t \o ";")
       /\ With(x, s, "opt::option<Arg> a{std::in_place, 3}; auto r = opt::zip_with(" \o F("a", q) \o ", FW(o), static_cast<opt::option<Arg>&&>(a)); return *r == 10 + " \o ToString(q) \o " && a->v == -1 && " \o t \o ";")
       /\ With(x, s, "opt::option<Arg> a{std::in_place, 3}; auto r = opt::zip_with(" \o F("z", q) \o ", FW(o), static_cast<opt::option<Arg>&&>(a)); return *r == " \o ToString(q) \o " && a->v == 3 && " \o t \o ";")
       /\ With(x, s, "opt::option<Arg> a{std::in_place, 3}; const opt::option<Arg> b{std::in_place, 4}; auto r = opt::zip_with(" \o F("r", q) \o ", FW(o), a, b); return *r == 4 && a->v == 40 && " \o t \o ";")
       /\ With(x, s, "opt::option<Arg> a; auto r = opt::zip_with(" \o F("a", q) \o ", FW(o), a); return !r && runs == 0;")
       /\ Without(x, s, "auto r = FW(o).map(" \o F("i", q) \o "); return is<decltype(r), OI> && !r && runs == 0;")
       /\ Without(x, s, "return FW(o).map_or(1, " \o F("i", q) \o ") == 1 && runs == 0 && FW(o).map_or_else(fn_zero, " \o F("i", q) \o ") == 25 && !FW(o).has_value_and(" \o F("t", q) \o ") && !FW(o).and_then(" \o F("o", q) \o ") && !opt::zip_with(" \o F("i", q) \o ", FW(o)) && runs == 1;"))
  /\ (Callable(q, z) /\ Filters(x, s) => With(x, s, "auto r = FW(o).filter(" \o F("f", q) \o "); return !r && " \o t \o ";") /\ With(x, s, "auto r = FW(o).filter(" \o F("t", q) \o "); return r.has_value() && " \o t \o ";"))
  /\ (Callable(q, z) /\ ~s.c =>
       /\ With(x, s, "auto r = FW(o).take_if(" \o F("f", q) \o "); return !r && o.has_value() && " \o t \o ";")
       /\ (x.n \notin {1, 17, 19, 23} => With(x, s, "auto r = FW(o).take_if(" \o F("t", q) \o "); return r.has_value() && !o.has_value() && " \o t \o ";")))
\* virtual functions are those of the object
VirtualRows == \A x \in Subs, s \in Cats :
  With(x, s, "return FW(o).map(&Hm::v) == OI{" \o (IF x.d THEN "61" ELSE "60") \o "} && runs == 1;")

(* ------------------------------------------- the category of the callable *)
K(u) == ToString((IF u.c THEN 2 ELSE 1) + (IF u.r = "r" THEN 2 ELSE 0))
Fo(res, u, x, s, body) == Row("(with<" \o ToString(x) \o ", " \o CatN(s) \o ">([](auto&& o, Hm&) -> int { return fo<" \o res \o ", " \o CatN(u) \o ">([&](auto&& f) -> int { " \o body \o " && ran == " \o K(u) \o " && runs == 1; }); }))")
Fw(res, u, x, s, body) == Row("(without<" \o ToString(x) \o ", " \o CatN(s) \o ">([](auto&& o) -> int { return fo<" \o res \o ", " \o CatN(u) \o ">([&](auto&& f) -> int { " \o body \o " && ran == " \o K(u) \o " && runs == 1; }); }))")
FoRows == \A s \in Cats, u \in Cats, x \in {0, 1, 2, 4, 7, 10, 13} :
  LET sub == CHOOSE y \in Subs : y.n = x IN
  /\ Fo("int", u, x, s, "auto r = FW(o).map(FW(f)); return r == OI{0}")
  /\ Fo("int", u, x, s, "auto r = FW(o).map_or(3, FW(f)); return r == 0")
  /\ Fo("int", u, x, s, "auto r = FW(o).map_or_else(fn_zero, FW(f)); return r == 0")
  /\ Fo("OI", u, x, s, "auto r = FW(o).and_then(FW(f)); return r == OI{0}")
  /\ Fo("bool", u, x, s, "return FW(o).has_value_and(FW(f))")
  /\ Fo("bool", u, x, s, "return &FW(o).inspect(FW(f)) == &o")
  /\ Fo("int", u, x, s, "auto r = opt::zip_with(FW(f), FW(o)); return r == OI{0}")
  /\ Fo("int", u, x, s, "OI a{1}; auto r = opt::zip_with(FW(f), FW(o), a, OI{2}); return r == OI{0}")
  /\ (Filters(sub, s) => Fo("bool", u, x, s, "return FW(o).filter(FW(f)).has_value()"))
  /\ (~s.c /\ x # 1 => Fo("bool", u, x, s, "return FW(o).take_if(FW(f)).has_value() && !o.has_value()"))
  /\ Fw("int", u, x, s, "auto r = FW(o).map_or_else(FW(f), One{}); return r == 0")
  /\ (x \in {0, 2, 7} \/ (s.r = "r" /\ ~s.c) => x \in {1, 10} \/ Fw("opt::option<typename Sub<" \o ToString(x) \o ">::type>", u, x, s, "auto r = FW(o).or_else(FW(f)); return is<decltype(r), opt::option<typename Sub<" \o ToString(x) \o ">::type>>"))

\* callables that can be used in one category only (or give another type in another)
Only(u, x, s, body) == Row("(with<" \o ToString(x) \o ", " \o CatN(s) \o ">([](auto&& o, Hm&) -> int { return only<" \o CatN(u) \o ">([&](auto&& f) -> int { " \o body \o " && ran == " \o K(u) \o " && runs == 1; }); }))")
OnlyRows == \A s \in Cats, u \in Cats, x \in {0, 1, 2, 4, 7, 10, 13} :
  LET sub == CHOOSE y \in Subs : y.n = x
      t == "Told<" \o K(u) \o ">" IN
  /\ Only(u, x, s, "auto r = FW(o).map(FW(f)); return is<decltype(r), opt::option<" \o t \o ">>")
  /\ Only(u, x, s, "auto r = FW(o).map_or(" \o t \o "{}, FW(f)); return is<decltype(r), " \o t \o ">")
  /\ Only(u, x, s, "auto r = FW(o).map_or_else([] { return " \o t \o "{}; }, FW(f)); return is<decltype(r), " \o t \o ">")
  /\ Row("(with<" \o ToString(x) \o ", " \o CatN(s) \o ">([](auto&& o, Hm&) -> int { return onlyo<" \o CatN(u) \o ">([&](auto&& f) -> int { auto r = FW(o).and_then(FW(f)); return is<decltype(r), opt::option<" \o t \o ">> && ran == " \o K(u) \o " && runs == 1; }); }))")
  /\ Only(u, x, s, "return FW(o).has_value_and(FW(f))")
  /\ Only(u, x, s, "return &FW(o).inspect(FW(f)) == &o")
  /\ Only(u, x, s, "auto r = opt::zip_with(FW(f), FW(o)); return is<decltype(r), opt::option<" \o t \o ">>")
  /\ (Filters(sub, s) => Only(u, x, s, "return FW(o).filter(FW(f)).has_value()"))
  /\ (~s.c /\ x # 1 => Only(u, x, s, "return FW(o).take_if(FW(f)).has_value() && !o.has_value()"))
  /\ Row("(without<" \o ToString(x) \o ", " \o CatN(s) \o ">([](auto&& o) -> int { return only<" \o CatN(u) \o ">([&](auto&& f) -> int { auto r = FW(o).map_or_else(FW(f), One2<" \o t \o ">{}); return is<decltype(r), " \o t \o "> && ran == " \o K(u) \o " && runs == 1; }); }))")

(* -------------------------------------------------- other callables *)
FnRows == \A s \in Cats :
  /\ \A f \in {<<"fn_int", 23>>, <<"*fn_int", 23>>, <<"&fn_int", 23>>, <<"fn_ne", 24>>, <<"&fn_ne", 24>>, <<"std::function<int(const int&)>(fn_int)", 23>>, <<"std::ref(fn_int)", 23>>,
               <<"[](int x) { return note(x + 1); }", 4>>, <<"[&, k = 4](auto&& x) mutable { return note(x + k++); }", 7>>, <<"std::bind(fn_int, std::placeholders::_1)", 23>>} :
       LET r == ToString(f[2]) IN
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).map(" \o f[1] \o ") == OI{" \o r \o "} && ran == " \o r \o " && runs == 1; }))")
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).map_or(1, " \o f[1] \o ") == " \o r \o " && ran == " \o r \o " && runs == 1; }))")
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).map_or_else(fn_zero, " \o f[1] \o ") == " \o r \o " && ran == " \o r \o " && runs == 1; }))")
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { FW(o).inspect(" \o f[1] \o "); return ran == " \o r \o " && runs == 1; }))")
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return opt::zip_with(" \o f[1] \o ", FW(o)) == OI{" \o r \o "} && ran == " \o r \o " && runs == 1; }))")
  /\ \A f \in {"fn_bool", "*fn_bool", "std::function<bool(int)>(fn_bool)"} :
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).has_value_and(" \o f \o ") && ran == 22 && runs == 1; }))")
       /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).filter(" \o f \o ") == OI{3} && ran == 22 && runs == 1; }))")
       /\ (~s.c => Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).take_if(" \o f \o ") == OI{3} && !o && ran == 22 && runs == 1; }))"))
  /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).and_then(fn_opt) == OI{4} && FW(o).and_then(*fn_opt) == OI{4} && runs == 2 && FW(o).or_else(fn_none) == OI{3} && runs == 2; }))")
  /\ Row("(fnwithout<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).or_else(fn_none) == OI{9} && FW(o).or_else(*fn_none) == OI{9} && runs == 2 && FW(o).map_or_else(*fn_zero, fn_int) == 25 && runs == 3; }))")
  \* a callable passed as an lvalue keeps its state
  /\ Row("(fnwith<" \o CatN(s) \o ">([](auto&& o) -> int { auto f = [k = 0](int) mutable { return ++k; }; (void) FW(o).map(f); (void) FW(o).map_or(0, f); FW(o).inspect(f); (void) opt::zip_with(f, FW(o)); return FW(o).map(f) == OI{5}; }))")

(* ------------------------- the same calls as constant expressions *)
CxSubs == {x \in Subs : x.n \in {0, 1, 2, 3, 4, 7, 8, 12, 17, 20}}
Cx(x, s, body) == PrintT("CX " \o ToJson([q |-> "(cx<" \o ToString(x.n) \o ", " \o CatN(s) \o ">([](auto&& o, auto& h) -> int { (void) h; " \o body \o " }))", r |-> 1]))
C(k, q) == "&Hc::" \o k \o ToString(q)
CxRows == \A x \in CxSubs, s \in Cats :
  LET y == Obj(x, s)
      ty == Ref("int", FALSE, y)
      z == Behind(x, AsL(Thing(x, s)))
  IN
  /\ Cx(x, s, "auto r = FW(o).map(&Hc::m); return is<decltype(r), " \o Opt(ty) \o "> && &*r == &h.m;")
  /\ Cx(x, s, "return FW(o).map_or(1, &Hc::m) == 5 && FW(o).map_or_else(Ret<" \o ty \o ">{}, &Hc::m) == 5;")
  /\ Cx(x, s, "auto r = opt::zip_with(&Hc::m, FW(o)); return is<decltype(r), " \o Opt(ty) \o "> && &*r == &h.m;")
  /\ Cx(x, s, "return FW(o).has_value_and(&Hc::t) && !FW(o).has_value_and(&Hc::f) && FW(o).and_then(&Hc::o) == OI{7} && &FW(o).inspect(&Hc::m) == &o;")
  /\ \A q \in Quals :
       /\ (Callable(q, y) =>
            /\ Cx(x, s, "return FW(o).map(" \o C("i", q) \o ") == OI{5 + " \o ToString(q) \o "};")
            /\ Cx(x, s, "return FW(o).and_then(" \o C("o", q) \o ") == OI{5 + " \o ToString(q) \o "};")
            /\ Cx(x, s, "return FW(o).map_or(1, " \o C("i", q) \o ") == 5 + " \o ToString(q) \o " && FW(o).map_or_else([] { return 1; }, " \o C("i", q) \o ") == 5 + " \o ToString(q) \o ";")
            /\ Cx(x, s, "return FW(o).has_value_and(" \o C("t", q) \o ") && &FW(o).inspect(" \o C("i", q) \o ") == &o;")
            /\ Cx(x, s, "return opt::zip_with(" \o C("a", q) \o ", FW(o), OI{3}) == OI{" \o ToString(q) \o " + 3};"))
       /\ (Callable(q, z) /\ Filters(x, s) => Cx(x, s, "return FW(o).filter(" \o C("t", q) \o ").has_value() && !FW(o).filter(" \o C("f", q) \o ");"))
       /\ (Callable(q, z) /\ ~s.c => Cx(x, s, "return !FW(o).take_if(" \o C("f", q) \o ") && o.has_value();"))
CxFns == \A s \in Cats, f \in {"cx_int", "&cx_int", "[](int x) { return x + 1; }", "CxF{}"} :
  PrintT("CX " \o ToJson([q |-> "(cxi<" \o CatN(s) \o ">([](auto&& o) -> int { return FW(o).map(" \o f \o ") == OI{4} && FW(o).map_or(1, " \o f \o ") == 4 && FW(o).map_or_else([] { return 1; }, " \o f \o ") == 4 && opt::zip_with(" \o f \o ", FW(o)) == OI{4} && &FW(o).inspect(" \o f \o ") == &o && FW(o).has_value_and(" \o f \o "); }))", r |-> 1]))

ASSUME DataRows /\ FunRows /\ VirtualRows /\ FoRows /\ OnlyRows /\ FnRows /\ CxRows /\ CxFns
=============================================================================
