import json
H="include/opt/option.hpp"
def P(id,title,statement,over,text,why,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H]+([] if id!="P19" else ["include/opt/option_fwd.hpp"]),mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
ST=[("has_value_flag / level 0","whether the option holds a value: a separate flag, or one reserved representation of T",H+": option_destruct_base"),("value","storage of the contained object",H+": option_destruct_base")]
L=[
P("P01","All observers agree on the content after any history",
"After any sequence of operations on any number of options, every way of looking at an option - has_value, operator bool, comparison with opt::none, ptr_or_null, begin/end and range-for, value()'s throwing, has_value_and, get, operator*, operator->, value, get_unchecked - reports the same content: either empty, or the same one contained object, which lies inside the option, with the same value. An operation applied to one option never changes another one that it was not given, nor bytes outside the option.",
["histories","inputs","programs"],"every reachable content of a pool of options, every public member operation, in every value category, for every payload type (flag-based, in-place, trivially or non-trivially destructible, move-only, immovable, aggregate, nested)",
"The tests look at two or three observers after one or two operations on a handful of payload types; agreement must hold for every type, history and observer at once.",
[("has_value/reset/construct",H+": option_destruct_base (4 specialisations)"),("accessors",H+": class option"),("option_iterator",H)],
["has_value, bool, ==none, ptr_or_null, iteration, accessors after every step"],ST),
P("P02","Contained objects are constructed and destroyed exactly once",
"At every moment exactly one live T exists per engaged option and none for an empty one: no operation constructs over a live object, destroys or reads a dead one, leaks one, or lets storage of an empty option be treated as a T. When all options are destroyed, no T is left alive, and none was destroyed twice.",
["histories","programs"],"every history of construct, assign, emplace, reset, take, swap, move and destroy over a pool of options, for trivial and non-trivial destructors with and without in-place emptiness",
"The lifetime tests follow fixed sequences with one tracked type; balance is a statement about all histories and all combinations of trivial special members and option_traits.",
[("destructor / reset / construct",H+": option_destruct_base"),("copy and move special members",H+": option_base specialisations"),("construct_at",H)],
["object ledger of the contained type, AddressSanitizer/LeakSanitizer"],ST),
P("P03","Copy, move, assign, emplace, swap and take transfer the value faithfully",
"Each construction, assignment, emplace, try_emplace, swap, take and take_if leaves source and destination with exactly the documented content and returns what it documents: copying preserves the source, moving leaves the source engaged with a moved-from value, take leaves it empty, swap exchanges the two contents in every combination of empty and engaged, try_emplace keeps an existing value. An lvalue source is copied and an rvalue source is moved, exactly once, and assignment to an engaged option assigns to the contained object instead of reconstructing it.",
["histories","inputs","programs"],"all combinations of empty, engaged and moved-from source and destination, including self-assignment and self-swap, for every combination of trivial / non-trivial copy and move members",
"The tests assign a few combinations on int, string and one or two user types; there are ten hand-written specialisations selected by the trivial members of T, and most are never executed.",
[("option_assign_from_option / option_construct_from_option",H),("option_base specialisations",H),("swap, take, take_if, emplace, try_emplace",H+": class option")],
["content of both options, result, counted special members of T"],ST),
P("P04","A throwing constructor, assignment or callback leaves options consistent",
"If any operation of T or any callback exits via an exception at any point, the exception propagates unchanged, no object is leaked or destroyed twice, and every option involved is afterwards either empty or holds one live T that all observers agree on. An option that was empty stays empty, an option whose T was being assigned keeps its object, emplace leaves the option empty, and options that are only read are not changed.",
["fault_sequences","histories"],"every operation, from every content, failing at every one of the constructions, assignments or callback runs it performs",
"No test throws from a contained type; the failing point is a choice inside each operation.",
[("construct_with_traits / construct_rollback",H),("has_value_flag set after construct_at",H+": option_destruct_base::construct"),("reset before construct",H+": emplace")],
["content after the exception, ledger"],ST),
P("P05","Every ordinary value is storable and is never mistaken for empty",
"Putting any ordinary value of T into an option gives an engaged option that returns the same value bit for bit, including special values such as NaN, infinities, negative zero, null and dangling-looking pointers, empty strings, views and vectors, extreme integers and every enumerator. Emptying it gives an empty option, and of all bit patterns of T only the reserved ones of the type (for float and double signaling NaNs, or quiet ones with OPTION_USE_QUIET_NAN) denote an empty state.",
["inputs","programs"],"all values of bool, floating point, pointers, member pointers, references, enumerations of every underlying type, strings, string views, vectors, smart pointers, polymorphic and PADDING types, and structures of them",
"Tests store one or two values per type; whether a representation collides with a legal value is a question about all of them.",
[("option_traits get_level/set_level",H+": internal_option_traits"),("enumeration reflection",H+": max_enum_value_impl2")],
["has_value and bytes of the value after storing"],[("level","index of the reserved representation, or a number >= max_level for a real value",H+": option_traits")]),
P("P06","Nested options distinguish every depth of emptiness",
"An option nested to any depth over any payload keeps every depth apart: none, some(none), some(some(none)), ..., and every value are pairwise different contents, each readable back exactly as written, and changing one depth (assign, emplace, reset, take, swap, copy, move) changes nothing at the others. This holds whether the depths are encoded in spare representations of the payload, in spare states of a flag, or in both.",
["programs","histories","inputs"],"payload types with 0, 1, 2, 3, 254..512 spare representations, references and composites, nested up to the number of spare representations, under all operations at each depth",
"Tests nest two or three deep on a few types and look at one or two transitions; the reserved states must not collide for any pair of depths.",
[("level offset of nested options",H+": internal_option_traits<option<T>> (available, unavailable, reference)"),("bool levels of the flag",H+": internal_option_traits<bool>")],
["has_value at each depth after each step"],[("level","depth at which the nested option is empty",H)]),
P("P07","Options of types with spare representations take no extra space",
"For every type for which the library documents spare representations (and any type or wrapper with user traits), sizeof(option<T>) equals sizeof(T) and nesting keeps that size until the documented number of levels is used up; every other option costs at most the flag and its alignment, and further nesting of such an option is free as well. An option of a reference is as large as a pointer.",
["programs","configurations"],"all documented built-in families, their composites and nestings, and user-provided traits",
"Some sizes are asserted for some types; the statement is about every family and depth, and a lost specialisation compiles and behaves correctly otherwise.",
[("max_level of option_traits",H),("option_destruct_base HasTraits selection",H),("enable_copy_move tag",H)],
["sizeof, option_traits<T>::max_level"]),
P("P08","Composites use one member's spare states and leave the others alone",
"An option of a pair, tuple, array, tuple-like, reflectable aggregate or type nested in them is empty exactly when it was emptied, whichever member provides the spare states: it offers as many levels as the member with the most levels, no combination of ordinary member values reads as empty, and storing or changing a value through the option keeps every member exactly. Composites without a suitable member fall back to a flag.",
["programs","inputs","histories"],"all compositions of members with 0, 1, few and many spare states, in every position and order, nested in one another",
"Tests check two or three hand-picked tuples; which member is selected and written depends on all the members and their order.",
[("find_max_level / index_of_max",H),("pair, tuple, array, tuple_like, reflectable traits",H+": internal_option_traits")],
["has_value, members, option_traits<T>::max_level"]),
P("P09","Reference options refer, rebind and never write through",
"An option<T&> or option<T&&> refers to an object chosen by its construction or last assignment: assignment, emplace, swap, take and reset rebind or unbind the option and never change or copy any referred-to object, while writing through any accessor changes exactly the object referred to. Constness of the option does not restrict the object, equality compares the objects' values, and conversions to options of const or base references refer to the same object.",
["histories","programs"],"all histories of rebinding among several options and objects, lvalue, const, base, rvalue references and reference_wrapper arguments",
"Tests rebind once or twice; the assign-through mistake and lost rebinding show only in particular combinations of engaged states and argument kinds.",
[("option_base<T&>",H),("reference branches of operator=",H+": class option"),("ref_to_ptr",H)],
["address referred to, values of the objects"]),
P("P10","Callbacks run exactly when and as often as documented, with the right argument",
"map, map_or, map_or_else, and_then, or_else, filter, inspect, has_value_and and take_if call the function exactly once when (and only when) the content requires it, passing the contained object itself with the value category of the option, and yield exactly the documented result; the default function of map_or_else and or_else runs exactly when the option is empty. Only a callback that takes the value out of an rvalue changes the option, and member pointers and callable objects are accepted like functions.",
["histories","inputs","programs"],"every content, every value category of the option, predicates with both outcomes, peeking and consuming callbacks, all payload types",
"Tests check results on one or two inputs but not run counts, argument identity or category.",
[("impl::option::* monadic helpers",H),("impl::invoke",H)],
["number of runs, argument, its category, result"]),
P("P11","Checked access returns the value or fails as documented",
"value and value_or_throw return the contained value when engaged and throw opt::bad_access exactly when empty, in all four value categories; value_or, value_or_construct and operator| with a value return the contained value when engaged and otherwise a value made from the given arguments. The option keeps its state in every case, except that rvalue access moves the value out of an engaged option.",
["histories","inputs"],"every content, value category and argument kind",
"Tests call each accessor once or twice, mostly on lvalues of int.",
[("value_or_throw",H+": impl::option"),("value_or, value_or_construct",H)],
["result or exception, content afterwards"]),
P("P12","Every access has the value category and constness of the option",
"get, operator*, value, value_or_throw, get_unchecked, operator->, ptr_or_null, begin/end, opt::get, opt::at, at_front, at_back, lookup and the arguments given to callbacks have exactly the documented type: the constness and reference category of the option (or container) applied to T, collapsing for references, and never a dangling reference to a temporary. Return types of map, and_then, zip, flatten, unzip, option_cast and make_option are the documented option types.",
["programs"],"every accessor and free function, each of the four value categories, for values, const values and references",
"Return types are spot-checked; a missing cast or const compiles and passes value tests.",
[("ref-qualified overloads",H+": class option"),("copy_reference",H)],
["decltype of every access"]),
P("P13","Operators |, |=, &, ^ select options as documented",
"a|b is a if a is engaged and b otherwise, a&b is b if a is engaged and none otherwise, a^b is the engaged one if exactly one is engaged and none otherwise, and a|=b assigns b only if a is empty; so | and & are associative, none is the identity of | and of ^ and annihilates &, and ^ of two engaged options is none. The operands not selected are unchanged; a selected lvalue is copied and a selected rvalue is moved.",
["inputs","histories","programs"],"all operand contents and value categories",
"Tests check a truth table of ints on a few categories; each of the 15 overloads can be wrong separately.",
[("operator| |= & ^",H)],
["result, operands afterwards, copies and moves"]),
P("P14","zip, zip_with, unzip, flatten, option_cast and get compose faithfully",
"zip and zip_with are engaged exactly if all arguments are, with all values in order (and the function called exactly once); unzip inverts zip; flatten of a nested option is engaged exactly if all depths are, with the innermost value; option_cast converts the contained value and keeps emptiness; opt::get of an option of a tuple-like refers to that element of the contained object itself. Lvalue arguments are not changed, rvalue arguments are moved from only where engaged.",
["inputs","programs"],"all combinations of empty and engaged arguments, 0 to 4 arguments, values and references, each value category, nesting depths",
"Tests use all-engaged and one-empty examples.",
[("zip, zip_with, unzip, flatten, option_cast, get",H)],
["result, arguments afterwards, identity of referenced objects"]),
P("P15","Comparison is a consistent total order with none below every value",
"For options, values and opt::none in any mixture and argument order, ==, !=, <, <=, >, >= agree with each other and with comparing the contents where none equals none and is less than every value; so they are reflexive, symmetric or antisymmetric, transitive and total whenever T's are, also for options of different types and for reference options. If T's comparison of the two values is false for all (as with NaN), the result is that of the operator of T itself, never of its negation.",
["inputs","programs"],"all pairs and triples of contents, every operator, each mixed form, types with and without a total order",
"Each overload is a separate function; tests evaluate some of them on a few ints.",
[("comparison operators",H)],
["the six operators in each form"]),
P("P16","Hashing agrees with equality and with the contained value",
"std::hash of an option gives equal results for equal options of values, gives the hash of the contained value when engaged and one fixed result for all empty options, does not depend on how the option was reached, and is available exactly when std::hash of the contained type is. For reference options it depends only on which object is referred to.",
["inputs","histories","programs"],"all contents reached by different histories, all hashable payloads, nested options",
"Tests hash two ints.",
[("std::hash<opt::option>",H)],
["std::hash results, use in unordered containers"]),
P("P17","Container, variant and pointer access is empty exactly if nothing is there",
"opt::at, at_front, at_back, lookup, opt::get of a variant and from_nullable yield an engaged option exactly when the index, key, element, alternative or object exists, and then refer to that very element of the given container (or hold its value where the container yields one), and never read, insert or change anything otherwise. The answer is right for every size and index, including the last element, the first past it and huge indices.",
["inputs","histories","programs"],"all sizes, indices, keys, alternatives, valueless variants, sets and maps, const and rvalue containers",
"Tests probe a valid and an invalid index of a small container.",
[("at, at_front, at_back, lookup, variant_get, from_nullable",H)],
["result, address of the element, container afterwards"]),
P("P18","Sentinel wrappers and user traits define emptiness exactly",
"With opt::sentinel, sentinel_f, member, enforce, sentinel_option_traits or user option_traits, exactly the designated values are the empty states, in the given order for nested options, and all others are ordinary values that behave as the wrapped type (conversion, assignment, comparison). as_option and get_unchecked read such a state as empty and any other as engaged, and the option changes only the designated member.",
["inputs","histories","programs"],"all wrapped values around the sentinels, one to several sentinels, all nestings and operations",
"Tests use one or two sentinels with one or two values.",
[("type_wrapper, sentinel, sentinel_f, member, enforce",H),("sentinel_option_traits",H),("as_option",H)],
["has_value, wrapped value"]),
P("P19","Special members and noexcept follow the contained type",
"Whether option<T> can be copied, moved, assigned, swapped or destroyed, trivially or without exceptions, follows from T exactly: an operation exists if and only if T supports what it needs, is trivial if and only if T's corresponding operations are, and promises noexcept only if nothing it calls can throw. Constructors and conversions exist exactly for arguments from which T can be made, and are explicit exactly when T's are.",
["programs","configurations"],"all combinations of deleted, throwing, non-trivial and trivial special members, with and without option_traits",
"Tests assert traits for some of the combinations; each of the 32 combinations selects another class.",
[("option_base, enable_copy_move, option_destruct_base specialisations",H),("option_checks_base",H)],
["type traits of option<T>"]),
P("P20","Constant evaluation gives the same results as run time",
"For contained types whose empty states need no bit-level access, every operation that the library offers in constant expressions is one, and yields there exactly the content, result and callback behaviour that it yields at run time, for every content and value category, without undefined behaviour in either.",
["inputs","histories","configurations"],"all transitions of the specification on literal types, in C++17 and C++20, with different compilers",
"The constexpr tests evaluate single expressions; equality of two evaluations of all transitions is not asserted.",
[("constexpr functions throughout",H),("construct_at",H)],
["static_assert on specified transitions"]),
P("P21","Debug checks fire on every access of an empty option and never otherwise",
"With checks enabled, get, operator*, operator-> of an option, and dereferencing or moving (by other than zero) an iterator that points nowhere, or ordering it by < or > with one that points somewhere, report a failed check exactly when there is no value, and storing a value that reads as an empty state is reported; no operation on valid options ever reports one. The checks have no side effects, so results are the same when they are disabled.",
["histories","inputs","configurations"],"all operations on all contents, all payload types, with OPTION_VERIFY user-defined, default and disabled",
"A failed check aborts the program, so tests do not reach it.",
[("OPTION_VERIFY uses",H)],
["calls of OPTION_VERIFY with a false condition, process outcome"]),
P("P22","Conversions and constructors build exactly the intended content",
"Constructing or assigning an option from a value, from arguments, from an initializer list, in place, from opt::none or from an option of another type yields exactly the content documented: engaged with the converted value or empty as the source is, with lvalue sources unchanged and rvalue sources moved from. Overload resolution picks the intended meaning for nested options, bool, none, braces and convertible types, and deduction (option{x}, make_option) gives the documented type.",
["inputs","histories","programs"],"all contents of source and destination, conversions between different payload types (widening, class, move-only, nested, bool, references), explicit and implicit",
"Tests convert a few pairs, mostly engaged; the templates choose among many overloads.",
[("converting constructors and assignments",H+": class option"),("option_checks_base, check_option_like_ctor",H),("make_option, deduction guide",H)],
["content of source and destination, type deduced"]),
P("P23","Stream helpers write and read exactly the content",
"opt::io writes exactly the contained value, or nothing or the given alternative when empty, and reading through it stores into the contained value or into the alternative when empty, leaving the stream usable for chaining and the option's engagement unchanged. It refers to the given option and alternative and copies neither.",
["inputs","histories"],"all contents, with and without alternative, narrow and wide streams, custom streams and chains of several options",
"Tests print a few ints.",
[("io, io_helper1, io_helper2",H)],
["stream contents, option and alternative afterwards"]),
P("P24","Option iterators are random access iterators over zero or one element",
"begin and end delimit exactly the contained object (or nothing), and the iterators satisfy all random access laws among themselves: increments, decrements, +, -, +=, -=, [], distance, the six comparisons, conversion to const and default construction agree with a pointer to the object. Algorithms and ranges over an option therefore see exactly its value.",
["inputs","histories","programs"],"all positions and offsets, const and mutable iterators, options of values and references",
"Tests iterate forward once.",
[("option_iterator",H),("begin, end",H)],
["position, result of each operator"]),
]
assert all(len(p["title"])<=80 for p in L), [p["title"] for p in L if len(p["title"])>80]
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in L))
print(len(L))
