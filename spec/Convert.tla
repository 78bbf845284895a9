------------------------------ MODULE Convert -------------------------------
(***************************************************************************)
(* What options are made of.  Mode "conv": an option<T> constructed and    *)
(* assigned from values of another type U, from options of U, in place,    *)
(* from none and braces; how T came about is part of the result.  Mode     *)
(* "nest": options D deep made of values, and of options 1..D deep of the  *)
(* same or another type.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, N, D, Tracked, Marks, Copyable, Implicit, Scalar, Greedy, Const, Assign
VARIABLES t, s, last
vars == <<t, s, last>>
Vals == 1..N
Moved == N + 1

(* how T came about: 0 nothing, 1 made of const U&, 2 of U&&, 3 assigned from const U&, 4 from U&&, 9 default *)
How(h) == IF Tracked THEN h ELSE 0
Cats == IF Copyable THEN {"l", "cl", "r", "cr"} ELSE {"r"}
IsR(c) == c = "r"
\* of a constructed and of an assigned object
Made(c) == How(IF IsR(c) THEN 2 ELSE 1)
Assigned(c, engaged) == IF engaged /\ ~Scalar THEN How(IF IsR(c) THEN 4 ELSE 3) ELSE Made(c)
After(v, c) == IF IsR(c) /\ Marks /\ v > 0 THEN Moved ELSE v

B2(c) == IF IsR(c) THEN 2 ELSE 1
Do(op, args, t2, s2, res) == t' = t2 /\ s' = s2 /\ last' = [op |-> op, args |-> args, res |-> res]
Code(c) == CASE c = "l" -> 0 [] c = "cl" -> 1 [] c = "r" -> 2 [] c = "cr" -> 3

ConvInit == t = 0 /\ s = 0
ConvNext ==
  \/ \E v \in Vals \cup {0} : Do("source", <<v>>, t, v, <<>>)
  \* from an option of U: T takes its content, or, if T is made of options of U, the option itself (code N + 1 + content)
  \/ s # Moved /\ \E c \in Cats : \E op \in {"ctor", "list", "make"} \cup (IF Implicit THEN {"init", "arg"} ELSE {}) :
       (op # "make" \/ ~Greedy) /\
       Do(op \o "_opt", <<Code(c)>>, IF Greedy THEN N + 2 + s ELSE s, After(s, c), <<IF Greedy \/ s = 0 THEN 0 ELSE Made(c)>>)
  \/ s # Moved /\ Assign /\ \E c \in Cats :
       Do("assign_opt", <<Code(c)>>, IF Greedy THEN N + 2 + s ELSE s, After(s, c), <<IF Greedy \/ s = 0 THEN 0 ELSE Assigned(c, t # 0)>>)
  \* from a value of U; the last result is what becomes of it
  \/ \E v \in Vals, c \in Cats : \E op \in {"ctor", "list", "in_place", "in_place_list", "make_t", "emplace"} \cup (IF Implicit THEN {"init", "arg", "ret"} ELSE {}) :
       Do(op \o "_val", <<v, Code(c)>>, v, s, <<Made(c), After(v, c)>>)
  \/ \E v \in Vals, c \in Cats :
       \/ Assign /\ Do("assign_val", <<v, Code(c)>>, v, s, <<Assigned(c, t # 0), After(v, c)>>)
       \/ Copyable /\ Do("voc_val", <<v, Code(c)>>, t, s, IF t = 0 THEN <<v, Made(c), After(v, c)>> ELSE <<t, 0, v>>)
       \/ Do("try_emplace_val", <<v, Code(c)>>, IF t = 0 THEN v ELSE t, s, IF t = 0 THEN <<Made(c), After(v, c)>> ELSE <<0, v>>)
  \* make_option and deduction make an option of U itself
  \/ \E v \in Vals, c \in Cats, op \in {"make_u", "deduce"} : Do(op, <<v, Code(c)>>, t, s, <<v, After(v, c)>>)
  \* deduction from an option is a copy of it
  \/ s # Moved /\ \E c \in Cats : Do("deduce_opt", <<Code(c)>>, t, After(s, c), <<s>>)
  \/ \E op \in {"ctor_none", "list_none", "init_none", "ctor_default", "list_default", "ret_none", "ret_braces", "assign_none", "reset"} \cup (IF Const THEN {} ELSE {"assign_empty_option"}) : Do(op, <<>>, 0, s, <<>>)
  \* '= {}' makes a scalar of its default value, and the option empty otherwise
  \/ ~Scalar /\ ~Const /\ Do("assign_braces", <<>>, 0, s, <<>>)
  \* several arguments, forwarded as they are; lists
  \/ Tracked /\ \E v, w \in Vals, c, e \in {"l", "r"} :
       \/ \E op \in {"ctor2", "list2", "in_place2", "make2", "emplace2"} : Do(op, <<v, Code(c), w, Code(e)>>, v, s, <<10 + w, After(v, c), After(w, e), B2(c), B2(e)>>)
       \/ \E op \in {"in_place_il", "make_il", "emplace_il"} : Do(op, <<v, Code(c), w, Code(e)>>, w, s, <<20 + v, After(v, c), After(w, e), B2(c), B2(e)>>)

(* -------------------------------------------------------------- nesting *)
\* content of an option j deep: 0..j-1 empty at that depth, j-1+v value v; of depth 0: v
Contents(j) == IF j = 0 THEN Vals ELSE 0..(j - 1 + N)
Wrap(c, j) == IF j = 0 THEN D - 1 + c ELSE c + (D - j)
NestInit == t = 0 /\ s = 0
NestNext ==
  \/ \E j \in 0..D, cat \in {"l", "cl", "r"} : \E c \in Contents(j) :
       \/ \E y \in {0, 1}, op \in {"n_ctor", "n_init", "n_assign", "n_list", "n_arg"} : Do(op, <<y, j, c, Code(cat)>>, Wrap(c, j), s, <<>>)
       \/ \E y \in {0, 1}, op \in {"n_emplace", "n_in_place"} : (j < D) /\ Do(op, <<y, j, c, Code(cat)>>, Wrap(c, j), s, <<>>)
       \/ Do("n_deduce", <<j, c, Code(cat)>>, t, s, <<c>>)
       \/ Do("n_make", <<j, c, Code(cat)>>, t, s, <<IF j = 0 THEN c ELSE c + 1>>)
  \* none is the outermost emptiness wherever it is said
  \/ \E op \in {"n_none", "n_init_none", "n_assign_none", "n_assign_braces", "n_default", "n_list_default", "n_ret_none", "n_ret_braces"} : Do(op, <<>>, 0, s, <<>>)
  \/ D > 1 /\ \E op \in {"n_in_place_nothing", "n_emplace_nothing", "n_emplace_none", "n_in_place_none"} : Do(op, <<>>, 1, s, <<>>)
  \* assigned to an inner option; only there
  \/ \E k \in 1..(D - 1) : t >= k /\ \E j \in 0..(D - k) : \E c \in Contents(j) : Do("n_inner", <<k, j, c>>, k + (IF j = 0 THEN D - k - 1 + c ELSE c + (D - k - j)), s, <<>>)
  \/ \E k \in 1..(D - 1) : t >= k /\ Do("n_inner_none", <<k>>, k, s, <<>>)

(* -------------------------------------------------------------- scalars *)
ScalarNext == Mode = "conv" /\ Scalar /\ Do("assign_zero", <<>>, 1, s, <<>>)

Init == last = [op |-> "init", args |-> <<>>, res |-> <<>>] /\ (IF Mode = "conv" THEN ConvInit ELSE NestInit)
Next == IF Mode = "conv" THEN ConvNext \/ ScalarNext ELSE NestNext
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- laws *)
\* wrapping loses nothing and none stays apart from what it wraps
ASSUME Mode = "nest" => \A j \in 0..D : \A c, e \in Contents(j) : (Wrap(c, j) = Wrap(e, j)) = (c = e)
ASSUME Mode = "nest" => \A j \in 0..(D - 1) : \A c \in Contents(j) : Wrap(c, j) > 0
ASSUME Mode = "nest" => \A c \in Contents(D) : Wrap(c, D) = c
TypeOK == /\ t \in (IF Mode = "conv" THEN 0..(2 * N + 2) ELSE Contents(D))
          /\ s \in 0..Moved
\* an lvalue source is never changed
LvalueKept == [][(last'.op # "source" /\ s' # s) => (s' = Moved /\ Marks /\ last'.args # <<>> /\ last'.args[Len(last'.args)] = 2)]_vars
View == <<t, s>>
Emit == PrintT("EDGE " \o ToJson([s |-> <<t, s>>, a |-> last', t |-> <<t', s'>>]))
=============================================================================
