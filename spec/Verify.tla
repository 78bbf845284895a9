------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* The checks of OPTION_VERIFY.  Every operation fires at most one of      *)
(* them, and what it is fired for is part of its meaning here.  A check    *)
(* that fires ends the operation; what has been worked on is made anew.    *)
(*  "access": an option D deep and every function that needs its value     *)
(*  "iter":   an option and two iterators, which may point nowhere         *)
(*  "store":  a payload whose values S(1)..S(K) are empty states of the    *)
(*            options around it, and every function that stores one        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, D, K, N, Exceptions
VARIABLES s, last
vars == <<s, last>>
Do(op, args, s2, res) == s' = s2 /\ last' = [op |-> op, args |-> args, res |-> <<0>> \o res]
Fire(op, args, s2) == s' = s2 /\ last' = [op |-> op, args |-> args, res |-> <<1>>]
\* op, checked for p
Checked(p, op, args, s2, res, anew) == IF p THEN Do(op, args, s2, res) ELSE Fire(op, args, anew)

(* --------------------------------------------------------------- access *)
\* content: 0..D-1 empty at that depth, D-1+v value v
Contents == 0..(D - 1 + N)
Inside(c, k) == IF k = D THEN c - D + 1 ELSE c - k
Access ==
  \/ \E c \in Contents : Do("set", <<c>>, c, <<>>)
  \* k options entered, one after the other, in the same way
  \/ \E k \in 1..D :
       \/ \E op \in {"get_l", "get_cl", "get_r", "get_cr", "star_l", "star_cl", "star_r", "star_cr", "arrow_l", "arrow_cl", "begin_l", "begin_cl", "index_l", "index_cl", "barrow_l", "barrow_cl"} : Checked(s >= k, op, <<k>>, s, <<Inside(s, k)>>, 0)
       \/ \E op \in {"value_l", "value_cl", "value_r", "value_cr", "throw_l", "throw_cl", "throw_r", "throw_cr"} : IF s >= k \/ Exceptions THEN Do(op, <<k>>, s, <<IF s >= k THEN Inside(s, k) ELSE -1>>) ELSE Fire(op, <<k>>, 0)
       \/ \E op \in {"unchecked_l", "unchecked_cl", "unchecked_r", "unchecked_cr"} : s >= k /\ Do(op, <<k>>, s, <<Inside(s, k)>>)
  \* nothing else fires whatever the content is
  \/ \E op \in {"has_value", "bool", "range", "rangec", "ptr_or_null", "map", "and_then", "inspect", "none"} : Do(op, <<>>, s, <<s>>)

(* ------------------------------------------------------------- iterator *)
\* [o, a, b]: 0 empty, 1 engaged; an iterator points nowhere (-1), to the value (0), behind it (1)
Pos == {-1, 0, 1}
B(p) == IF p THEN 1 ELSE 0
At(i) == IF i = 1 THEN s[2] ELSE s[3]
Move(i, p) == IF i = 1 THEN <<s[1], p, s[3]>> ELSE <<s[1], s[2], p>>
Stay(i) == IF i = 1 THEN s[3] ELSE s[2]
Nowhere == <<s[1], -1, -1>>
Iter ==
  \/ Do("engage", <<>>, <<1, -1, -1>>, <<>>)
  \/ Do("empty", <<>>, <<0, -1, -1>>, <<>>)
  \/ \E i \in 1..2 : \/ Do("begin", <<i>>, Move(i, IF s[1] = 1 THEN 0 ELSE -1), <<>>)
                     \/ Do("end", <<i>>, Move(i, IF s[1] = 1 THEN 1 ELSE -1), <<>>)
                     \/ Do("nowhere", <<i>>, Move(i, -1), <<>>)
  \/ \E i \in 1..2 :
       \/ \E op \in {"deref", "arrow"} : At(i) # 1 /\ Checked(At(i) = 0, op, <<i>>, s, <<>>, Nowhere)
       \/ \E n \in Pos : At(i) + n = 0 /\ At(i) # -1 /\ Do("index", <<i, n>>, s, <<>>)
       \/ \E n \in Pos : At(i) = -1 /\ Fire("index", <<i, n>>, Nowhere)
       \/ \E op \in {"preinc", "postinc"} : At(i) # 1 /\ Checked(At(i) = 0, op, <<i>>, Move(i, At(i) + 1), <<>>, Nowhere)
       \/ \E op \in {"predec", "postdec"} : At(i) # 0 /\ Checked(At(i) = 1, op, <<i>>, Move(i, At(i) - 1), <<>>, Nowhere)
       \/ \E n \in Pos, op \in {"pluseq", "plus", "addto"} : (At(i) = -1 \/ At(i) + n \in {0, 1}) /\ Checked(At(i) # -1 \/ n = 0, op, <<i, n>>, Move(i, IF At(i) = -1 THEN -1 ELSE At(i) + n), <<>>, Nowhere)
       \/ \E n \in Pos, op \in {"minuseq", "minus"} : (At(i) = -1 \/ At(i) - n \in {0, 1}) /\ Checked(At(i) # -1 \/ n = 0, op, <<i, n>>, Move(i, IF At(i) = -1 THEN -1 ELSE At(i) - n), <<>>, Nowhere)
  \* ordering needs both or none to point somewhere; equality does not
  \/ \E i, j \in 1..2 :
       \/ Checked((At(i) = -1) = (At(j) = -1), "lt", <<i, j>>, s, <<B(At(i) < At(j))>>, Nowhere)
       \/ Checked((At(i) = -1) = (At(j) = -1), "gt", <<i, j>>, s, <<B(At(i) > At(j))>>, Nowhere)
       \/ (At(i) = -1) = (At(j) = -1) /\ (Do("le", <<i, j>>, s, <<B(At(i) <= At(j))>>) \/ Do("ge", <<i, j>>, s, <<B(At(i) >= At(j))>>) \/ Do("diff", <<i, j>>, s, <<At(i) - At(j)>>))
       \/ Do("eq", <<i, j>>, s, <<B(At(i) = At(j))>>) \/ Do("ne", <<i, j>>, s, <<B(At(i) # At(j))>>)

(* ---------------------------------------------------------------- store *)
\* depth 1 is the innermost option; content: 1..N, S(k), or FLAGGED(d): empty by a flag at depth d
S(k) == 10 + k
FLAGGED(d) == 20 + d
Min(a, b) == IF a < b THEN a ELSE b
EmptyAt(d) == IF d <= K THEN S(d) ELSE FLAGGED(d)
Reaches(c, d) == \A e \in (d + 1)..D : c # EmptyAt(e)        \* the options outside of depth d are engaged
Raws == (1..N) \cup {S(k) : k \in 1..K}
Bad(r, d) == \E k \in 1..Min(d, K) : r = S(k)                 \* some option up to depth d reads as empty with r inside
Store ==
  \/ \E r \in Raws, op \in {"ctor", "list", "init", "in_place", "make", "conv", "convmove", "conv_assign", "conv_assign_move", "from_map", "from_transform", "zip_with", "cast", "castmove", "and_then", "or_else", "other"} : (op \in {"from_map", "from_transform", "zip_with", "cast", "castmove", "and_then", "or_else", "other"} => D = 1) /\
        Checked(~Bad(r, D), op, <<r>>, r, <<>>, EmptyAt(D))
  \/ \E r \in Raws, d \in 1..D : Reaches(s, d) /\
        \/ \E op \in {"emplace", "assign", "emplace_r", "assign_r"} : Checked(~Bad(r, d), op, <<d, r>>, r, <<>>, EmptyAt(D))
        \/ IF s = EmptyAt(d) THEN Checked(~Bad(r, d), "try_emplace", <<d, r>>, r, <<>>, EmptyAt(D)) ELSE Do("try_emplace", <<d, r>>, s, <<>>)
  \/ \E d \in 1..D : Reaches(s, d) /\ \E op \in {"reset", "none"} : Do(op, <<d>>, EmptyAt(d), <<>>)
  \* written through the reference, nothing is checked
  \/ \E r \in Raws : Reaches(s, 0) /\ (\A e \in 1..D : s # EmptyAt(e)) /\ Do("write", <<r>>, r, <<>>)
  \* as_option takes the value as it is, whatever it stands for
  \/ D = 1 /\ \E r \in Raws : Do("as_option", <<r>>, r, <<>>)
  \/ \E op \in {"copy", "move", "swap", "take_back"} : Do(op, <<>>, s, <<>>)

Init == last = [op |-> "init", args |-> <<>>, res |-> <<>>] /\ s = (CASE Mode = "access" -> 0 [] Mode = "iter" -> <<0, -1, -1>> [] Mode = "store" -> EmptyAt(D))
Next == CASE Mode = "access" -> Access [] Mode = "iter" -> Iter [] Mode = "store" -> Store
Spec == Init /\ [][Next]_vars

TypeOK == CASE Mode = "access" -> s \in Contents
            [] Mode = "iter" -> s[1] \in {0, 1} /\ s[2] \in Pos /\ s[3] \in Pos /\ (s[1] = 0 => s[2] = -1 /\ s[3] = -1)
            [] Mode = "store" -> s \in Raws \cup {EmptyAt(d) : d \in 1..D}
Fired == last'.res[1] = 1
\* in the words of the property: a value is needed and there is none, an iterator pointing nowhere is used, an empty state would be stored
FiresIff == [][CASE Mode = "access" -> Fired => last'.args[1] > s
                 [] Mode = "iter" -> Fired => \E i \in 1..2 : At(i) = -1
                 [] Mode = "store" -> Fired <=> (last'.op \notin {"write", "as_option", "reset", "none", "copy", "move", "swap", "take_back"} /\ s' = EmptyAt(D) /\ (last'.args[Len(last'.args)] > 10) /\ Bad(last'.args[Len(last'.args)], IF Len(last'.args) = 2 THEN last'.args[1] ELSE D)
                        /\ (last'.op = "try_emplace" => s = EmptyAt(last'.args[1])))]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([s |-> s, a |-> last', t |-> s']))
=============================================================================
