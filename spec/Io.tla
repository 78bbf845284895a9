--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Writing and reading options through opt::io.                            *)
(*                                                                         *)
(* c[1], c[2]: contents of two options; alt: the alternative.  A write     *)
(* appends tokens to the stream (v for the value of an option, ALT + v for *)
(* the alternative, LIT for a literal alternative, SEP for what the caller *)
(* writes in between); a read consumes one token into the option, if it    *)
(* has a value, or into the alternative.  Neither changes whether an       *)
(* option has a value.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NVals, Reads, Streams, Temps        \* Streams: kinds of streams; Temps: an option can be passed as a temporary

ALT == 100
LIT == 77
SEP == 55
Opts == {1, 2}
Vals == 1..NVals
VARIABLES c, alt, last
vars == <<c, alt, last>>
Step(op, args, c2, a2, res) == c' = c2 /\ alt' = a2 /\ last' = [op |-> op, args |-> args, res |-> res]

Tok(v) == IF v = 0 THEN <<>> ELSE <<v>>
TokAlt(v, a) == IF v = 0 THEN <<ALT + a>> ELSE <<v>>
TokLit(v) == IF v = 0 THEN <<LIT>> ELSE <<v>>
How == {"l", "cl"} \cup (IF Temps THEN {"t"} ELSE {})         \* lvalue, const lvalue, temporary

Put(i, v)    == Step("set", <<i, v>>, [c EXCEPT ![i] = v], alt, <<>>)
SetAlt(v)    == Step("setalt", <<v>>, c, v, <<>>)
Write(s, h, i)    == Step("write_" \o s \o "_" \o h, <<i>>, c, alt, Tok(c[i]))
WriteAlt(s, h, i) == Step("writealt_" \o s \o "_" \o h, <<i>>, c, alt, TokAlt(c[i], alt))
WriteLit(s, h, i) == Step("writelit_" \o s \o "_" \o h, <<i>>, c, alt, TokLit(c[i]))
\* << SEP << io(1) << SEP << io(2, alt) << io(1, "literal") << SEP
Chain(s)     == Step("chain_" \o s, <<>>, c, alt, <<SEP>> \o Tok(c[1]) \o <<SEP>> \o TokAlt(c[2], alt) \o TokLit(c[1]) \o <<SEP>>)
\* a kept helper refers to the option and the alternative, whatever they are by then
Kept(s, i, v) == Step("kept_" \o s, <<i, v>>, [c EXCEPT ![i] = v], v, Tok(v) \o TokAlt(v, v))
ReadInto(i, v, cc, aa) == IF cc[i] = 0 THEN <<cc, v>> ELSE <<[cc EXCEPT ![i] = v], aa>>
Read(s, i, v) == Reads /\ LET r == ReadInto(i, v, c, alt) IN Step("read_" \o s, <<i, v>>, r[1], r[2], <<>>)
ReadChain(s, v, w) == Reads /\ LET r == ReadInto(1, v, c, alt)
                                   q == ReadInto(2, w, r[1], r[2])
                               IN Step("readchain_" \o s, <<v, w>>, q[1], q[2], <<>>)
ReadEnd(s, i) == Reads /\ Step("readend_" \o s, <<i>>, c, alt, <<1>>)      \* nothing to read: the stream fails, nothing changes

Init == c = [i \in Opts |-> 0] /\ alt = 1 /\ last = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next ==
  \/ \E i \in Opts, v \in 0..NVals : Put(i, v)
  \/ \E v \in Vals : SetAlt(v)
  \/ \E s \in Streams : \/ Chain(s)
                        \/ \E i \in Opts : \/ ReadEnd(s, i)
                                           \/ \E h \in How : Write(s, h, i) \/ WriteAlt(s, h, i) \/ WriteLit(s, h, i)
                                           \/ \E v \in Vals : Read(s, i, v) \/ Kept(s, i, v)
                        \/ \E v, w \in Vals : ReadChain(s, v, w)
Spec == Init /\ [][Next]_vars
TypeOK == c \in [Opts -> 0..NVals] /\ alt \in Vals
\* only the caller, and a kept option that is set, decides whether there is a value
Engagement == [][\A i \in Opts : (c[i] = 0) # (c'[i] = 0) => last'.op \in {"set"} \cup {"kept_" \o s : s \in Streams}]_vars
\* a read changes exactly one of the option and the alternative it was given
OneTarget == [][last'.op \in {"read_" \o s : s \in Streams} =>
                 \/ alt' = alt /\ \A i \in Opts : i # last'.args[1] => c'[i] = c[i]
                 \/ c' = c]_vars
View == <<c, alt>>
Emit == PrintT("EDGE " \o ToJson([s |-> <<c[1], c[2], alt>>, a |-> last', t |-> <<c'[1], c'[2], alt'>>]))
=============================================================================
