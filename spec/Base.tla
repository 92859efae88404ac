-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Vocabulary shared by every module of the specification.                 *)
(*                                                                         *)
(* Numbers.  The implementation works on doubles.  The specification works *)
(* on integers: a double d that is a multiple of 1/8 of moderate size is   *)
(* the integer 8*d; the special values have the reserved codes below.      *)
(* Orders and equality of ordinary values are preserved by the encoding.   *)
(*                                                                         *)
(* Network state.  The abstract state of a network is a record             *)
(*   st : id -> attributes shared by all variants                          *)
(*   dy : variant -> id -> attributes with one value per variant           *)
(*   al : id -> alias -> alias type ("" when untyped)                      *)
(*   pr : id -> property -> value                                          *)
(*   mt : is multi-thread variant access allowed?                          *)
(*   sh : variant selected for everybody ("" when none; used when ~mt)     *)
(*   tl : thread -> its selected variant ("" when none; used when mt)      *)
(*   ic : node/breaker voltage level -> pair of nodes -> number of         *)
(*        internal connections                                             *)
(* Sub-objects that have no id of their own (tap changers, limits, legs,   *)
(* half lines, extensions) are entries "<owner>#<what>" of st and dy.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == -1000000000
PosMax == 1000000001
NegMax == -1000000001
PosInf == 1000000002
NegInf == -1000000002
Num(x) == x # NaN
Default(x, d) == IF Num(x) THEN x ELSE d
\* comparisons that are false as soon as an operand is not a number, as for doubles
Lt(x, y) == Num(x) /\ Num(y) /\ x < y
Le(x, y) == Num(x) /\ Num(y) /\ x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

Init0 == "InitialVariant"
Threads == 0..4

\* a missing key of an optional-argument record takes its default
G(a, k, d) == IF k \in DOMAIN a THEN a[k] ELSE d
Without(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}
SeqSet(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
\* overriding union: the left function wins
Over(f, g) == f @@ g
Pick(S) == CHOOSE x \in S : TRUE
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == Pick(S) IN f[x] + SumSet(S \ {x}, f)
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o SetToSeq0(S \ {x})
\* a list without duplicates, as a set: TRUE when list L enumerates exactly set S
Lists(L, S) == Len(L) = Cardinality(S) /\ SeqSet(L) = S
Count(L, x) == Cardinality({i \in 1..Len(L) : L[i] = x})

(* Outcomes of an operation.  Every operation yields a set of permitted    *)
(* outcomes; almost all of them yield exactly one.                         *)
Out(n, res, ret) == [n |-> n, res |-> res, ret |-> ret]
Ok(n) == {Out(n, "ok", "")}
OkR(n, r) == {Out(n, "ok", r)}
Err(n) == {Out(n, "err", "")}
Nil(n) == {Out(n, "nil", "")}

(* Graph search on a set of unordered pairs *)
Nbr(S, E) == {p[2] : p \in {q \in E : q[1] \in S}} \cup {p[1] : p \in {q \in E : q[2] \in S}}
RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup Nbr(S, E) IN IF T = S THEN S ELSE Reach(T, E)
\* the partition of vertex set V into groups linked by E
RECURSIVE Groups(_, _)
Groups(V, E) == IF V = {} THEN {} ELSE LET g == Reach({Pick(V)}, E) IN {g} \cup Groups(V \ g, E)
=============================================================================
