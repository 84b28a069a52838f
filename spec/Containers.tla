----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The typed lists of FESTIM (Materials, Traps, Exports,                   *)
(* DerivedQuantities) and the attributes of Simulation that hold them.     *)
(*                                                                         *)
(* Items are numbers: 1..9 are objects of the right kind (3 the same       *)
(* object as 1 is never meant: each number is one object), negative        *)
(* numbers are something else (a string, None, an object of another kind). *)
(* An operation with a wrong item, or with something that is no list,      *)
(* raises a TypeError; then nothing changes, except that extend and +=     *)
(* may have taken the right items that come before the wrong one.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Good(x) == x > 0
NoneItem == -2                        \* Python's None
AllGood(s) == \A i \in DOMAIN s : Good(s[i])
Min(a, b) == IF a < b THEN a ELSE b
\* Python's position of index i in a sequence of length n, for insert
InsPos(n, i) == IF i >= 0 THEN Min(i, n) ELSE IF n + i < 0 THEN 0 ELSE n + i
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Del(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
\* position 1..n of an index, 0 if out of range
At1(n, i) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0) ELSE (IF -i <= n THEN n + i + 1 ELSE 0)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<Head(s)>>
GoodPrefixes(s) == {SubSeq(s, 1, k) : k \in {k \in 0..Len(s) : AllGood(SubSeq(s, 1, k))}}

\* the ways an operation may end: a set of [res |-> outcome, s |-> contents]
Ok(t) == {[res |-> "ok", s |-> t]}
Refuse(t) == {[res |-> "TypeError", s |-> t]}
Outcomes(s, op) ==
    CASE op.op = "append" -> IF Good(op.xs[1]) THEN Ok(Append(s, op.xs[1])) ELSE Refuse(s)
      [] op.op = "insert" -> IF Good(op.xs[1]) THEN Ok(Ins(s, InsPos(Len(s), op.i), op.xs[1])) ELSE Refuse(s)
      [] op.op = "set" -> LET p == At1(Len(s), op.i) IN
                          IF p = 0 THEN {[res |-> r, s |-> s] : r \in {"IndexError"} \cup (IF Good(op.xs[1]) THEN {} ELSE {"TypeError"})}
                          ELSE IF Good(op.xs[1]) THEN Ok([s EXCEPT ![p] = op.xs[1]]) ELSE Refuse(s)
      [] op.op \in {"extend", "iadd"} -> IF AllGood(op.xs) THEN Ok(s \o op.xs)
                                         ELSE {[res |-> "TypeError", s |-> s \o q] : q \in GoodPrefixes(op.xs)}
      [] op.op = "pop" -> LET p == At1(Len(s), op.i) IN IF p = 0 THEN {[res |-> "IndexError", s |-> s]} ELSE Ok(Del(s, p))
      [] op.op = "reverse" -> Ok(Rev(s))
      [] op.op = "clear" -> Ok(<<>>)
      \* a new list, from a list; as: how it is given
      [] op.op = "new" -> CASE op.as = "none" -> Ok(<<>>)
                            [] op.as = "list" -> IF AllGood(op.xs) THEN Ok(op.xs) ELSE Refuse(s)
                            [] OTHER -> Refuse(s)                  \* a tuple, a string, one object
      \* assignment to the attribute of a simulation
      [] op.op = "assign" -> CASE op.as = "none" -> Ok(<<>>)
                               [] op.as = "list" -> IF AllGood(op.xs) THEN Ok(op.xs) ELSE Refuse(s)
                               [] op.as = "one" -> IF op.xs[1] = NoneItem THEN Ok(<<>>)
                                                   ELSE IF Good(op.xs[1]) THEN Ok(<<op.xs[1]>>) ELSE Refuse(s)
                               [] op.as = "self" -> Ok(s)          \* the very same container
                               [] OTHER -> Refuse(s)               \* a tuple, a string
=============================================================================
