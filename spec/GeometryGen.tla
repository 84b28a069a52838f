---------------------------- MODULE GeometryGen -----------------------------
(* Layouts: a tiling of 0..N cut into pieces, grouped into materials in any   *)
(* order; then possibly one flaw; any set of vertices.                        *)
EXTENDS Geometry, TLC, Json
CONSTANT N
VARIABLES k, g, flaw
vars == <<k, g, flaw>>
R(X) == RandomElement(X)
Cut(z) == LET c == TLCEval({0, N} \cup {x \in 1..(N - 1) : R({0, 1}) = 1}) IN IF Cardinality(c) > 6 THEN {0, 2, N} ELSE c
\* pieces of a cut in increasing order
RECURSIVE Chain(_)
Chain(c) == IF Cardinality(c) < 2 THEN <<>>
            ELSE LET a == MinOf(c) b == MinOf(c \ {a}) IN <<<<a, b>>>> \o Chain(c \ {a})
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) < 2 THEN s
              ELSE LET i == TLCEval(R(DOMAIN s)) IN <<s[i]>> \o Shuffle([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
\* group the pieces: owner[i] is the material of piece i
Make(c, cut) ==
    LET n == Len(c)
        ow == TLCEval([i \in 1..n |-> R(1..3)])
        used == {ow[i] : i \in 1..n}
        ids == TLCEval(Shuffle(TLCEval([i \in 1..n |-> i + R({0, 3})])))
        uniq == IF Cardinality(Rg(ids)) = n THEN ids ELSE [i \in 1..n |-> i]
        mat(m) == LET own == TLCEval(Shuffle(Seqs({i \in 1..n : ow[i] = m}))) IN
                  [id |-> [j \in DOMAIN own |-> uniq[own[j]]], b |-> [j \in DOMAIN own |-> c[own[j]]], none |-> FALSE,
                   nest |-> R({TRUE, FALSE})]
        ms == TLCEval(Shuffle(Seqs(used)))
    IN  [verts |-> <<>>, mats |-> [i \in DOMAIN ms |-> mat(ms[i])], unit |-> R({"one", "micro", "tenth", "nano"})]
Verts(cut) == LET v == TLCEval({0, N} \cup R({cut, {}}) \cup {x \in 1..(N - 1) : R({0, 1}) = 1})
                  s == TLCEval(Shuffle(Seqs(v)))
              IN  s \o (IF R({1, 2}) = 1 THEN <<R(v)>> ELSE <<>>)
Flaws == <<"none", "none", "none", "none", "none", "none", "gap", "overlap", "start", "end", "noborders", "single", "dup">>
Hurt(x, f) ==
    LET m == TLCEval(R(DOMAIN x.mats)) j == TLCEval(R(DOMAIN x.mats[m].b)) IN
    CASE f = "gap" -> [x EXCEPT !.mats[m].b[j][1] = @ + 1]
      [] f = "overlap" -> [x EXCEPT !.mats[m].b[j][2] = @ + 1]
      [] f = "start" -> [x EXCEPT !.mats[m].b[j][1] = @ - 1]
      [] f = "end" -> [x EXCEPT !.mats[m].b[j][2] = @ - 1]
      [] f = "noborders" -> IF Len(x.mats) = 1 /\ Len(x.mats[1].id) > 1 THEN x ELSE [x EXCEPT !.mats[m].none = TRUE]
      [] f = "dup" -> [x EXCEPT !.mats[m].b[j] = x.mats[1].b[1]]
      [] f = "single" -> [x EXCEPT !.mats = <<[id |-> <<3>>, b |-> <<<<0, N>>>>, none |-> TRUE, nest |-> FALSE]>>]
      [] OTHER -> x
Init == k = 0 /\ g = <<>> /\ flaw = "none"
Next == \/ /\ k = 0 /\ \E cut \in {Cut(k)} : \E c \in {Chain(cut)} : \E f \in {Flaws[R(DOMAIN Flaws)]} :
               /\ flaw' = f /\ k' = 1
               /\ \E x \in {Make(c, cut)} : \E v \in {Verts(cut)} : g' = [Hurt(x, f) EXCEPT !.verts = v]
        \/ /\ k = 1 /\ k' = 2 /\ UNCHANGED <<g, flaw>> /\ PrintT("GEN " \o ToJson([g |-> g, flaw |-> flaw]))
Spec == Init /\ [][Next]_vars
=============================================================================
