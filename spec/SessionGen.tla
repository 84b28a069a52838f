----------------------------- MODULE SessionGen -----------------------------
(* Two configurations of TransportGen, then a random session over them.       *)
EXTENDS TransportGen, Session
VARIABLES c1, a1, ops, st, cur, caux
svars == <<gvars, c1, a1, ops, st, cur, caux>>
SInit == GInit /\ c1 = <<>> /\ a1 = <<>> /\ ops = <<>> /\ st = Start /\ cur = <<>> /\ caux = <<>>
SFill == stage < 13 /\ Next1 /\ stage' = stage + 1 /\ UNCHANGED <<fam, c1, a1, ops, st, cur, caux>>
Txt == {<<>>, <<400>>, <<700, 1300>>, <<1100>>, <<900, 200>>}
Turn == /\ stage = 13 /\ c1 = <<>>
        /\ c1' = [cfg EXCEPT !.ids = 0] /\ a1' = [aux EXCEPT !.txt = R(Txt), !.ex = R(0..3)] /\ cfg' = Base /\ stage' = 0 /\ fam' = (IF R({1, 2, 3}) = 1 THEN R(Families) ELSE fam)
        /\ UNCHANGED <<aux, ops, st, cur, caux>>
Begin == /\ stage = 13 /\ c1 # <<>> /\ cur = <<>>
         /\ cur' = <<c1, c1>> /\ caux' = <<a1, a1>> /\ aux' = [aux EXCEPT !.txt = R(Txt), !.ex = R(0..3)]
         /\ cfg' = [cfg EXCEPT !.ids = 0]      \* ids stay with the objects: fields would no longer be positions
         /\ UNCHANGED <<fam, stage, c1, a1, ops, st>>
Gos == Cardinality({i \in DOMAIN ops : ops[i].op = "go"})
Do(op) == /\ ops' = Append(ops, op) /\ st' = After(st, op)
          /\ cur' = (CASE op.op = "edit" -> [cur EXCEPT ![op.s] = Apply(@, op.part, cfg)]
                       [] op.op = "new" /\ op.share -> <<cur[1], cur[1]>>
                       [] op.op = "new" -> <<cur[1], cfg>>
                       [] OTHER -> cur)
          /\ caux' = (CASE op.op = "edit" -> [caux EXCEPT ![op.s] = ApplyAux(@, op.part, aux)]
                        [] op.op = "new" /\ op.share -> <<caux[1], caux[1]>>
                        [] op.op = "new" -> <<caux[1], aux>>
                        [] OTHER -> caux)
          /\ UNCHANGED <<gvars, c1, a1>>
EditOp(s, p, how) == [op |-> "edit", s |-> s, part |-> p, how |-> how, share |-> FALSE]
Plain(o, s, sh) == [op |-> o, s |-> s, part |-> "none", how |-> "new", share |-> sh]
Edited(s) == LET z == {i \in DOMAIN ops : ops[i].s = s /\ ops[i].op \in {"edit", "go", "stop"}}
             IN  z # {} /\ ops[CHOOSE i \in z : \A j \in z : j <= i].op = "edit"
GoodEdits(s) == {p \in Parts \ {"none"} : LET n == Apply(cur[s], p, cfg) IN
                    /\ Valid(n) /\ (p = "mesh" => Len(cur[s].h) < 5)
                    /\ n # cur[s] \/ (p = "txt" /\ ~n.steady /\ caux[s].txt # aux.txt) \/ (p = "exps" /\ caux[s].ex # aux.ex)}
\* the edits that keep the objects of the simulation are few: weigh them
Choice(s, k) == LET g == GoodEdits(s) w == g \cap {"swap", "drop", "txt", "exps", "mesh"} IN IF w # {} /\ R({1, 2, 3}) = 1 THEN R(w) ELSE R(g)
\* after the first run: mostly change something, then run again
Act == /\ stage = 13 /\ cur # <<>> /\ Gos < 3 /\ Len(ops) < 12
       /\ \/ \E s \in {R({1, 2})} : \E g \in {IF GoodEdits(s) = {} THEN "none" ELSE IF Gos = 2 THEN R({"none"} \cup GoodEdits(s)) ELSE Choice(s, Len(ops))} :
               /\ CanEdit(st, s) /\ st.ini[s] = "done" /\ ~Edited(s)
               /\ \E h \in {IF st.shared THEN "new" ELSE R({"new", "inplace"})} : Do(EditOp(s, g, h))
          \/ \E s \in {1, 2} : CanInit(st, s) /\ (st.ini[s] = "no" \/ Edited(s)) /\ Do(Plain("init", s, FALSE))
          \/ \E s \in {1, 2} : CanGo(st, s) /\ Do(Plain("go", s, FALSE))
          \/ \E s \in {1, 2} : /\ CanStop(st, s) /\ ~cur[s].steady /\ R({1, 2}) = 1
                               /\ \A i \in DOMAIN ops : ops[i].op # "stop" /\ Do(Plain("stop", s, FALSE))
          \/ \E sh \in {R(BOOLEAN)} : CanNew(st, sh) /\ (sh => st.ini[1] = "done") /\ R({1, 2, 3}) = 1 /\ Do(Plain("new", 2, sh))
SEmit == /\ stage = 13 /\ Gos = 3 /\ stage' = 14
         /\ PrintT("GEN " \o ToJson([fam |-> fam, c1 |-> c1, a1 |-> a1, c2 |-> cfg, a2 |-> aux, ops |-> ops]))
         /\ UNCHANGED <<fam, cfg, aux, c1, a1, ops, st, cur, caux>>
SNext == SFill \/ Turn \/ Begin \/ Act \/ SEmit
SSpec == SInit /\ [][SNext]_svars
=============================================================================
