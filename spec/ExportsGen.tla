---------------------------- MODULE ExportsGen ------------------------------
(* Simulations of TransportGen with a list of exports.                        *)
EXTENDS TransportGen
VARIABLE exps
xvars == <<gvars, exps>>
XFields == IF fam = "many" THEN {10, 11, 11, 200} ELSE {0, 100, 200} \cup (1..NN)
E0(k) == [kind |-> k, f |-> R(XFields), fs |-> R({"int", "str", "solute"}), every |-> 1, wr |-> 0, all |-> TRUE, times |-> <<>>,
          late |-> FALSE, named |-> TRUE, where |-> R({"cwd", "sub", "abs"}), filt |-> R({TRUE, FALSE}), ck |-> R({TRUE, FALSE}),
          hf |-> R({".2e", ".4e", ".3f"}), qs |-> <<>>, trap |-> 0, label |-> R({TRUE, FALSE})]
TimesOpts == {<<700>>, <<500, 1000>>, <<300, 1250>>, <<cfg.final>>, <<1000, cfg.final>>, <<250, 600, 9000>>, <<1250, 250>>}
RExp == LET k == R({"dq", "dq", "xdmf", "xdmf", "txt", "txt"} \cup (IF NN > 0 THEN {"dens"} ELSE {})) IN
        CASE k = "dq" -> [E0("dq") EXCEPT !.every = R({1, 1, 2, 3}), !.wr = R({0, 0, 1, 2, 3}), !.named = R({TRUE, TRUE, FALSE}),
                          !.qs = <<<<R({1, 2}), R(XFields)>>, <<R({1, 2}), R(XFields)>>>>]
          [] k = "xdmf" -> [E0("xdmf") EXCEPT !.every = R({0, 1, 1, 2, 3})]
          [] k = "dens" -> [E0("xdmf") EXCEPT !.every = R({0, 1, 2}), !.trap = R(1..NN)]
          [] OTHER -> IF cfg.steady \/ R({1, 2, 3}) = 1 THEN [E0("txt") EXCEPT !.late = R({TRUE, FALSE})]
                      ELSE [E0("txt") EXCEPT !.late = R({TRUE, FALSE}), !.all = FALSE, !.times = R(TimesOpts)]
XInit == GInit /\ exps = <<>>
Fill == stage < 13 /\ Next1 /\ stage' = stage + 1 /\ UNCHANGED <<fam, exps>>
Choose == stage = 13 /\ \E n \in {R({2, 3, 4})} : exps' = [i \in 1..n |-> RExp] /\ stage' = stage + 1 /\ UNCHANGED <<fam, cfg>>
          \* now and then everything happens within nanoseconds
          /\ aux' = [aux EXCEPT !.tsc = IF cfg.steady THEN 0 ELSE R({0, 0, 1})]
XEmit == /\ stage = 14 /\ PrintT("GEN " \o ToJson([fam |-> fam, cfg |-> cfg, aux |-> aux, exps |-> exps]))
         /\ stage' = stage + 1 /\ UNCHANGED <<fam, cfg, aux, exps>>
XNext == Fill \/ Choose \/ XEmit
XSpec == XInit /\ [][XNext]_xvars
=============================================================================
