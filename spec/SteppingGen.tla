----------------------------- MODULE SteppingGen ----------------------------
(* Random behaviours of Stepping (tlc -simulate): a configuration chosen one *)
(* parameter at a time, then solver outcomes.  Each finished behaviour is    *)
(* printed as JSON and replayed into the real code.  Unit: 1/1024 tick.      *)
EXTENDS Stepping, TLC, Json
VARIABLES stage, hist, fails, aux
CONSTANT MaxAttempts
gvars == <<svars, stage, hist, fails, aux>>

Base == [init |-> 0, num |-> 0, den |-> 1, dtmin |-> -1, cap |-> <<>>, miles |-> <<>>, final |-> 0]
GInit == /\ cfg = Base /\ phase = "cfg" /\ t = 0 /\ dt = 0
         /\ stage = 0 /\ hist = <<>> /\ fails = 0
         /\ aux = [kind |-> "source", scale |-> 1, capkind |-> "none", txt |-> <<>>, maxfail |-> 0]

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortedSeq(S \ {m})

Pick == /\ phase = "cfg" /\ stage' = stage + 1 /\ UNCHANGED <<t, hist, fails>>
        /\ \/ /\ stage = 0 /\ \E f \in {5120, 8192, 10240} : cfg' = [cfg EXCEPT !.final = f]
              /\ UNCHANGED <<phase, dt, aux>>
           \/ /\ stage = 1 /\ \E i \in {256, 512, 768, 1024, 3072, 7680, 12288} : cfg' = [cfg EXCEPT !.init = i]
              /\ UNCHANGED <<phase, dt, aux>>
           \/ /\ stage = 2 /\ \E r \in {<<0, 1>>, <<2, 1>>, <<3, 2>>, <<11, 10>>, <<5, 4>>, <<4, 1>>} :
                    cfg' = [cfg EXCEPT !.num = r[1], !.den = r[2]]
              /\ UNCHANGED <<phase, dt, aux>>
           \/ /\ stage = 3 /\ \E m \in {-1, 4, 64, 256, 1024} : cfg' = [cfg EXCEPT !.dtmin = IF cfg.num = 0 THEN -1 ELSE m]
              /\ UNCHANGED <<phase, dt, aux>>
           \/ /\ stage = 4
              /\ \E k \in {<<"none", <<>>>>, <<"const", <<<<0, 400>>>>>>, <<"const", <<<<0, 1536>>>>>>,
                           <<"fn", <<<<0, -1>>, <<2048, 300>>>>>>, <<"fn", <<<<0, 1000>>, <<3000, -1>>>>>>,
                           <<"fn", <<<<0, 2000>>, <<2560, 640>>, <<4096, 1500>>>>>>,
                           <<"tstop", <<<<0, -1>>, <<2560, 320>>>>>>, <<"tstop", <<<<0, -1>>, <<1500, 512>>>>>>} :
                    /\ cfg' = [cfg EXCEPT !.cap = IF cfg.num = 0 THEN <<>> ELSE k[2]]
                    /\ aux' = [aux EXCEPT !.capkind = IF cfg.num = 0 THEN "none" ELSE k[1]]
              /\ UNCHANGED <<phase, dt>>
           \/ /\ stage = 5
              /\ \E S \in {{}, {}, {1024}, {300, 1024, 2560}, {1000, 1001}, {2560, 5120}, {700, 3500, 20000},
                           {512, 1024, 1536, 2048, 4096}, {100, 8000}, {3333}, {2048, 2049, 6000}} :
                  \E on \in BOOLEAN :      \* a milestone where the cap changes
                    cfg' = [cfg EXCEPT !.miles = SortedSeq(S \cup (IF on THEN {cfg.cap[i][1] : i \in DOMAIN cfg.cap} \ {0} ELSE {}))]
              /\ UNCHANGED <<phase, dt, aux>>
           \/ /\ stage = 6
              /\ \E S \in {{}, {}, {}, {900}, {2560, 4100}, {1024, 1500, 30000}} :
                    /\ aux' = [aux EXCEPT !.txt = SortedSeq(S)]
                    /\ cfg' = [cfg EXCEPT !.miles = SortedSeq(Range(cfg.miles) \cup S)]
              /\ UNCHANGED <<phase, dt>>
           \/ /\ stage = 7 /\ \E s \in 1..5, k \in {"source", "dirichlet"} :
                    aux' = [aux EXCEPT !.scale = s, !.kind = k]
              /\ UNCHANGED <<phase, dt, cfg>>
           \/ /\ stage = 8 /\ \E m \in (IF cfg.dtmin < 0 THEN {0, 1} ELSE {0, 1, 3, 6, 7}) : aux' = [aux EXCEPT !.maxfail = m]
              /\ phase' = "ready" /\ dt' = FirstStep(cfg) /\ UNCHANGED cfg

Try == Attempt /\ Len(hist) < MaxAttempts /\ UNCHANGED <<stage, hist, fails, aux>>
Ok == /\ \E nb \in {1, 3, 4, 5, 6, 12} : Converged(nb) /\ hist' = Append(hist, <<nb, 1>>)
      /\ UNCHANGED <<stage, fails, aux>>
Bad == /\ fails < aux.maxfail /\ Diverged
       /\ \E nb \in {0, 2, 4, 5, 30} : hist' = Append(hist, <<nb, 0>>)
       /\ fails' = fails + 1 /\ UNCHANGED <<stage, aux>>
Emit == /\ phase \in {"done", "error"} /\ stage < 100 /\ stage' = 100
        /\ PrintT("GEN " \o ToJson([cfg |-> cfg, aux |-> aux, script |-> hist]))
        /\ UNCHANGED <<svars, hist, fails, aux>>
GNext == Pick \/ Try \/ Ok \/ Bad \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
