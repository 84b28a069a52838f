------------------------------ MODULE RulesGen ------------------------------
(* A sound configuration, then zero to two mistakes.                          *)
EXTENDS Rules, TLC, Json
VARIABLES k, c, left
vars == <<k, c, left>>
R(X) == RandomElement(X)
W(s) == s[R(DOMAIN s)]
MatOf(ids, S, kk, tr, q, bb) == [id |-> ids, S |-> S, k |-> kk, cp |-> tr, rho |-> tr, Q |-> q, b |-> bb, law |-> "sievert"]
Bc(kd, sf, f) == [kind |-> kd, surf |-> sf, f |-> f, sp |-> R({0, 1, 2})]
Sound(z0) ==
  LET dim == TLCEval(W(<<1, 1, 1, 1, 2, 3>>))
      temp == TLCEval(W(<<"given", "given", "heatT", "heatS">>))
      st == TLCEval(IF temp = "heatT" THEN FALSE ELSE W(<<TRUE, FALSE>>))
      chem == TLCEval(W(<<TRUE, FALSE, FALSE>>))
      nm == TLCEval(R({1, 2, 3}))
      S == TLCEval(chem \/ R(BOOLEAN))  kk == TLCEval(temp # "given" \/ W(<<TRUE, FALSE, FALSE>>))
      tr == TLCEval(temp = "heatT" \/ (kk /\ R(BOOLEAN)))  q == TLCEval(R(BOOLEAN))
      bb == TLCEval(nm > 1 \/ R(BOOLEAN))
      nt == TLCEval(W(<<0, 0, 1, 2>>))
      tm(z) == IF nm = 1 THEN <<1>> ELSE R({<<1>>, <<2>>, <<1, 2>>, <<2, 1>>})
      heat == temp # "given"
      \* conditions on the mobile field; each surface has one exclusive or any number of fluxes
      hb == IF heat THEN W(<< <<Bc("dc", <<1>>, 100)>>, <<Bc("dc", <<2>>, 100), Bc("conv", <<1>>, 100)>>, <<Bc("flux", <<1>>, 100), Bc("conv", <<1, 2>>, 100)>> >>) ELSE <<>>
      mb == W(<< <<Bc("dc", <<1>>, 0)>>, <<Bc("dc", <<2, 1>>, 0)>>, <<Bc("imp", <<1>>, 0), Bc("flux", <<2>>, 0), Bc("recomb", <<2>>, 0)>>,
                 <<Bc("recomb", <<1, 2>>, 0), Bc("flux", <<1>>, 0)>>, <<Bc(IF dim = 1 THEN "sk" ELSE "dc", <<1>>, 0), Bc("dc", <<2>>, 0)>>,
                 <<Bc(IF dim = 1 THEN "sk" ELSE "flux", <<2, 1>>, 0)>>, <<>> >>)
      tb == IF nt = 0 THEN <<>> ELSE W(<< <<>>, <<Bc("dc", <<1, 2>>, 1)>>, <<Bc("dc", <<1>>, nt)>> >>)
  IN  [steady |-> st, dt |-> ~st, final |-> ~st, temp |-> temp, tic |-> temp = "heatT", dim |-> dim,
       type |-> IF dim = 1 THEN R({"cartesian", "cartesian", "cylindrical", "spherical"}) ELSE IF dim = 2 THEN R({"cartesian", "cylindrical"}) ELSE "cartesian",
       chem |-> chem, mats |-> [m \in 1..nm |-> MatOf(IF m = 3 THEN <<5, 6>> ELSE <<m>>, S, kk, tr, q, bb)],
       traps |-> [z \in 1..nt |-> tm(z)], bcs |-> TLCEval(W(<<hb \o mb \o tb, tb \o mb \o hb, mb \o hb \o tb>>)),
       srcs |-> W(<< <<>>, <<0>>, <<0, nt>>, IF heat THEN <<100>> ELSE <<0>> >>), ads |-> <<>>, byname |-> R(BOOLEAN)]
\* AdsorbedHydrogen on surfaces that have kinetics
SkSurfs(x) == UNION {Rn(b.surf) : b \in {b \in Rn(x.bcs) : b.kind = "sk"}}
WithAds(x) == IF SkSurfs(x) = {} \/ R(BOOLEAN) THEN x ELSE [x EXCEPT !.ads = <<R(SkSurfs(x))>>]
Mistakes == <<"dt", "final", "notemp", "tic", "heatsrc", "heatbc", "field", "overlap", "overlap", "overlap", "skdim", "ads", "mesh", "prop", "prop", "noprop", "borders",
              "ids", "trapname", "trapdup", "henry", "none">>
Err(x, m) ==
  LET i == TLCEval(R(DOMAIN x.mats)) IN
  CASE m = "dt" -> [x EXCEPT !.dt = ~@]
    [] m = "final" -> [x EXCEPT !.final = FALSE]
    [] m = "notemp" -> [x EXCEPT !.temp = "none"]
    [] m = "tic" -> [x EXCEPT !.tic = FALSE]
    [] m = "heatsrc" -> [x EXCEPT !.srcs = Append(@, 100)]
    [] m = "heatbc" -> [x EXCEPT !.bcs = Append(@, Bc("flux", <<1>>, 100))]
    [] m = "field" -> [x EXCEPT !.bcs = Append(@, Bc("dc", <<R({1, 2})>>, R({-1, Len(x.traps) + 1})))]
    [] m = "overlap" -> [x EXCEPT !.bcs = Append(@, Bc(R({"dc", "flux", "recomb"} \cup (IF x.dim = 1 THEN {"sk"} ELSE {})), R({<<1>>, <<2>>, <<1, 2>>}), 0))]
    [] m = "skdim" -> [x EXCEPT !.bcs = Append(@, Bc("sk", <<R({1, 2})>>, 0))]
    [] m = "ads" -> [x EXCEPT !.ads = Append(@, R({1, 2}))]
    [] m = "mesh" -> [x EXCEPT !.type = R({"spherical", "cylindrical"})]
    [] m = "prop" -> LET p == TLCEval(R({"S", "k", "cp", "rho", "Q"})) IN [x EXCEPT !.mats[i][p] = ~@]
    [] m = "noprop" -> LET p == TLCEval(R({"k", "cp", "rho"})) IN [x EXCEPT !.mats = [z \in DOMAIN x.mats |-> [x.mats[z] EXCEPT ![p] = FALSE]]]
    [] m = "borders" -> [x EXCEPT !.mats[i].b = FALSE]
    [] m = "ids" -> [x EXCEPT !.mats[i].id = IF i = 3 THEN R({<<5, 1>>, <<2, 6>>, <<1, 2>>}) ELSE <<R({1, 2, 5})>>]
    [] m = "trapname" -> IF x.traps = <<>> THEN x ELSE [x EXCEPT !.traps[1] = Append(@, 0)]
    [] m = "trapdup" -> IF x.traps = <<>> THEN x ELSE [x EXCEPT !.traps[Len(x.traps)] = Append(@, @[1])]
    [] m = "henry" -> [x EXCEPT !.mats[i].law = "henry"]
    [] OTHER -> x
\* combinations the rules say nothing about
Outside(x) == \/ x.chem /\ \E m \in Rn(x.mats) : ~m.S
              \/ x.steady /\ x.temp = "heatT"
              \/ x.dim = 1 /\ x.type # "cartesian" /\ x.temp \in {"heatT", "heatS"}
              \/ \E m \in Rn(x.mats) : x.dim = 1 /\ Len(m.id) > 1 /\ ~m.b
              \/ x.temp \in {"given", "none"} /\ \E m \in Rn(x.mats) : (m.cp \/ m.rho) /\ ~m.k
Init == k = 0 /\ c = <<>> /\ left = 0
Next == \/ k = 0 /\ \E x \in {WithAds(Sound(TLCGet("level")))} : c' = x /\ k' = 1 /\ left' = W(<<0, 1, 1, 2>>)
        \/ k = 1 /\ left > 0 /\ left' = left - 1 /\ k' = k /\ \E m \in {W(Mistakes)} : \E x \in {Err(c, m)} : c' = x
        \/ k = 1 /\ left = 0 /\ k' = 2 /\ UNCHANGED <<c, left>>
           /\ (Outside(c) \/ PrintT("GEN " \o ToJson([c |-> c])))
Spec == Init /\ [][Next]_vars
=============================================================================
