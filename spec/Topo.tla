-------------------------------- MODULE Topo ---------------------------------
(* T01, T02, C01, W01: buses, components and visits derived from the state. *)
EXTENDS Equip

BranchLike == {"LINE", "TIE", "T2", "T3", "LCC", "VSC", "DL"}

-----------------------------------------------------------------------------
(* Node/breaker voltage levels: the graph of one variant                    *)
IcPairs(n, vl) == DOMAIN IcOf(n, vl)
SwEdge(n, s) == <<n.st[s].n1, n.st[s].n2>>
AllEdges(n, vl) == IcPairs(n, vl) \cup {SwEdge(n, s) : s \in SwitchesOf(n, vl)}
ClosedEdges(n, v, vl) == IcPairs(n, vl) \cup {SwEdge(n, s) : s \in {x \in SwitchesOf(n, vl) : ~n.dy[v][x].open}}
BbEdges(n, v, vl) == IcPairs(n, vl) \cup {SwEdge(n, s) : s \in {x \in SwitchesOf(n, vl) : ~n.dy[v][x].open /\ ~n.dy[v][x].ret}}
Ends(E) == {e[1] : e \in E} \cup {e[2] : e \in E}

NbValid(n, T) ==
  LET bbs == Cardinality({t \in T : n.st[t[1]].k = "BBS"})
      fee == Cardinality(T) - bbs
      br == Cardinality({t \in T : n.st[t[1]].k \in BranchLike})
  IN (bbs >= 1 /\ fee >= 1) \/ (br >= 1 /\ fee >= 2)
\* a group of the topology: its members (nodes or configured buses) and the terminals connected there
NbGroup(n, T, g) == [m |-> g, t |-> {t \in T : NodeOf(n, t) \in g}]
NbBv(n, v, vl, T) == {x \in {NbGroup(n, T, g) : g \in Groups(Ends(AllEdges(n, vl)), ClosedEdges(n, v, vl))} : NbValid(n, x.t)}
NbBb(n, v, vl, T) == {NbGroup(n, T, g) : g \in Groups(Ends(AllEdges(n, vl)), BbEdges(n, v, vl))}

(* Bus/breaker voltage levels                                               *)
BbClosed(n, v, vl) == {<<n.st[s].b1, n.st[s].b2>> : s \in {x \in SwitchesOf(n, vl) : ~n.dy[v][x].open}}
BbGroup(n, v, T, g) == [m |-> g, t |-> {t \in T : TDy(n, v, t).con /\ TDy(n, v, t).cb \in g}]
BbValid(n, x) == \E t \in x.t : n.st[t[1]].k \in BranchLike
BbBv(n, v, vl, T) == {x \in {BbGroup(n, v, T, g) : g \in Groups(BusesOf(n, vl), BbClosed(n, v, vl))} : BbValid(n, x)}
BbBb(n, v, vl, T) == {BbGroup(n, v, T, {b}) : b \in BusesOf(n, vl)}

\* the two views of a voltage level in a variant
VlTopo(n, v, vl) ==
  LET T == TermsIn(n, vl)
  IN IF IsNB(n, vl) THEN [bv |-> NbBv(n, v, vl, T), bb |-> NbBb(n, v, vl, T), T |-> T]
     ELSE [bv |-> BbBv(n, v, vl, T), bb |-> BbBb(n, v, vl, T), T |-> T]
NetTopo(n, v) == TLCEval([vl \in OfKind(n, {"VL"}) |-> VlTopo(n, v, vl)])

\* connected in variant v
Connected(n, v, t) ==
  IF IsNB(n, VlOf(n, t)) THEN \E g \in NbBv(n, v, VlOf(n, t), TermsIn(n, VlOf(n, t))) : t \in g.t
  ELSE TDy(n, v, t).con

NbId(vl, g) == vl \o "_" \o ToString(MinOf(g.m))
\* the name of a calculated bus is that of its voltage level, if it has one, with the number that ends its id
NamedAfter(n, vl, b) == LET m == n.st[vl].nm IN IF m = "" THEN b.nm = "" ELSE \E i \in 0..99 : b.id = vl \o "_" \o ToString(i) /\ b.nm = m \o "_" \o ToString(i)
BbvId(n, vl, g) == IF IsNB(n, vl) THEN NbId(vl, g) ELSE Pick(g.m)

-----------------------------------------------------------------------------
(* Comparison with an observed topology o of variant v                      *)
\* what a visitor sees of a terminal
Entry(n, t) ==
  LET k == n.st[t[1]].k
      i == ToString(t[2] - 1)
  IN CASE k \in {"LINE", "TIE"} -> "LINE" \o i \o ":" \o t[1]
       [] k = "T2" -> "T2" \o i \o ":" \o t[1]
       [] k = "T3" -> "T3" \o i \o ":" \o t[1]
       [] OTHER -> k \o ":" \o t[1]
KindEntry(n, t) == LET k == n.st[t[1]].k IN (IF k = "TIE" THEN "LINE" ELSE k) \o ":" \o t[1]
Refs(S) == {Ref(t) : t \in S}
\* L lists f(x) for x in S, with multiplicities
ListsBag(L, S, f(_)) == Len(L) = Cardinality(S) /\ \A x \in S : Count(L, f(x)) = Cardinality({y \in S : f(y) = f(x)})

\* terminals that are or could be connected to the group
Connectable(n, v, vl, g, T) == IF IsNB(n, vl) THEN g.t ELSE {t \in T : TDy(n, v, t).cb \in g.m}

\* values of the voltage of a group
TermV(n, v, t, f) == IF IsNB(n, VlOf(n, t)) THEN TDy(n, v, t)[f]
                     ELSE IF TDy(n, v, t).con THEN n.dy[v][TDy(n, v, t).cb][IF f = "v" THEN "v" ELSE "ang"] ELSE NaN
GroupV(n, v, vl, g, all, f) ==
  IF IsNB(n, vl) THEN IF g.t # {} THEN {TDy(n, v, t)[f] : t \in g.t}
                      ELSE {NaN} \cup {TDy(n, v, t)[f] : t \in all}
  ELSE LET vals == {n.dy[v][b][IF f = "v" THEN "v" ELSE "ang"] : b \in g.m} IN IF vals = {NaN} THEN {NaN} ELSE vals \ {NaN}

\* the powers of a group: the sum over its injections; without terminals they are undefined
PInj == {"LOAD", "GEN", "BAT", "LCC", "VSC"}
QInj == PInj \cup {"SHU", "SVC"}
Small(x) == x > -100000000 /\ x < 100000000
GroupSum(n, v, g, K, f, x) ==
  LET T == {t \in g.t : n.st[t[1]].k \in K /\ Num(TDy(n, v, t)[f])}
      val == [t \in T |-> TDy(n, v, t)[f]]
  IN IF g.t = {} THEN x = NaN
     ELSE (\A t \in T : Small(val[t])) => x = SumSet(T, val)
\* the terminal that represents a group is one of the first non-empty class: busbar sections, other injections, branches, transformers
Rank(n, t) == LET k == n.st[t[1]].k IN CASE k = "BBS" -> 0 [] k \in {"LINE", "TIE", "T2"} -> 2 [] k = "T3" -> 3 [] OTHER -> 1
BestTerms(n, S) == {t \in S : \A u \in S : Rank(n, t) <= Rank(n, u)}

\* one observed bus b against the expected group g
BusTags(n, v, vl, g, T, b, pre) ==
  (IF Lists(b.ts, Refs(g.t)) /\ b.n = Cardinality(g.t) THEN {} ELSE {pre \o ":terms"})
  \cup (IF b.vl = vl /\ b.same THEN {} ELSE {pre \o ":same"})
  \cup (IF b.v \in GroupV(n, v, vl, g, T, "v") /\ b.an \in GroupV(n, v, vl, g, T, "an") THEN {} ELSE {pre \o ":v"})
  \cup (IF GroupSum(n, v, g, PInj, "p", b.p) /\ GroupSum(n, v, g, QInj, "q", b.q) THEN {} ELSE {pre \o ":pq"})
  \cup (IF b.en THEN {} ELSE {pre \o ":const"})
  \cup (IF "ve" \notin DOMAIN b THEN {}
        ELSE LET E(t) == Entry(n, t)
                 K(t) == KindEntry(n, t)
                 C == Connectable(n, v, vl, g, T)
             IN (IF ListsBag(b.ve, g.t, E) THEN {} ELSE {pre \o ":ve"})
                \cup (IF ListsBag(b.vc, C, E) THEN {} ELSE {pre \o ":vc"})
                \cup (IF Lists(b.vt, Refs(g.t)) THEN {} ELSE {pre \o ":vt"})
                \cup (IF b.tf \in (IF g.t = {} THEN {""} ELSE Refs(BestTerms(n, g.t))) THEN {} ELSE {pre \o ":tf"})
                \cup (IF ListsBag(b.ks, {t \in g.t : n.st[t[1]].k # "BBS"}, K) THEN {} ELSE {pre \o ":ks"}))

\* identifier of each group of the bus view, read from the observation for bus/breaker levels (any of VL_0 .. VL_k-1)
BvIds(n, vl, tp, o) ==
  IF IsNB(n, vl) THEN [g \in tp.bv |-> NbId(vl, g)]
  ELSE [g \in tp.bv |-> LET m == {i \in 1..Len(o.bv) : SeqSet(o.bv[i].ts) = Refs(g.t)} IN IF m = {} THEN "?" ELSE o.bv[Pick(m)].id]
IdOf(ids, G_, t) == LET h == {g \in G_ : t \in g.t} IN IF h = {} THEN "" ELSE ids[Pick(h)]

\* the buses a disconnected node may be said to be connectable to
NbConnectable(n, v, vl, node, G_, ids) ==
  LET busy == UNION {g.m : g \in G_}
      E == AllEdges(n, vl)
      free == {e \in E : e[1] \notin busy /\ e[2] \notin busy}
      R == Reach({node}, free)
      F == (Nbr(R, E) \cap busy)
      near == {ids[g] : g \in {x \in G_ : x.m \cap F # {}}}
  IN IF \E g \in G_ : node \in g.m THEN {ids[CHOOSE g \in G_ : node \in g.m]}
     ELSE IF near # {} THEN near ELSE IF G_ = {} THEN {""} ELSE {ids[g] : g \in G_}

VlTags(n, v, vl, tp, o, tt) ==
  LET nb == IsNB(n, vl)
      pre == IF nb THEN "nb" ELSE "bb"
      bvIds == BvIds(n, vl, tp, o)
      bbIds == [g \in tp.bb |-> BbvId(n, vl, g)]
      T == tp.T
      bvBus(g) == {i \in 1..Len(o.bv) : o.bv[i].id = bvIds[g]}
      bbBus(g) == {i \in 1..Len(o.bb) : o.bb[i].id = bbIds[g]}
      groupOfBus(b) == {g \in tp.bv : b \in g.m}
      term(t) ==
        LET x == tt[Ref(t)]
            node == NodeOf(n, t)
            d == TDy(n, v, t)
            con == IF nb THEN \E g \in tp.bv : t \in g.t ELSE d.con
            bv == IdOf(bvIds, tp.bv, t)
            bb == IdOf(bbIds, tp.bb, t)
        IN (IF x.con = con THEN {} ELSE {pre \o ":t:con"})
           \cup (IF x.bv = bv THEN {} ELSE {pre \o ":t:bv"})
           \cup (IF x.bb = bb THEN {} ELSE {pre \o ":t:bb"})
           \cup (IF nb THEN IF x.bvc \in NbConnectable(n, v, vl, node, tp.bv, bvIds) THEN {} ELSE {pre \o ":t:bvc"}
                 ELSE IF x.bvc = (LET h == groupOfBus(d.cb) IN IF h = {} THEN "" ELSE bvIds[Pick(h)]) THEN {} ELSE {pre \o ":t:bvc"})
           \cup (IF nb THEN IF x.bbc \in NbConnectable(n, v, vl, node, tp.bb, bbIds) THEN {} ELSE {pre \o ":t:bbc"}
                 ELSE IF x.bbc = d.cb THEN {} ELSE {pre \o ":t:bbc"})
           \cup (IF x.v = TermV(n, v, t, "v") /\ x.an = TermV(n, v, t, "an") THEN {} ELSE {pre \o ":t:v"})
      ret == {s \in SwitchesOf(n, vl) : n.dy[v][s].ret}
      busAt(node) == LET h == {g \in tp.bb : node \in g.m} IN IF h = {} THEN "" ELSE bbIds[Pick(h)]
  IN (IF Len(o.bv) = Cardinality(tp.bv) /\ \A g \in tp.bv : Cardinality(bvBus(g)) = 1 THEN {} ELSE {pre \o ":bv:set"})
     \cup (IF Len(o.bb) = Cardinality(tp.bb) /\ \A g \in tp.bb : Cardinality(bbBus(g)) = 1 THEN {} ELSE {pre \o ":bb:set"})
     \cup (IF nb \/ {bvIds[g] : g \in tp.bv} = {vl \o "_" \o ToString(i) : i \in 0..(Cardinality(tp.bv) - 1)} THEN {} ELSE {pre \o ":bv:ids"})
     \cup UNION {UNION {BusTags(n, v, vl, g, T, o.bv[i], pre \o ":bv") : i \in bvBus(g)} : g \in tp.bv}
     \cup UNION {UNION {BusTags(n, v, vl, g, T, o.bb[i], pre \o ":bb") : i \in bbBus(g)} : g \in tp.bb}
     \* names: that of the configured bus, or after the voltage level with the suffix of the id
     \cup (IF \A i \in 1..Len(o.bv) : NamedAfter(n, vl, o.bv[i]) THEN {} ELSE {pre \o ":bv:name"})
     \cup (IF \A i \in 1..Len(o.bb) : IF nb THEN NamedAfter(n, vl, o.bb[i])
                                     ELSE o.bb[i].id \in DOMAIN n.st /\ o.bb[i].nm = n.st[o.bb[i].id].nm THEN {} ELSE {pre \o ":bb:name"})
     \cup (IF nb THEN {} ELSE UNION {UNION {(IF o.bb[i].mb = (LET h == groupOfBus(bbIds[g]) IN IF h = {} THEN "" ELSE bvIds[Pick(h)]) THEN {} ELSE {"bb:mb"}) : i \in bbBus(g)} : g \in tp.bb})
     \cup (IF o.cst THEN {} ELSE {pre \o ":const"})
     \cup (IF o.ghost THEN {pre \o ":ghost"} ELSE {})
     \cup UNION {(IF Ref(t) \in DOMAIN tt THEN term(t) ELSE {pre \o ":t:missing"}) : t \in T}
     \cup (IF ~nb THEN {}
           ELSE (IF Lists(o.bbsw, ret) /\ o.bbswn = Cardinality(ret) THEN {} ELSE {"nb:bbsw"})
                \cup (IF DOMAIN o.sw = ret /\ \A s \in ret : o.sw[s].b1 = busAt(n.st[s].n1) /\ o.sw[s].b2 = busAt(n.st[s].n2) THEN {} ELSE {"nb:swbus"})
                \cup (LET N == Ends(AllEdges(n, vl))
                          at(x) == {t \in T : ToString(NodeOf(n, t)) = x}
                      IN IF /\ \A x \in DOMAIN o.nodes : o.nodes[x] = (IF at(x) = {} THEN "" ELSE Ref(Pick(at(x))))
                            /\ {ToString(x) : x \in N} \cup {ToString(NodeOf(n, t)) : t \in T} \subseteq DOMAIN o.nodes
                         THEN {} ELSE {"nb:nodes"}))
     \cup (IF "ve" \in DOMAIN o THEN LET E(t) == Entry(n, t) IN IF ListsBag(o.ve, T, E) THEN {} ELSE {pre \o ":vl:ve"} ELSE {})

CheckTopo(n, v, o) ==
  LET vls == OfKind(n, {"VL"})
      tps == NetTopo(n, v)
  IN IF DOMAIN o.vl # vls THEN {"tp:vls"}
     ELSE UNION {VlTags(n, v, vl, tps[vl], o.vl[vl], o.tt) : vl \in vls}
          \cup (LET bv == UNION {{BvIds(n, vl, tps[vl], o.vl[vl])[g] : g \in tps[vl].bv} : vl \in vls}
                    bb == UNION {{BbvId(n, vl, g) : g \in tps[vl].bb} : vl \in vls}
                IN (IF Lists(o.nbv, bv) THEN {} ELSE {"tp:nbv"}) \cup (IF Lists(o.nbb, bb) THEN {} ELSE {"tp:nbb"}))
          \cup (IF o.same THEN {} ELSE {"tp:same"})
          \cup (IF DOMAIN o.tt = TermRefs(n) THEN {} ELSE {"tp:tt"})

\* switches of the network's bus/breaker view in the working variant
BbvSwitches(n, v) == {s \in OfKind(n, {"SW"}) : IsNB(n, n.st[s].own) => n.dy[v][s].ret}
CheckBbvSwitches(n, v, o) == IF ListOk(o["N:BBVSW"], BbvSwitches(n, v)) THEN {} ELSE {"ls:N:BBVSW"}

-----------------------------------------------------------------------------
(* Components of the buses of the bus view                                  *)
Pairs(S) == {<<x, y>> : x, y \in S}
Links(n, buses, hvdc) ==
  LET at(t) == {b \in buses : t \in b.t}
      conn(id) == UNION {at(<<id, i>>) : i \in 1..Len(n.st[id].ts)}
  IN UNION {Pairs(conn(id)) : id \in OfKind(n, {"LINE", "TIE", "T2", "T3"})}
     \cup (IF hvdc THEN UNION {Pairs(at(<<n.st[h].c1, 1>>) \cup at(<<n.st[h].c2, 1>>)) : h \in OfKind(n, {"HVDC"})} ELSE {})
\* (a bus of the bus view always has terminals, which identify it)
AllBuses(n, tps) == UNION {{[vl |-> vl, t |-> g.t] : g \in tps[vl].bv} : vl \in DOMAIN tps}
ComponentsOf(n, tps, hvdc) == LET B == AllBuses(n, tps) IN TLCEval(Groups(B, TLCEval(Links(n, B, hvdc))))

\* one observed list of components against the expected partition (sets of bus ids)
CompTags(L, P, pre) ==
  LET nums == {L[i].num : i \in 1..Len(L)}
  IN (IF Len(L) = Cardinality(P) /\ nums = 0..(Len(L) - 1) THEN {} ELSE {pre \o ":nums"})
     \cup (IF \A i \in 1..Len(L) : SeqSet(L[i].b) \in P /\ Len(L[i].b) = L[i].size /\ Cardinality(SeqSet(L[i].b)) = L[i].size THEN {} ELSE {pre \o ":members"})
     \cup (IF \A i, j \in 1..Len(L) : L[i].num < L[j].num => L[i].size >= L[j].size THEN {} ELSE {pre \o ":order"})
NumOf(L, id) == LET h == {i \in 1..Len(L) : id \in SeqSet(L[i].b)} IN IF h = {} THEN -1 ELSE L[Pick(h)].num

CheckComp(n, v, o, tpo) ==
  LET tps == NetTopo(n, v)
      vls == DOMAIN tps
  IN IF DOMAIN tpo.vl # vls THEN {"cp:vls"}
     ELSE
     LET id == TLCEval([b \in AllBuses(n, tps) |->
                LET g == CHOOSE g \in tps[b.vl].bv : g.t = b.t IN BvIds(n, b.vl, tps[b.vl], tpo.vl[b.vl])[g]])
         cc == {{id[g] : g \in c} : c \in ComponentsOf(n, tps, TRUE)}
         sc == {{id[g] : g \in c} : c \in ComponentsOf(n, tps, FALSE)}
         ids == {id[g] : g \in DOMAIN id}
         good(x, b) == /\ x.c = (IF b = "" THEN -1 ELSE NumOf(o.cc, b)) /\ x.s = (IF b = "" THEN -1 ELSE NumOf(o.sc, b))
                       /\ x.mc = (x.c = 0) /\ x.ms = (x.s = 0)
         bbs == UNION {{<<vl, g>> : g \in tps[vl].bb} : vl \in vls}
         \* the bus of the bus view a bus of the bus/breaker view belongs to
         host(p) == LET h == {g \in tps[p[1]].bv : p[2].m \subseteq g.m} IN IF h = {} THEN "" ELSE id[[vl |-> p[1], t |-> Pick(h).t]]
     IN (IF o.cst THEN {} ELSE {"cp:const"}) \cup CompTags(o.cc, cc, "cc") \cup CompTags(o.sc, sc, "sc")
        \cup (IF DOMAIN o.bus = ids /\ \A b \in ids : good(o.bus[b], b) THEN {} ELSE {"cp:bus"})
        \cup (IF DOMAIN o.bb = {BbvId(n, p[1], p[2]) : p \in bbs} /\ \A p \in bbs : good(o.bb[BbvId(n, p[1], p[2])], host(p)) THEN {} ELSE {"cp:bb"})
=============================================================================
