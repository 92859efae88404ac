-------------------------------- MODULE Net ---------------------------------
(* Accessors of the network state.                                         *)
EXTENDS Base

EmptyNet ==
  [ st |-> "N" :> [nm |-> "N", fic |-> FALSE, k |-> "NET", fmt |-> "test", fd |-> 0, date |-> "2020-02-03T04:05:06+00:00"],
    dy |-> Init0 :> <<>>,
    al |-> <<>>, pr |-> <<>>,
    mt |-> FALSE, sh |-> Init0, tl |-> [t \in Threads |-> ""],
    ic |-> <<>> ]

Vs(n) == DOMAIN n.dy
\* the variant selected for a thread ("" = none)
Cur(n, th) == IF n.mt THEN n.tl[th] ELSE n.sh
Kind(n, id) == n.st[id].k
Has(n, id) == id \in DOMAIN n.st
IsKind(n, id, k) == id \in DOMAIN n.st /\ n.st[id].k = k

SubKinds == {"LIM", "RL", "RTC", "PTC", "DLGEN", "HALF", "LEG", "EXT"}
\* the identifiable objects (as opposed to their "#" parts)
Ids(n) == {id \in DOMAIN n.st : n.st[id].k \notin SubKinds}
OfKind(n, K) == {id \in DOMAIN n.st : n.st[id].k \in K}

Injections == {"LOAD", "GEN", "BAT", "SHU", "SVC", "DL", "LCC", "VSC", "BBS"}
Branches == {"LINE", "TIE", "T2"}
Connectables == Injections \cup Branches \cup {"T3"}
Lines == {"LINE", "TIE"}
Conns(n) == OfKind(n, Connectables)

\* parts hanging on an object
Suffixes(k) ==
  CASE k \in {"GEN", "BAT", "VSC"} -> {"#rl"}
    [] k = "DL" -> {"#gen", "#rl", "#lim0CURRENT", "#lim0ACTIVE_POWER", "#lim0APPARENT_POWER"}
    [] k = "LINE" -> {"#lim" \o s \o t : s \in {"1", "2"}, t \in {"CURRENT", "ACTIVE_POWER", "APPARENT_POWER"}}
    [] k = "TIE" -> {"#half1", "#half2"} \cup {"#lim" \o s \o t : s \in {"1", "2"}, t \in {"CURRENT", "ACTIVE_POWER", "APPARENT_POWER"}}
    [] k = "T2" -> {"#rtc", "#ptc"} \cup {"#lim" \o s \o t : s \in {"1", "2"}, t \in {"CURRENT", "ACTIVE_POWER", "APPARENT_POWER"}}
    [] k = "T3" -> {"#leg1", "#leg2", "#leg3"} \cup {"#rtc" \o s : s \in {"1", "2", "3"}} \cup {"#ptc" \o s : s \in {"1", "2", "3"}}
                   \cup {"#lim" \o s \o t : s \in {"1", "2", "3"}, t \in {"CURRENT", "ACTIVE_POWER", "APPARENT_POWER"}}
    [] OTHER -> {}
ExtNames == {"detail", "slackTerminal", "branchStatus", "busbarSectionPosition", "position", "activePowerControl",
  "coordinatedReactiveControl", "hvdcAngleDroopActivePowerControl", "hvdcOperatorActivePowerRange",
  "generatorRemoteReactivePowerControl", "twoWindingsTransformerPhaseAngleClock", "threeWindingsTransformerPhaseAngleClock",
  "voltagePerReactivePowerControl", "entsoeArea", "mergedXnode", "xnode", "measurements", "discreteMeasurements"}
ExtId(id, x) == id \o "#ext:" \o x
Parts(n, id) == ({id \o s : s \in Suffixes(n.st[id].k)} \cup {ExtId(id, x) : x \in ExtNames}) \cap DOMAIN n.st

(* Terminals *)
RefOf(id, i) == id \o "/" \o ToString(i - 1)
TermCount(n, id) == Len(n.st[id].ts)
\* all the terminals of the network, as <<id, index>>
Terms(n) == UNION {{<<id, i>> : i \in 1..Len(n.st[id].ts)} : id \in Conns(n)}
TermsIn(n, vl) == {t \in Terms(n) : n.st[t[1]].ts[t[2]].vl = vl}
Ref(t) == RefOf(t[1], t[2])
HasTerm(n, id, i) == id \in DOMAIN n.st /\ n.st[id].k \in Connectables /\ i \in 1..Len(n.st[id].ts)
TermRefs(n) == {Ref(t) : t \in Terms(n)}
VlOf(n, t) == n.st[t[1]].ts[t[2]].vl
NodeOf(n, t) == n.st[t[1]].ts[t[2]].node
TDy(n, v, t) == n.dy[v][t[1]].t[t[2]]
IsNB(n, vl) == n.st[vl].topo = "NODE_BREAKER"
VlsOf(n, sub) == {v \in OfKind(n, {"VL"}) : n.st[v].own = sub}
BusesOf(n, vl) == {b \in OfKind(n, {"BUS"}) : n.st[b].own = vl}
SwitchesOf(n, vl) == {s \in OfKind(n, {"SW"}) : n.st[s].own = vl}
SubOf(n, vl) == n.st[vl].own
VlsOfConn(n, id) == {n.st[id].ts[i].vl : i \in 1..Len(n.st[id].ts)}

\* ids and aliases share one name space
AliasNames(n) == UNION {DOMAIN n.al[id] : id \in DOMAIN n.al}
AliasOwner(n, a) == CHOOSE id \in DOMAIN n.al : a \in DOMAIN n.al[id]
Taken(n, name) == name \in Ids(n) \/ name \in AliasNames(n)
\* the object a name designates, "" when none
Resolve(n, name) == IF name = "" THEN "" ELSE IF name \in AliasNames(n) THEN AliasOwner(n, name)
                    ELSE IF name \in Ids(n) THEN name ELSE ""
RECURSIVE UniqueFrom(_, _, _)
UniqueFrom(n, base, i) == LET c == base \o "#" \o ToString(i) IN IF Taken(n, c) THEN UniqueFrom(n, base, i + 1) ELSE c
Unique(n, base) == IF Taken(n, base) THEN UniqueFrom(n, base, 0) ELSE base

\* number of internal connections between two nodes, in that order
IcOf(n, vl) == IF vl \in DOMAIN n.ic THEN n.ic[vl] ELSE <<>>

\* write a field
SetSt(n, id, f, x) == [n EXCEPT !.st[id] = [@ EXCEPT ![f] = x]]
SetDy(n, v, id, f, x) == [n EXCEPT !.dy[v] = [@ EXCEPT ![id] = [@ EXCEPT ![f] = x]]]
\* add / drop objects
PutSt(n, id, r) == [n EXCEPT !.st = (id :> r) @@ @]
PutDy(n, id, r) == [n EXCEPT !.dy = [v \in DOMAIN @ |-> (id :> r) @@ @[v]]]
Put(n, id, s, d) == PutDy(PutSt(n, id, s), id, d)
Drop(n, I) == [n EXCEPT !.st = Without(@, I), !.dy = [v \in DOMAIN @ |-> Without(@[v], I)],
                        !.al = Without(@, I), !.pr = Without(@, I)]
=============================================================================
