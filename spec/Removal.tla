------------------------------- MODULE Removal -------------------------------
(* R01: what is removed goes away entirely; what is in use stays.           *)
EXTENDS Switching

WithParts(n, I) == I \cup UNION {Parts(n, x) : x \in I}
\* free converter stations of removed HVDC lines
Detach(n, I) == [n EXCEPT !.st = [x \in DOMAIN @ |-> IF @[x].k \in {"LCC", "VSC"} /\ @[x].hl \in I THEN [@[x] EXCEPT !.hl = ""] ELSE @[x]]]
DropAll(n, I) == Drop(Detach(n, I), WithParts(n, I))

VlContent(n, vl) == {id \in Conns(n) : vl \in VlsOfConn(n, id)} \cup SwitchesOf(n, vl) \cup BusesOf(n, vl) \cup {vl}
VlFree(n, vl) == \A id \in Conns(n) : vl \in VlsOfConn(n, id) =>
                   /\ n.st[id].k \notin {"LINE", "TIE", "T2", "T3"}
                   /\ (n.st[id].k \in {"LCC", "VSC"} => n.st[id].hl = "")
DropVl(n, V) == [n EXCEPT !.ic = Without(@, V)]

HvdcVls(n, h) == VlsOfConn(n, n.st[h].c1) \cup VlsOfConn(n, n.st[h].c2)

DoRemove(n, ev) ==
  IF ev.own # ""
  THEN \* a tap changer
       LET key == IF Has(n, ev.id) THEN ev.id ELSE "" IN IF key = "" THEN Nil(n) ELSE Ok(Drop(n, {key}))
  ELSE LET id == Resolve(n, ev.id)
       IN IF id = "" THEN Nil(n)
          ELSE LET k == n.st[id].k
               IN IF k \in {"LCC", "VSC"} /\ n.st[id].hl # "" THEN Err(n)
                  ELSE IF k \in Connectables \cup {"HVDC"} THEN Ok(DropAll(n, {id}))
                  ELSE IF k = "VL" THEN IF VlFree(n, id) THEN Ok(DropVl(DropAll(n, VlContent(n, id)), {id})) ELSE Err(n)
                  ELSE IF k = "SUB"
                  THEN LET V == VlsOf(n, id)
                           leaves(W) == W \cap V # {} /\ ~(W \subseteq V)
                       IN IF \/ \E c \in Conns(n) : leaves(VlsOfConn(n, c))
                             \/ \E h \in OfKind(n, {"HVDC"}) : leaves(HvdcVls(n, h))
                          THEN Err(n)
                          ELSE Ok(DropVl(DropAll(n, {id} \cup UNION {VlContent(n, x) : x \in V}
                                                     \cup {h \in OfKind(n, {"HVDC"}) : HvdcVls(n, h) \cap V # {}}), V))
                  ELSE Nil(n)

DoRmSwitch(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE IF ev.id \notin SwitchesOf(n, ev.vl) THEN Err(n) ELSE Ok(DropAll(n, {ev.id}))
DoRmAllSwitches(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE IF IsNB(n, ev.vl) THEN Err(n) ELSE Ok(DropAll(n, SwitchesOf(n, ev.vl)))
\* a bus some terminal is attached to (in any variant) or some switch ends at stays
BusUsed(n, b) == \/ \E t \in TermsIn(n, n.st[b].own) : \E v \in Vs(n) : TDy(n, v, t).cb = b
                 \/ \E s \in SwitchesOf(n, n.st[b].own) : b \in {n.st[s].b1, n.st[s].b2}
DoRmBus(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE IF IsNB(n, ev.vl) \/ ev.id \notin BusesOf(n, ev.vl) THEN Err(n)
  ELSE IF BusUsed(n, ev.id) THEN Err(n) ELSE Ok(DropAll(n, {ev.id}))
DoRmAllBuses(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE IF IsNB(n, ev.vl) \/ SwitchesOf(n, ev.vl) # {} \/ TermsIn(n, ev.vl) # {} THEN Err(n)
  ELSE Ok(DropAll(n, BusesOf(n, ev.vl)))
DoRmIc(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE LET f == IcOf(n, ev.vl)
           K == {<<ev.n1, ev.n2>>, <<ev.n2, ev.n1>>} \cap DOMAIN f
       IN IF ~IsNB(n, ev.vl) \/ K = {} THEN Err(n)
          ELSE Ok([n EXCEPT !.ic[ev.vl] = Without(@, K)])
=============================================================================
