------------------------------ MODULE Switching ------------------------------
(* S01: connecting and disconnecting terminals, bus assignments, voltages.  *)
EXTENDS Topo

\* the edges of a voltage level, each one named: a switch id, or an internal connection (no id)
EdgeSet(n, vl) == {[a |-> p[1], b |-> p[2], s |-> ""] : p \in IcPairs(n, vl)}
                  \cup {[a |-> n.st[s].n1, b |-> n.st[s].n2, s |-> s] : s \in SwitchesOf(n, vl)}
NodeHas(n, vl, node, K) == \E t \in TermsIn(n, vl) : NodeOf(n, t) = node /\ n.st[t[1]].k \in K

\* all the simple paths that leave `path` (a sequence of edges) at node `at` and stop at the first busbar section
RECURSIVE PathsFrom(_, _, _, _, _, _, _)
PathsFrom(n, vl, E, bbs, at, seen, path) ==
  UNION {LET to == IF e.a = at THEN e.b ELSE e.a
         IN IF to \in seen THEN {}
            ELSE IF to \in bbs THEN {Append(path, e)}
            ELSE PathsFrom(n, vl, E, bbs, to, seen \cup {to}, Append(path, e))
         : e \in {x \in E : x.a = at \/ x.b = at}}
PathsToBbs(n, v, vl, node) ==
  LET E == {e \in EdgeSet(n, vl) : e.s = "" \/ ~(n.st[e.s].swk = "DISCONNECTOR" /\ n.dy[v][e.s].open)}
      bbs == {x \in Ends(AllEdges(n, vl)) : NodeHas(n, vl, x, {"BBS"})}
  IN PathsFrom(n, vl, E, bbs, node, {node}, <<>>)

IsBreaker(n, e) == e.s # "" /\ n.st[e.s].swk = "BREAKER"
OpenSet(n, v, S, x) == [n EXCEPT !.dy[v] = [id \in DOMAIN @ |-> IF id \in S THEN [@[id] EXCEPT !.open = x] ELSE @[id]]]

NbConnect(n, v, t) ==
  LET P == PathsToBbs(n, v, VlOf(n, t), NodeOf(n, t))
      short == {p \in P : \A q \in P : Len(p) <= Len(q)}
      todo(p) == {p[i].s : i \in {j \in 1..Len(p) : IsBreaker(n, p[j]) /\ n.dy[v][p[j].s].open}}
  IN IF Connected(n, v, t) \/ P = {} THEN OkR(n, FALSE)
     ELSE UNION {OkR(OpenSet(n, v, todo(p), FALSE), todo(p) # {}) : p \in short}

\* the first breaker of every path is opened; a path without a breaker stops the operation
NbDisconnect(n, v, t) ==
  LET P == PathsToBbs(n, v, VlOf(n, t), NodeOf(n, t))
      brk(p) == {i \in 1..Len(p) : IsBreaker(n, p[i])}
      first(p) == p[MinOf(brk(p))].s
      bare == {p \in P : brk(p) = {}}
      stop == MinOf({Len(p) : p \in bare})
      before == {first(p) : p \in {q \in P \ bare : Len(q) < stop}}
      ties == {first(p) : p \in {q \in P \ bare : Len(q) = stop}}
  IN IF ~Connected(n, v, t) \/ P = {} THEN OkR(n, FALSE)
     ELSE IF bare = {} THEN OkR(OpenSet(n, v, {first(p) : p \in P}, TRUE), TRUE)
     ELSE UNION {OkR(OpenSet(n, v, before \cup S, TRUE), FALSE) : S \in SUBSET ties}

SetTd(n, v, t, f, x) == SetDy(n, v, t[1], "t", [n.dy[v][t[1]].t EXCEPT ![t[2]] = [@ EXCEPT ![f] = x]])

DoConDis(n, ev, con) ==
  IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN Nil(n)
  ELSE LET t == <<ev.tc, ev.ti + 1>>
           v == Cur(n, ev.th)
       IN IF v = "" THEN Err(n)
          ELSE IF IsNB(n, VlOf(n, t)) THEN IF con THEN NbConnect(n, v, t) ELSE NbDisconnect(n, v, t)
          ELSE OkR(SetTd(n, v, t, "con", con), TDy(n, v, t).con # con)

DoSetCb(n, ev) ==
  IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN Nil(n)
  ELSE LET t == <<ev.tc, ev.ti + 1>>
           v == Cur(n, ev.th)
           vl == VlOf(n, t)
       IN IF IsNB(n, vl) \/ v = "" \/ ev.bus \notin BusesOf(n, vl) THEN Err(n)
          ELSE Ok(SetTd(n, v, t, "cb", ev.bus))

\* setting the voltage of a bus of a view sets it where it is stored
DoBusV(n, ev) ==
  IF ~IsKind(n, ev.vl, "VL") THEN Nil(n)
  ELSE LET v == Cur(n, ev.th)
           nb == IsNB(n, ev.vl)
           f == ev.f
           bad == f = "v" /\ Lt(ev.x, 0)
           T == TermsIn(n, ev.vl)
           G_ == IF nb THEN IF ev.view = "bv" THEN NbBv(n, v, ev.vl, T) ELSE NbBb(n, v, ev.vl, T)
                 ELSE IF ev.view = "bv" THEN BbBv(n, v, ev.vl, T) ELSE BbBb(n, v, ev.vl, T)
           \* a bus of the bus view of a bus/breaker level is designated through one of its configured buses
           g == IF nb THEN {x \in G_ : NbId(ev.vl, x) = ev.bus} ELSE {x \in G_ : (IF ev.view = "bv" THEN ev.cbus ELSE ev.bus) \in x.m}
           ff == IF f = "v" THEN "v" ELSE IF nb THEN "an" ELSE "ang"
       IN IF v = "" THEN Err(n)
          ELSE IF g = {} THEN Nil(n)
          ELSE LET x == Pick(g)
               IN IF nb
                  THEN IF bad /\ x.t # {} THEN Err(n)
                       ELSE Ok([n EXCEPT !.dy[v] = [id \in DOMAIN @ |->
                              IF \E t \in x.t : t[1] = id
                              THEN [@[id] EXCEPT !.t = [i \in 1..Len(@) |-> IF <<id, i>> \in x.t THEN [@[i] EXCEPT ![ff] = ev.x] ELSE @[i]]]
                              ELSE @[id]]])
                  ELSE IF bad THEN Err(n)
                  ELSE Ok([n EXCEPT !.dy[v] = [id \in DOMAIN @ |-> IF id \in x.m THEN [@[id] EXCEPT ![ff] = ev.x] ELSE @[id]]])
=============================================================================
