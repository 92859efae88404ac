------------------------------- MODULE Query --------------------------------
(* W01, L01, Q01, M01: read-only questions.  Check* yields the set of tags that   *)
(* tell where an observed answer departs from what the state implies.       *)
EXTENDS Electric

-----------------------------------------------------------------------------
(* Traversal from a terminal, following the traverser's decisions           *)
\* a vertex: <<vl, node>> (node/breaker) or <<vl, bus>> (bus/breaker), as strings
VertexOf(n, v, t) == IF IsNB(n, VlOf(n, t)) THEN [vl |-> VlOf(n, t), x |-> ToString(NodeOf(n, t))]
                     ELSE [vl |-> VlOf(n, t), x |-> TDy(n, v, t).cb]
TravEdges(n) == \* <<end, end, switch or "">>
  UNION {IF IsNB(n, vl) THEN {[a |-> [vl |-> vl, x |-> ToString(e.a)], b |-> [vl |-> vl, x |-> ToString(e.b)], s |-> e.s] : e \in EdgeSet(n, vl)}
         ELSE {[a |-> [vl |-> vl, x |-> n.st[s].b1], b |-> [vl |-> vl, x |-> n.st[s].b2], s |-> s] : s \in SwitchesOf(n, vl)}
         : vl \in OfKind(n, {"VL"})}
OtherSides(n, t) == IF n.st[t[1]].k \in Branches \cup {"T3"} THEN {<<t[1], i>> : i \in (1..Len(n.st[t[1]].ts)) \ {t[2]}} ELSE {}

\* the least state [t: visited terminals, x: expanded vertices] closed under the traversal rules
RECURSIVE TravFix(_, _, _, _, _, _)
TravFix(n, v, E, ok, okS, s) ==
  LET acc == s.t \cap ok
      \* a visited terminal that is accepted opens its vertex and the other sides of its equipment
      x1 == s.x \cup {VertexOf(n, v, t) : t \in acc}
      near == {e.b : e \in {f \in E : f.a \in x1 /\ (f.s = "" \/ f.s \in okS)}} \cup {e.a : e \in {f \in E : f.b \in x1 /\ (f.s = "" \/ f.s \in okS)}}
      at(y) == {t \in Terms(n) : VertexOf(n, v, t) = y}
      \* a vertex reached through an accepted edge: its terminals are visited; it is crossed when it has none, or through
      \* any of its terminals that is accepted
      x2 == x1 \cup {y \in near : at(y) = {}}
      busT == {t \in Terms(n) : ~IsNB(n, VlOf(n, t)) /\ VertexOf(n, v, t) \in x2}
      t2 == s.t \cup UNION {at(y) : y \in near} \cup UNION {OtherSides(n, t) : t \in acc} \cup busT
      r == [t |-> t2, x |-> x2]
  IN IF r = s THEN s ELSE TravFix(n, v, E, ok, okS, TLCEval(r))

QTravTags(n, ev, r) ==
  IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN {"res"}
  ELSE LET v == Cur(n, ev.th)
           t0 == <<ev.tc, ev.ti + 1>>
           E == TLCEval(TravEdges(n))
           ok == {t \in Terms(n) : Ref(t) \notin SeqSet(ev.stopT)}
           okS == {s \in OfKind(n, {"SW"}) : s \notin SeqSet(ev.stopS) /\ (ev.closed => ~n.dy[v][s].open)}
           f == TravFix(n, v, E, ok, okS, [t |-> {t0}, x |-> {}])
           want == Refs(f.t)
           again == {Ref(t) \o "+" : t \in f.t \ ok}
           con(t) == IF IsNB(n, VlOf(n, t)) THEN TRUE ELSE TDy(n, v, t).con
           inc == {e.s : e \in {x \in E : x.s # "" /\ (x.a \in f.x \/ x.b \in f.x)}}
           one == {e.s : e \in {x \in E : x.s # "" /\ ((x.a \in f.x) # (x.b \in f.x))}}
       IN (IF want \subseteq DOMAIN r.t /\ DOMAIN r.t \subseteq want \cup again THEN {} ELSE {"q:trav:t"})
          \cup (IF \A t \in f.t : Ref(t) \in DOMAIN r.t => r.t[Ref(t)] = con(t) THEN {} ELSE {"q:trav:con"})
          \cup (IF one \subseteq DOMAIN r.s /\ DOMAIN r.s \subseteq inc THEN {} ELSE {"q:trav:s"})

EdgeName(x, s, y) == ToString(x) \o ">" \o s \o ">" \o ToString(y)
QNtravTags(n, ev, r) ==
  LET v == Cur(n, ev.th)
      E == EdgeSet(n, ev.vl)
      dir == {[a |-> e.a, b |-> e.b, s |-> e.s] : e \in E} \cup {[a |-> e.b, b |-> e.a, s |-> e.s] : e \in E}
      ok(e) == e.b \notin SeqSet(ev.stopN) /\ (e.s = "" \/ ~ev.closed \/ ~n.dy[v][e.s].open)
      RECURSIVE Exp(_)
      Exp(S) == LET T == S \cup {e.b : e \in {d \in dir : d.a \in S /\ ok(d)}} IN IF T = S THEN S ELSE Exp(T)
      R == Exp({ev.node})
      seen == {d \in dir : EdgeName(d.a, d.s, d.b) \in DOMAIN r.e}
  IN (IF DOMAIN r.e \subseteq {EdgeName(d.a, d.s, d.b) : d \in {x \in dir : x.a \in R}} THEN {} ELSE {"q:ntrav:extra"})
     \cup (IF \A d \in dir : d.a \in R /\ d.b \notin R => EdgeName(d.a, d.s, d.b) \in DOMAIN r.e THEN {} ELSE {"q:ntrav:border"})
     \cup (IF \A x \in R \ {ev.node} : \E d \in seen : d.b = x /\ ok(d) /\ d.a \in R THEN {} ELSE {"q:ntrav:reach"})

\* the terminals electrically the same as a node: reached through closed edges and nodes without terminal
QEqt(n, ev) ==
  LET v == Cur(n, ev.th)
      E == {p \in ClosedEdges(n, v, ev.vl) : TRUE}
      T == TermsIn(n, ev.vl)
      bare(x) == ~\E t \in T : NodeOf(n, t) = x
      RECURSIVE Exp(_)
      Exp(S) == LET U == S \cup {x \in Nbr(S, E) : bare(x)} IN IF U = S THEN S ELSE Exp(U)
      R == Exp({ev.node})
  IN {Ref(t) : t \in {u \in T : NodeOf(n, u) \in Nbr(R, E) /\ NodeOf(n, u) # ev.node}}

QNodes(n, ev) ==
  LET v == Cur(n, ev.th)
      G_ == NbBv(n, v, ev.vl, TermsIn(n, ev.vl))
  IN [b \in {NbId(ev.vl, g) : g \in G_} |-> LET g == CHOOSE x \in G_ : NbId(ev.vl, x) = b
                                             IN [x \in {ToString(y) : y \in g.m} |-> 1]]

-----------------------------------------------------------------------------
(* Limits.  Comparisons are exact: the generator keeps values where neither *)
(* side of a comparison needs rounding.                                     *)
LimKey(id, side, ty) == id \o "#lim" \o ToString(side) \o ty
\* The flow a limit is compared with: the observed current i (in mA) for CURRENT limits (QITags judges the current
\* itself), P or S otherwise.  red is in eighths.
Sq(x) == x * x
Flow(n, v, t, ty, i) ==
  LET d == TDy(n, v, t)
  IN CASE ty = "ACTIVE_POWER" -> IF Num(d.p) /\ Abs(d.p) < 100000000 THEN d.p * 8 ELSE IF Num(d.p) THEN PosInf ELSE NaN
       [] ty = "APPARENT_POWER" -> IF ~Num(d.p) \/ ~Num(d.q) THEN NaN ELSE IF Abs(d.p) <= 32000 /\ Abs(d.q) <= 32000 THEN Sq(d.p) + Sq(d.q) ELSE PosInf
       [] OTHER -> i
\* the least flow that reaches a limit, in the unit of the flow (64ths of MW, 64ths of MVA^2, mA)
LimVal(lim, red, ty) ==
  IF ~Num(lim) THEN NaN
  ELSE IF lim >= 16000000 THEN PosMax
  ELSE LET L == lim * red
           a == L \div 8
           b == L % 8
       IN CASE ty = "ACTIVE_POWER" -> L
            [] ty = "APPARENT_POWER" -> IF a > 45000 THEN PosMax ELSE Sq(a) + ((16 * a * b + b * b + 63) \div 64)
            [] OTHER -> a * 125 + (b * 125) \div 8
Exceeds(lim, red, ty, flow) == Num(lim) /\ Num(flow) /\ flow >= LimVal(lim, red, ty)
ExceedsPermanent(n, id, side, ty, red, flow) ==
  LET key == LimKey(id, side, ty) IN Has(n, key) /\ Exceeds(n.st[key].perm, red, ty, flow)
\* the first temporary limit (longest duration first) whose range [previous limit, own value[ holds the flow
TempOverload(n, id, side, ty, red, flow) ==
  LET key == LimKey(id, side, ty)
      s == n.st[key]
      prev(i) == IF i = 1 THEN s.perm ELSE s.temps[i - 1].v
      hit == IF Has(n, key) /\ Num(s.perm) /\ Num(flow)
             THEN {i \in 1..Len(s.temps) : Exceeds(prev(i), red, ty, flow) /\ ~Exceeds(s.temps[i].v, red, ty, flow)} ELSE {}
  IN IF hit = {} THEN <<>>
     ELSE LET i == MinOf(hit)
          IN [nm |-> s.temps[i].nm, v |-> s.temps[i].v, d |-> s.temps[i].d,
              pn |-> IF i = 1 THEN "" ELSE s.temps[i - 1].nm, pv |-> prev(i)]
\* a current too close to a limit for the comparison to be judged from its rounded value
Tie(n, id, side, red, i) ==
  LET key == LimKey(id, side, "CURRENT")
      near(lim) == Num(lim) /\ Num(i) /\ Abs(LimVal(lim, red, "CURRENT") - i) <= 2
  IN Has(n, key) /\ (near(n.st[key].perm) \/ \E k \in 1..Len(n.st[key].temps) : near(n.st[key].temps[k].v))
Durations(n, id, red, i) == {o.d : o \in {x \in {TempOverload(n, id, side, "CURRENT", red, i[side]) : side \in {1, 2}} : x # <<>>}}
Shortest(S) == IF S \ {-1} = {} THEN -1 ELSE MinOf(S \ {-1})

-----------------------------------------------------------------------------
(* Reactive limits and shunt models                                         *)
QRlTags(n, ev, r) ==
  LET s == n.st[ev.id \o "#rl"]
      on(x, y0, y1, x0, x1) == \* x*... is on the segment: (r - y0) * (x1 - x0) = (y1 - y0) * (p - x0)
        (x - y0) * (x1 - x0) = (y1 - y0) * (ev.p - x0)
      sharp == r.x \* equal to the last digit, not up to the rounding of the interpolation
  IN IF s.rlk = "MIN_MAX" THEN IF sharp /\ r.min = s.minQ /\ r.max = s.maxQ THEN {} ELSE {"q:rl:minmax"}
     ELSE IF ~sharp /\ \E j \in 1..Len(s.pts) : s.pts[j].p = ev.p THEN {"q:rl:point"}
     ELSE LET P == s.pts
              k == Len(P)
          IN IF ev.p <= P[1].p THEN IF sharp /\ r.min = P[1].minQ /\ r.max = P[1].maxQ THEN {} ELSE {"q:rl:low"}
             ELSE IF ev.p >= P[k].p THEN IF sharp /\ r.min = P[k].minQ /\ r.max = P[k].maxQ THEN {} ELSE {"q:rl:high"}
             ELSE LET i == CHOOSE j \in 1..(k - 1) : P[j].p <= ev.p /\ ev.p < P[j + 1].p
                      exact == \A f \in {"minQ", "maxQ"} : ((P[i + 1][f] - P[i][f]) * (ev.p - P[i].p)) % (P[i + 1].p - P[i].p) = 0
                      d == P[i + 1].p - P[i].p
                      \* a value off the lattice is told by the eighth below it
                      below(x, y0, y1) == LET v == (y1 - y0) * (ev.p - P[i].p) + y0 * d IN x * d <= v /\ v < (x + 1) * d
                  IN IF IF exact THEN on(r.min, P[i].minQ, P[i + 1].minQ, P[i].p, P[i + 1].p) /\ on(r.max, P[i].maxQ, P[i + 1].maxQ, P[i].p, P[i + 1].p)
                        ELSE below(r.fmin, P[i].minQ, P[i + 1].minQ) /\ below(r.fmax, P[i].maxQ, P[i + 1].maxQ)
                     THEN {} ELSE {"q:rl:in"}

QShu(n, ev) ==
  LET m == n.st[ev.id].model
  IN IF m.t = "LINEAR" THEN [b |-> m.bps * ev.n, g |-> IF Num(m.gps) THEN m.gps * ev.n ELSE 0]
     ELSE IF ev.n = 0 THEN [b |-> 0, g |-> 0] ELSE [b |-> m.secs[ev.n].b, g |-> m.secs[ev.n].g]

-----------------------------------------------------------------------------
\* the outcome a question must have: "ok", "err" or "nil"
QRes(n, ev) ==
  LET cur == Cur(n, ev.th)
  IN CASE ev.op = "q.find" -> "ok"
       [] ev.op = "q.trav" -> IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN "nil" ELSE IF cur = "" THEN "err" ELSE "ok"
       [] ev.op \in {"q.ntrav", "q.eqt", "q.nodes"} ->
            IF ~IsKind(n, ev.vl, "VL") THEN "nil" ELSE IF ~IsNB(n, ev.vl) \/ cur = "" THEN "err"
            ELSE IF ev.op = "q.nodes" \/ ev.node \in Ends(AllEdges(n, ev.vl)) \cup {NodeOf(n, t) : t \in TermsIn(n, ev.vl)} THEN "ok" ELSE "any"
       [] ev.op \in {"q.lim", "q.ovl"} -> IF ~Has(n, ev.id) \/ Kind(n, ev.id) \notin Branches THEN "nil"
                                          ELSE IF cur = "" THEN "any" ELSE "ok"
       [] ev.op = "q.i" -> IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN "nil" ELSE IF cur = "" THEN "any" ELSE "ok"
       [] ev.op = "q.sv" -> IF ~SvKind(n, ev) THEN "nil" ELSE IF cur = "" THEN "any" ELSE "ok"
       [] ev.op = "q.bnd" -> IF ~HasBoundary(n, ev) THEN "nil" ELSE IF cur = "" THEN "err" ELSE "ok"
       [] ev.op = "q.rl" -> IF ~Has(n, ev.id \o "#rl") THEN "nil" ELSE "ok"
       [] ev.op = "q.shu" -> IF ~IsKind(n, ev.id, "SHU") THEN "nil" ELSE IF ev.n > n.st[ev.id].model.max THEN "err" ELSE "ok"

\* I in mA against P, Q, V: I = 1000 S / (sqrt(3) V).  The generator keeps P and Q multiples of 10 MW below 300 MW
\* and V a multiple of 10 kV between 10 kV and 1000 kV; other values are only checked to be absent together.
CurrentRight(p, q, kv, r) == LET X == kv * (r \div 100) IN r \div 100 <= 3000000 \div kv /\
  3 * Sq(X \div 1000) <= 100 * (Sq(p) + Sq(q)) /\ 100 * (Sq(p) + Sq(q)) <= 3 * Sq(X \div 1000 + 1 + kv \div 1000)
\* known finding: the implementation computes S / sqrt(3) * V / 1000
CurrentKnown(p, q, kv, r) == LET X == (((Sq(p) + Sq(q)) \div 100) * Sq(kv)) \div 100 IN r <= 300000 /\
  3 * Sq((IF r > 0 THEN r - 1 ELSE 0) \div 100) <= X /\ X <= 3 * Sq((r + 1) \div 100 + 1)
QITags(n, v, t, r) ==
  LET d == TDy(n, v, t)
      V == TermV(n, v, t, "v")
      in(x) == x % 80 = 0 /\ Abs(x) <= 2400
  IN IF n.st[t[1]].k = "BBS" THEN IF r = 0 THEN {} ELSE {"q:i:bbs"}
     ELSE IF ~Num(d.p) \/ ~Num(d.q) \/ ~Num(V) THEN IF r = NaN THEN {} ELSE {"q:i:nan"}
     ELSE IF ~in(d.p) \/ ~in(d.q) \/ V % 80 # 0 \/ V < 80 \/ V > 8000 THEN {}
     ELSE IF CurrentRight(d.p \div 8, d.q \div 8, V \div 8, r) THEN {}
     ELSE IF CurrentKnown(d.p \div 8, d.q \div 8, V \div 8, r) THEN IF PrintT(<<"KNOWN", "getI">>) THEN {} ELSE {}
     ELSE {"q:i"}

QTags(n, ev) ==
  LET r == ev.ret
      cur == Cur(n, ev.th)
  IN CASE ev.op = "q.find" -> IF r = QFind(n, ev) THEN {} ELSE {"q:find"}
       [] ev.op = "q.trav" -> QTravTags(n, ev, r)
       [] ev.op = "q.ntrav" -> QNtravTags(n, ev, r)
       [] ev.op = "q.eqt" -> LET S == QEqt(n, ev) IN IF r \in S \/ (S = {} /\ r = "") THEN {} ELSE {"q:eqt"}
       [] ev.op = "q.nodes" -> IF r = QNodes(n, ev) THEN {} ELSE {"q:nodes"}
       [] ev.op = "q.lim" -> LET t == <<ev.id, ev.side>>
                                 flow == Flow(n, cur, t, ev.lty, r.i)
                                 e == ExceedsPermanent(n, ev.id, ev.side, ev.lty, ev.red, flow)
                                 o == TempOverload(n, ev.id, ev.side, ev.lty, ev.red, flow)
                             IN QITags(n, cur, t, r.i) \cup
                                IF flow = PosInf \/ (ev.lty = "CURRENT" /\ Tie(n, ev.id, ev.side, ev.red, r.i)) THEN {}
                                ELSE (IF r.p = e /\ r.p2 = e THEN {} ELSE {"q:lim:perm"})
                                     \cup (IF r.t = o /\ r.t2 = o THEN {} ELSE {"q:lim:temp"})
       [] ev.op = "q.ovl" -> LET i == <<r.i1, r.i2>>
                                 tie(red) == \E s \in {1, 2} : Tie(n, ev.id, s, red, i[s])
                             IN UNION {QITags(n, cur, <<ev.id, s>>, i[s]) : s \in {1, 2}}
                                \cup (IF tie(ev.red) \/ r.o = (\E s \in {1, 2} : ExceedsPermanent(n, ev.id, s, "CURRENT", ev.red, i[s])) THEN {} ELSE {"q:ovl:o"})
                                \cup (IF tie(8) \/ r.d = Shortest(Durations(n, ev.id, 8, i)) THEN {} ELSE {"q:ovl:d"})
       [] ev.op = "q.i" -> QITags(n, cur, <<ev.tc, ev.ti + 1>>, r)
       [] ev.op = "q.sv" -> QSvTags(n, ev, r)
       [] ev.op = "q.bnd" -> QBndTags(n, ev, r)
       [] ev.op = "q.rl" -> QRlTags(n, ev, r)
       [] ev.op = "q.shu" -> IF r = QShu(n, ev) THEN {} ELSE {"q:shu"}
=============================================================================
