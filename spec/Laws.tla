-------------------------------- MODULE Laws ---------------------------------
(* What every reachable state and every step of the specification must      *)
(* satisfy: the guarantees of the properties, stated apart from the         *)
(* operations that are meant to keep them.  Each operator returns the names *)
(* of the laws that are broken.                                             *)
EXTENDS Iidm

Law(name, ok) == IF ok THEN {} ELSE {name}

\* I01: names
NameLaws(n) ==
  Law("I01:alias-or-id", AliasNames(n) \cap Ids(n) = {})
  \cup Law("I01:one-owner", \A x, y \in DOMAIN n.al : x # y => DOMAIN n.al[x] \cap DOMAIN n.al[y] = {})
  \cup Law("I01:one-alias-per-type", \A x \in DOMAIN n.al : \A ty \in Types(n, x) : Cardinality({a \in DOMAIN n.al[x] : n.al[x][a] = ty}) = 1)
  \cup Law("I01:owners-exist", DOMAIN n.al \cup DOMAIN n.pr \subseteq Ids(n))
  \cup Law("I01:resolve", \A id \in Ids(n) : Resolve(n, id) = id)

\* R01: nothing refers to what is gone
RefLaws(n) ==
  LET VL == OfKind(n, {"VL"})
  IN Law("R01:vl-in-substation", \A v \in VL : IsKind(n, n.st[v].own, "SUB"))
     \cup Law("R01:ends", \A t \in Terms(n) : VlOf(n, t) \in VL)
     \cup Law("R01:parts", \A x \in OfKind(n, SubKinds) : \E id \in Ids(n) : x \in Parts(n, id))
     \cup Law("R01:configured-bus", \A v \in Vs(n) : \A t \in Terms(n) : ~IsNB(n, VlOf(n, t)) => TDy(n, v, t).cb \in BusesOf(n, VlOf(n, t)))
     \cup Law("R01:switch-ends", \A s \in OfKind(n, {"SW"}) : n.st[s].own \in VL /\ (~IsNB(n, n.st[s].own) => {n.st[s].b1, n.st[s].b2} \subseteq BusesOf(n, n.st[s].own)))
     \cup Law("R01:buses", \A b \in OfKind(n, {"BUS"}) : n.st[b].own \in VL)
     \cup Law("R01:regulated", \A x \in DOMAIN n.st : "rt" \in DOMAIN n.st[x] /\ n.st[x].rt # "" => n.st[x].rt \in TermRefs(n))
     \cup Law("R01:hvdc", \A h \in OfKind(n, {"HVDC"}) : \A c \in {n.st[h].c1, n.st[h].c2} : Has(n, c) /\ n.st[c].hl = h)
     \cup Law("R01:station", \A c \in OfKind(n, {"LCC", "VSC"}) : n.st[c].hl # "" => IsKind(n, n.st[c].hl, "HVDC") /\ c \in {n.st[n.st[c].hl].c1, n.st[n.st[c].hl].c2})
     \cup Law("R01:internal-connections", DOMAIN n.ic \subseteq VL)
     \cup Law("R01:slack", \A v \in Vs(n) : \A id \in VL : Has(n, Slack(n, id)) => n.dy[v][Slack(n, id)].t \in {""} \cup TermRefs(n))

\* E01, K01: values
ValueLaws(n) ==
  Law("E01:valid", \A id \in DOMAIN n.st : Valid(n, id))
  \cup Law("T01:one-terminal-per-node", \A s, t \in Terms(n) : s # t /\ VlOf(n, s) = VlOf(n, t) /\ IsNB(n, VlOf(n, s)) => NodeOf(n, s) # NodeOf(n, t))
  \cup Law("K01:one-regulating", \A id \in OfKind(n, {"T2", "T3"}) : OneRegulating(n, id))
  \cup Law("K01:in-range", \A x \in OfKind(n, {"RTC", "PTC"}) : \A v \in Vs(n) : LET s == n.st[x] IN
             s.low <= n.dy[v][x].pos /\ n.dy[v][x].pos <= s.high /\ s.high = s.low + Len(s.steps) - 1 /\ n.dy[v][x].cs = TapStep(s, n.dy[v][x].pos))
  \cup Law("E01:tie-line", \A id \in OfKind(n, {"TIE"}) : \A f \in {"r", "x"} : n.st[id][f] = n.st[id \o "#half1"][f] + n.st[id \o "#half2"][f])
  \cup Law("Q01:sections", \A id \in OfKind(n, {"SHU"}) : \A v \in Vs(n) : n.dy[v][id].n >= 0)

\* V01, V02, V03: variants
VariantLaws(n) ==
  Law("V02:initial", Init0 \in Vs(n))
  \cup Law("V02:selected", \A t \in Threads : Cur(n, t) \in Vs(n) \cup {""})
  \cup Law("V03:own-selection", IF n.mt THEN n.sh = "" ELSE \A t \in Threads : n.tl[t] = "")
  \cup Law("V01:same-objects", \A v \in Vs(n) : DOMAIN n.dy[v] = DOMAIN n.dy[Init0])
  \cup Law("V01:objects", DOMAIN n.dy[Init0] \subseteq DOMAIN n.st)

\* T01, T02, C01: buses and components are partitions, the coarser ones made of the finer ones
Disjoint(S) == \A x, y \in S : x # y => x.m \cap y.m = {} /\ x.t \cap y.t = {}
TopoLaws(n) ==
  UNION {LET tps == NetTopo(n, v)
             B == AllBuses(n, tps)
             cc == ComponentsOf(n, tps, TRUE)
             sc == ComponentsOf(n, tps, FALSE)
             pre(vl) == IF IsNB(n, vl) THEN "T01:" ELSE "T02:"
         IN UNION {LET T == TermsIn(n, vl) IN
                   Law(pre(vl) \o "disjoint", Disjoint(tps[vl].bv) /\ Disjoint(tps[vl].bb))
                   \cup Law(pre(vl) \o "refines", \A g \in tps[vl].bv : \A h \in tps[vl].bb : h.m \subseteq g.m \/ h.m \cap g.m = {})
                   \cup Law(pre(vl) \o "terminals", \A g \in tps[vl].bv \cup tps[vl].bb : g.t \subseteq T)
                   \cup Law(pre(vl) \o "connected", \A t \in T : Connected(n, v, t) => (IsNB(n, vl) <=> (\E g \in tps[vl].bv : t \in g.t)) \/ ~IsNB(n, vl))
                   \cup Law("T01:closed-switch-joins", IsNB(n, vl) => \A s \in SwitchesOf(n, vl) : ~n.dy[v][s].open =>
                              \A g \in tps[vl].bv : n.st[s].n1 \in g.m <=> n.st[s].n2 \in g.m)
                   \cup Law("T02:closed-switch-joins", ~IsNB(n, vl) => \A s \in SwitchesOf(n, vl) : ~n.dy[v][s].open =>
                              \A g \in tps[vl].bv : n.st[s].b1 \in g.m <=> n.st[s].b2 \in g.m)
                   : vl \in DOMAIN tps}
            \cup Law("C01:partition", UNION cc = B /\ UNION sc = B /\ (\A x, y \in cc : x # y => x \cap y = {}) /\ (\A x, y \in sc : x # y => x \cap y = {}))
            \cup Law("C01:synchronous-refines", \A x \in sc : \E y \in cc : x \subseteq y)
            \cup Law("C01:without-hvdc", OfKind(n, {"HVDC"}) = {} => cc = sc)
         : v \in Vs(n)}

\* M01: going to the far side and back returns; what enters a link and does not leave it is lost in its three impedances;
\* the currents are those of the admittance matrix
SomeStates == {<<Cx(3, 4, 1), Cx(1, -2, 1)>>, <<Cx(2, -1, 1), C0>>, <<Cx(-1, 2, 1), Cx(3, 1, 1)>>}
Size2(a) == CTimes(a, CConj(a))
ElectricLaws(n) ==
  UNION {UNION {UNION {
    LET v == s[1]
        i == s[2]
        f == Far(l, side, v, i)
        back == Far(l, 3 - side, f.v, f.i)
        one == IF side = 1 THEN [v |-> v, i |-> i] ELSE f
        two == IF side = 1 THEN f ELSE [v |-> v, i |-> i]
        b == CTimes(one.v, l.ra)
        through == CMinus(CTimes(l.y2, two.v), two.i)
        lost == CPlus(CTimes(l.z, Size2(through)), CPlus(CTimes(CConj(l.y1), Size2(b)), CTimes(CConj(l.y2), Size2(two.v))))
    IN Law("M01:inverse", back = [v |-> v, i |-> i])
       \cup Law("M01:conservation", CPlus(Power(one.v, one.i), Power(two.v, two.i)) = lost)
       \cup Law("M01:admittance", CTimes(l.z, through) = CMinus(b, two.v))
    : s \in SomeStates} : side \in {1, 2}} : l \in {x \in UNION {LinksOf(n, v) : v \in Vs(n)} : FitsLink(x)}}

Laws(n) == ElectricLaws(n) \cup NameLaws(n) \cup RefLaws(n) \cup ValueLaws(n) \cup VariantLaws(n) \cup TopoLaws(n)

-----------------------------------------------------------------------------
Dynamic == {"tset", "con", "dis", "setcb", "busv"}
IsDynamic(n, ev) == ev.op \in Dynamic \/ (ev.op = "set" /\ Has(n, ev.id) /\ ev.f \in DySet(n.st[ev.id].k))
VariantOps == {"vclone", "vremove", "vselect", "vmt"}
Removals == {"rm", "rmsw", "rmallsw", "rmbus", "rmallbus", "rmic"}
ReachesBbs(n, v, t) ==
  LET vl == VlOf(n, t) IN \E x \in Reach({NodeOf(n, t)}, ClosedEdges(n, v, vl)) : NodeHas(n, vl, x, {"BBS"})

StepLaws(n, ev, o) ==
  LET m == o.n
      th == ev.th
      cur == Cur(n, th)
      others == Vs(n) \ {cur}
      t == <<ev.tc, ev.ti + 1>>
  IN Law("A01:refused-unchanged", o.res # "ok" => m = n)
     \cup Law("V01:isolation", IsDynamic(n, ev) => (\A v \in others : m.dy[v] = n.dy[v]) /\ m.st = n.st)
     \cup Law("V01:refused-without-variant", ev.op \in Dynamic /\ cur = "" => o.res # "ok")
     \cup Law("V02:shared-state", ev.op \in VariantOps => m.st = n.st /\ m.al = n.al /\ m.pr = n.pr /\ m.ic = n.ic)
     \cup Law("V02:others-kept", ev.op \in VariantOps => \A v \in Vs(n) \cap Vs(m) : m.dy[v] = n.dy[v] \/ (ev.op = "vclone" /\ v \in SeqSet(ev.tgts)))
     \cup Law("V02:clone", ev.op = "vclone" /\ o.res = "ok" => Vs(m) = Vs(n) \cup SeqSet(ev.tgts) /\ \A v \in SeqSet(ev.tgts) : m.dy[v] = n.dy[ev.src])
     \cup Law("V02:remove", ev.op = "vremove" /\ o.res = "ok" => Vs(m) = Vs(n) \ {ev.v} /\ (cur = ev.v => Cur(m, th) = ""))
     \cup Law("V02:select", ev.op = "vselect" /\ o.res = "ok" => Cur(m, th) = ev.v)
     \cup Law("V02:set-of-variants", ev.op \notin {"vclone", "vremove", "xml", "reset"} => Vs(m) = Vs(n))
     \cup Law("V03:others-selection", n.mt /\ ev.op # "vmt" => \A x \in Threads \ {th} : Cur(m, x) = Cur(n, x))
     \cup Law("V03:switching-keeps", ev.op = "vmt" => Cur(m, th) = (IF cur = "" /\ ~ev.on /\ n.mt THEN Init0 ELSE cur))
     \cup Law("I01:names-kept", ev.op \notin {"add", "alias", "rmalias", "xml", "reset"} \cup Removals => Ids(m) = Ids(n) /\ m.al = n.al)
     \cup Law("I01:added", ev.op = "add" /\ o.res = "ok" /\ ev.k # "IC" => ~Taken(n, o.ret) /\ Ids(m) = Ids(n) \cup {o.ret} /\ \A x \in DOMAIN n.st : m.st[x] = n.st[x] \/ n.st[x].k \in {"LCC", "VSC"})
     \cup Law("V01:added-everywhere", ev.op = "add" /\ o.res = "ok" /\ ev.k # "IC" /\ o.ret \in DOMAIN m.dy[Init0] => \A v \in Vs(m) : m.dy[v][o.ret] = m.dy[Init0][o.ret])
     \cup Law("R01:removed", ev.op \in {"rm", "rmsw", "rmbus"} /\ o.res = "ok" => ~Has(m, ev.id) /\ Ids(m) \subseteq Ids(n))
     \cup Law("R01:rest-kept", ev.op \in Removals => \A x \in DOMAIN m.st : m.st[x] = n.st[x] \/ n.st[x].k \in {"LCC", "VSC"})
     \cup Law("R01:rest-kept-variants", ev.op \in Removals => \A v \in Vs(m) : \A x \in DOMAIN m.dy[v] : m.dy[v][x] = n.dy[v][x] \/ n.st[x].k = "EXT")
     \cup Law("S01:connects", ev.op = "con" /\ o.res = "ok" /\ o.ret /\ (\A s \in SwitchesOf(n, VlOf(n, t)) : ~IsNB(n, VlOf(n, t)) \/ n.st[s].swk = "LOAD_BREAK_SWITCH" => ~n.dy[cur][s].open)
                              => Connected(m, cur, t))
     \cup Law("S01:disconnects", ev.op = "dis" /\ o.res = "ok" /\ o.ret => IF IsNB(n, VlOf(n, t)) THEN ~ReachesBbs(m, cur, t) ELSE ~Connected(m, cur, t))
     \cup Law("S01:breakers-only", ev.op \in {"con", "dis"} /\ o.res = "ok" /\ IsNB(n, VlOf(n, t)) => \A x \in DOMAIN n.dy[cur] : m.dy[cur][x] = n.dy[cur][x]
                              \/ (n.st[x].k = "SW" /\ n.st[x].swk = "BREAKER" /\ n.st[x].own = VlOf(n, t) /\ m.dy[cur][x].ret = n.dy[cur][x].ret /\ m.dy[cur][x].open = (ev.op = "dis")))
     \cup Law("S01:idempotent", ev.op = "con" /\ o.res = "ok" /\ Connected(n, cur, t) => m = n)
     \cup Law("X01:reference", ev.op = "xml" /\ o.res = "ok" /\ ev.swap => Vs(m) = {Init0} /\ Ids(m) \ Ids(n) \subseteq OfKind(m, {"BUS"}))
     \cup Law("X01:kept", ev.op = "xml" /\ o.res = "ok" /\ ev.swap /\ ev.lvl \in {"", "NB"} /\ ev.ver = "" => Ids(m) = Ids(n) /\ m.al = n.al /\ m.pr = n.pr /\ \A x \in OfKind(n, {"SW"}) : m.dy[Init0][x].open = n.dy[cur][x].open)
     \cup Law("X02:levels", ev.op = "xml" /\ o.res = "ok" /\ ev.swap /\ ev.lvl \in {"BB", "BR"} => OfKind(m, {"BBS"}) = {} /\ (\A x \in OfKind(m, {"VL"}) : ~IsNB(m, x)) /\ (ev.lvl = "BR" => OfKind(m, {"SW"}) = {}))
     \cup Law("X02:joined", ev.op = "xml" /\ o.res = "ok" /\ ev.swap /\ ev.lvl \in {"BB", "BR"} /\ VerOf(ev) >= 1 => \A y \in Terms(m) : TDy(m, Init0, y).con =>
                                \A w \in Terms(m) : TDy(m, Init0, w).con /\ VlOf(m, w) = VlOf(m, y) /\ TDy(m, Init0, w).cb = TDy(m, Init0, y).cb /\ IsNB(n, VlOf(n, y)) =>
                                   NodeOf(n, w) \in Reach({NodeOf(n, y)}, ClosedEdges(n, cur, VlOf(n, y))))
     \cup Law("P01:added", ev.op = "extadd" /\ o.res = "ok" => \A x \in (DOMAIN m.st) \ (DOMAIN n.st) : m.st[x].k = "EXT")
     \cup Law("P01:rest-kept", ev.op \in {"extadd", "extset", "extrm"} => \A x \in DOMAIN n.st : n.st[x].k = "EXT" \/ (x \in DOMAIN m.st /\ m.st[x] = n.st[x]))
=============================================================================
