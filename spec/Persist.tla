------------------------------ MODULE Persist --------------------------------
(* X01 - X04: what saving a network and loading the document back gives.    *)
(*                                                                          *)
(* Saving is a function of the network, of the selected variant and of the  *)
(* options (topology level, version, strictness, extensions wanted, flows   *)
(* of branches wanted): the loaded network is the saved one in its selected *)
(* variant, less what the level, the version and the options leave out.     *)
(* Where the topology has several right answers (which bus a disconnected   *)
(* terminal could go to, names of merged buses, voltage of a bus), the      *)
(* answer given by the saved network (ev.ret.tp, judged by CheckTopo) is    *)
(* the one that must be found again in the loaded network.                  *)
EXTENDS Ext

\* extensions that have no XML form
NoXmlForm == {"generatorRemoteReactivePowerControl"}
Level(ev) == IF ev.lvl = "" THEN "NB" ELSE ev.lvl
VlLevel(n, ev, vl) == IF Level(ev) = "BR" THEN "BR" ELSE IF IsNB(n, vl) /\ Level(ev) = "NB" THEN "NB" ELSE "BB"
\* format version, as the number after "1."
VerOf(ev) == CASE ev.ver = "1.0" -> 0 [] ev.ver = "1.1" -> 1 [] ev.ver = "1.2" -> 2 [] ev.ver = "1.3" -> 3 [] ev.ver = "1.4" -> 4 [] OTHER -> 5
WantsExt(ev, xn) == "ext" \notin DOMAIN ev \/ ev.ext = <<>> \/ xn \in SeqSet(ev.ext)
WantsFlows(ev) == G(ev, "bsv", TRUE)

\* what the loading keeps of the extensions of the document
KeepsExt(ev, xn) == "iext" \notin DOMAIN ev \/ ev.iext = <<>> \/ xn \in SeqSet(ev.iext)
Kept(n, ev, P) == {e \in P : n.st[e].k = "EXT" => KeepsExt(ev, n.st[e].xn)}
\* an extension that the document holds: somebody asked for it, there is a form for it, and it has a content
ExtWritten(n, v, ev, e) ==
  LET s == n.st[e]
  IN /\ WantsExt(ev, s.xn) /\ s.xn \notin NoXmlForm
     /\ (s.xn = "slackTerminal" => n.dy[v][e].t # "")
     /\ (s.xn \in {"measurements", "discreteMeasurements"} => s.items # <<>>)

-----------------------------------------------------------------------------
(* Which objects the document holds                                         *)
KeptIds(n, v, ev) ==
  LET lv(vl) == VlLevel(n, ev, vl)
  IN {id \in Ids(n) :
        CASE n.st[id].k = "BBS" -> lv(n.st[id].ts[1].vl) = "NB"
          [] n.st[id].k = "BUS" -> lv(n.st[id].own) = "BB"
          [] n.st[id].k = "SW" -> LET l == lv(n.st[id].own)
                                  IN l = "NB" \/ (l = "BB" /\ (~IsNB(n, n.st[id].own) \/ n.dy[v][id].ret))
          [] OTHER -> TRUE}
\* the voltage levels whose buses are created by the export, and these buses as observed
Made(n, ev) == {vl \in OfKind(n, {"VL"}) : VlLevel(n, ev, vl) = "BR" \/ (VlLevel(n, ev, vl) = "BB" /\ IsNB(n, vl))}
MadeBuses(n, ev, tp, vl) == IF VlLevel(n, ev, vl) = "BR" THEN tp.vl[vl].bv ELSE tp.vl[vl].bb
AllMade(n, ev, tp) == UNION {{[id |-> b.id, vl |-> vl, v |-> b.v, ang |-> b.an, nm |-> b.nm, fic |-> b.fic] : b \in SeqSet(MadeBuses(n, ev, tp, vl))} : vl \in Made(n, ev)}
\* buses that are replaced by a bus of the same name: their extensions go to it
Twins(n, ev, tp, K) == {id \in OfKind(n, {"BUS"}) \ K : \E b \in AllMade(n, ev, tp) : b.id = id}

LimEmpty(s) == ~Num(s.perm) /\ s.temps = <<>>
KeptParts(n, v, ev, tp, K) ==
  {e \in UNION {Parts(n, id) : id \in K} \cup UNION {{p \in Parts(n, id) : n.st[p].k = "EXT"} : id \in Twins(n, ev, tp, K)} :
     CASE n.st[e].k = "EXT" -> ExtWritten(n, v, ev, e)
       [] n.st[e].k = "LIM" -> ~LimEmpty(n.st[e])
       [] OTHER -> TRUE}

-----------------------------------------------------------------------------
(* X04: what a format version can express.  Version 1.0 has no regulating   *)
(* terminal of static VAR compensators, no conductance, susceptance or tap  *)
(* changer but one on the last legs; 1.1 has no fictitious object, rating,  *)
(* deadband or regulating shunt; 1.2 has no alias, non linear shunt or      *)
(* generation of dangling lines; 1.3 has no alias type; 1.4 has limits on   *)
(* currents only.                                                           *)
LegOf(id, i) == id \o "#leg" \o ToString(i)
OldLegTcs(n, id) == {id \o s : s \in {"#rtc1", "#ptc1", "#ptc2", "#ptc3"}} \cap DOMAIN n.st
PowerLims(n) == UNION {{p \in Parts(n, id) : \E t \in {"ACTIVE_POWER", "APPARENT_POWER"}, i \in 0..3 : p = id \o "#lim" \o ToString(i) \o t} : id \in OfKind(n, {"DL", "LINE", "TIE", "T2", "T3"})}
LastLegs(n) == {LegOf(id, i) : id \in OfKind(n, {"T3"}), i \in {2, 3}}
\* content that a strict export refuses
Unsupported(n, v, x) ==
  \/ x < 5 /\ PowerLims(n) # {}
  \/ x < 3 /\ \/ \E e \in OfKind(n, {"SHU"}) : n.st[e].model.t # "LINEAR"
              \/ OfKind(n, {"DLGEN"}) # {}
              \/ "N" \in DOMAIN n.al /\ n.al["N"] # <<>>
  \/ x < 2 /\ \E e \in OfKind(n, {"SHU"}) : LET d == n.dy[v][e] IN d.on \/ Num(d.tv) \/ Num(d.db) \/ n.st[e].rt # RefOf(e, 1)
  \/ x < 1 /\ \/ \E e \in OfKind(n, {"SVC"}) : n.st[e].rt # RefOf(e, 1)
              \/ \E e \in OfKind(n, {"T3"}) : \/ \E i \in {2, 3} : n.st[LegOf(e, i)].g # 0 \/ n.st[LegOf(e, i)].b # 0
                                              \/ n.st[e].ru0 # n.st[LegOf(e, 1)].ru
                                              \/ OldLegTcs(n, e) # {}
\* difference of two doubles that are multiples of 1/8 or special values
Minus(a, b) == IF ~Num(a) \/ ~Num(b) THEN NaN
               ELSE IF a \in {PosMax, NegMax, PosInf, NegInf} THEN (IF a = b THEN (IF a \in {PosInf, NegInf} THEN NaN ELSE 0) ELSE a)
               ELSE IF b = PosMax THEN NegMax ELSE IF b = NegMax THEN PosMax ELSE IF b = PosInf THEN NegInf ELSE IF b = NegInf THEN PosInf ELSE a - b
OldSt(n, v, x, e) ==
  LET s == n.st[e]
      a == IF x <= 1 /\ "fic" \in DOMAIN s /\ s.k # "SW" THEN [s EXCEPT !.fic = FALSE] ELSE s
      b == IF x <= 2 /\ s.k = "HALF" THEN [a EXCEPT !.fic = FALSE] ELSE a
      c == IF x <= 1 /\ s.k \in {"T2", "LEG"} THEN [b EXCEPT !.rs = NaN] ELSE b
      shu == IF s.model.t = "LINEAR" THEN [s.model EXCEPT !.gps = NaN]
             ELSE [t |-> "LINEAR", max |-> 1, bps |-> QShu(n, [id |-> e, n |-> n.dy[v][e].n]).b, gps |-> NaN]
  IN CASE s.k = "SHU" -> [c EXCEPT !.model = IF x <= 2 THEN shu ELSE @, !.rt = IF x <= 1 THEN RefOf(e, 1) ELSE @]
       [] s.k = "SVC" /\ x <= 0 -> [c EXCEPT !.rt = RefOf(e, 1)]
       [] s.k = "LEG" /\ x <= 0 /\ e \in LastLegs(n) -> [c EXCEPT !.g = 0, !.b = 0]
       [] s.k = "T3" /\ x <= 0 -> [c EXCEPT !.ru0 = n.st[LegOf(e, 1)].ru]
       [] OTHER -> c
OldDy(n, v, x, e) ==
  LET s == n.st[e]
      d == n.dy[v][e]
  IN CASE s.k = "SHU" /\ x <= 2 -> [d EXCEPT !.n = IF s.model.t = "LINEAR" THEN @ ELSE 1, !.on = IF x <= 1 THEN FALSE ELSE @, !.tv = IF x <= 1 THEN NaN ELSE @, !.db = IF x <= 1 THEN NaN ELSE @]
       [] s.k = "DL" /\ x <= 2 /\ (e \o "#gen") \in DOMAIN n.st -> LET g == n.dy[v][e \o "#gen"] IN [d EXCEPT !.p0 = IF Num(g.tp) THEN Minus(@, g.tp) ELSE @, !.q0 = IF Num(g.tq) THEN Minus(@, g.tq) ELSE @]
       [] s.k \in {"RTC", "PTC"} /\ x <= 1 /\ d.db = 0 /\ ~d.reg -> [d EXCEPT !.db = NaN]
       [] OTHER -> d
OldGone(n, x) ==
  (IF x <= 4 THEN PowerLims(n) ELSE {})
  \cup (IF x <= 2 THEN UNION {{id \o "#gen", id \o "#rl"} : id \in OfKind(n, {"DL"})} ELSE {})
  \cup (IF x <= 0 THEN UNION {OldLegTcs(n, id) : id \in OfKind(n, {"T3"})} ELSE {})
Downgrade(n, v, x) ==
  IF x >= 5 THEN n
  ELSE LET gone == OldGone(n, x)
           keep == DOMAIN n.st \ gone
       IN [n EXCEPT !.st = [e \in keep |-> OldSt(n, v, x, e)],
                    !.dy[v] = [e \in DOMAIN n.dy[v] \ gone |-> OldDy(n, v, x, e)],
                    !.al = IF x <= 2 THEN <<>> ELSE IF x <= 3 THEN [id \in DOMAIN @ |-> [a \in DOMAIN @[id] |-> ""]] ELSE @]

-----------------------------------------------------------------------------
(* The loaded network                                                       *)
LoadedTerm(n, ev, t) == IF VlLevel(n, ev, t.vl) = "NB" THEN t ELSE [t EXCEPT !.node = -1]
LoadedSt(n, ev, tp, id) ==
  LET s == n.st[id]
      t == IF "ts" \in DOMAIN s THEN [s EXCEPT !.ts = [i \in 1..Len(s.ts) |-> LoadedTerm(n, ev, s.ts[i])]] ELSE s
  IN CASE s.k = "NET" -> [s EXCEPT !.nm = "N", !.fic = FALSE]
       [] s.k = "VL" -> [s EXCEPT !.topo = IF VlLevel(n, ev, id) = "NB" THEN "NODE_BREAKER" ELSE "BUS_BREAKER"]
       [] s.k = "SW" -> IF IsNB(n, s.own) /\ VlLevel(n, ev, s.own) = "BB"
                        THEN [s EXCEPT !.n1 = -1, !.n2 = -1, !.b1 = tp.vl[s.own].sw[id].b1, !.b2 = tp.vl[s.own].sw[id].b2, !.swk = "BREAKER"]
                        ELSE s
       \* the names of the halves of a merged X node have no place in the document
       [] s.k = "EXT" /\ s.xn = "mergedXnode" -> [s EXCEPT !.l1 = "", !.l2 = ""]
       [] OTHER -> t

\* one terminal in the loaded network
TermDy(n, v, ev, tp, id, i) ==
  LET s == n.st[id].ts[i]
      d == n.dy[v][id].t[i]
      l == VlLevel(n, ev, s.vl)
      x == tp.tt[RefOf(id, i)]
      flows == n.st[id].k \notin Branches \cup {"T3"} \/ WantsFlows(ev)
      at == {b \in SeqSet(tp.vl[s.vl].bv) : b.id = x.bv}
      f == [d EXCEPT !.p = IF flows THEN @ ELSE NaN, !.q = IF flows THEN @ ELSE NaN]
      \* in version 1.0, the state of a bus is that of its last busbar section
      bbs == {u \in TermsIn(n, s.vl) : n.st[u[1]].k = "BBS" /\ x.bv # "" /\ tp.tt[Ref(u)].bv = x.bv}
      last == CHOOSE u \in bbs : \A w \in bbs : NodeOf(n, w) <= NodeOf(n, u)
      here == IF VerOf(ev) > 0 THEN IF at = {} THEN [v |-> NaN, an |-> NaN] ELSE [v |-> Pick(at).v, an |-> Pick(at).an]
              ELSE IF bbs = {} THEN [v |-> NaN, an |-> NaN] ELSE [v |-> TDy(n, v, last).v, an |-> TDy(n, v, last).an]
  IN CASE l = "NB" -> [f EXCEPT !.v = here.v, !.an = here.an]
       [] l = "BB" -> [f EXCEPT !.cb = x.bbc, !.con = (x.bb # ""), !.v = NaN, !.an = NaN]
       [] l = "BR" -> [f EXCEPT !.cb = x.bvc, !.con = (x.bv # ""), !.v = NaN, !.an = NaN]
LoadedDy(n, v, ev, tp, id) ==
  LET d == n.dy[v][id]
      s == n.st[id]
  IN IF "ts" \in DOMAIN s THEN [d EXCEPT !.t = [i \in 1..Len(s.ts) |-> TermDy(n, v, ev, tp, id, i)]]
     ELSE IF s.k = "SW" /\ VlLevel(n, ev, s.own) = "BB" THEN [d EXCEPT !.ret = TRUE]
     ELSE d

\* references to terminals held by the objects of the document
RefsOf(n, v, e) ==
  LET s == n.st[e]
      d == IF e \in DOMAIN n.dy[v] THEN n.dy[v][e] ELSE <<>>
  IN ((IF "rt" \in DOMAIN s THEN {s.rt} ELSE {}) \cup (IF "rt" \in DOMAIN d THEN {d.rt} ELSE {})
      \cup (IF s.k = "EXT" /\ s.xn = "slackTerminal" THEN {d.t} ELSE {})) \ {""}

\* why a network cannot be saved at a level, or its document not be loaded
Refused(n, v, ev, tp, K, P) ==
  LET lost == {Ref(t) : t \in {u \in Terms(n) : u[1] \notin K}}
      homeless(t) == LET l == VlLevel(n, ev, VlOf(n, t)) IN (l = "BB" /\ tp.tt[Ref(t)].bbc = "") \/ (l = "BR" /\ tp.tt[Ref(t)].bvc = "")
      names == [id \in K |-> {id} \cup (IF id \in DOMAIN n.al THEN DOMAIN n.al[id] ELSE {})]
  IN \/ \E e \in K \cup P : RefsOf(n, v, e) \cap lost # {}
     \/ \E t \in Terms(n) : t[1] \in K /\ homeless(t)
     \/ \E b \in AllMade(n, ev, tp) : b.id \in UNION {names[id] : id \in K}

\* the slack terminal extension has no form before 1.3
NoSuchExt(n, v, ev, x) == x < 3 /\ \E e \in OfKind(n, {"EXT"}) : n.st[e].xn = "slackTerminal" /\ WantsExt(ev, "slackTerminal")

Loaded(n, v, ev, tp, K, P) ==
  LET B == AllMade(n, ev, tp)
      bid == {b.id : b \in B}
      bus(x) == CHOOSE b \in B : b.id = x
      E == K \cup P
      D == E \cap DOMAIN n.dy[v]
  IN [st |-> [e \in E |-> LoadedSt(n, ev, tp, e)]
             @@ [x \in bid |-> [k |-> "BUS", nm |-> bus(x).nm, fic |-> bus(x).fic /\ VerOf(ev) > 1, own |-> bus(x).vl]],
      dy |-> Init0 :> ([e \in D |-> LoadedDy(n, v, ev, tp, e)] @@ [x \in bid |-> [v |-> bus(x).v, ang |-> bus(x).ang]]),
      al |-> [id \in DOMAIN n.al \cap K |-> n.al[id]],
      pr |-> [id \in DOMAIN n.pr \cap K |-> n.pr[id]],
      mt |-> FALSE, sh |-> Init0, tl |-> [t \in Threads |-> ""],
      ic |-> [vl \in {x \in DOMAIN n.ic : VlLevel(n, ev, x) = "NB"} |-> n.ic[vl]]]

\* versions asked for the forms of the extensions (ev.xv: extension -> version): the slack terminal has one per format version, the others have one
SlackVersion(x) == CASE x = 3 -> "1.0" [] x = 4 -> "1.1" [] x = 5 -> "1.2" [] OTHER -> ""
BadVersions(n, ev, x, P) ==
  LET xv == G(ev, "xv", <<>>)
  IN \E xn \in DOMAIN xv :
       \/ G(ev, "ext", <<>>) # <<>> /\ xn \notin SeqSet(ev.ext)
       \/ IF xn = "slackTerminal" THEN xv[xn] # SlackVersion(x) /\ \E e \in OfKind(n, {"EXT"}) : n.st[e].xn = xn
          ELSE xv[xn] # "1.0" /\ \E e \in P : n.st[e].k = "EXT" /\ n.st[e].xn = xn
\* an extension without form, when it is asked to complain
Formless(n, ev, K) == G(ev, "ethrow", FALSE) /\ \E id \in K : \E e \in Parts(n, id) : n.st[e].k = "EXT" /\ n.st[e].xn \in NoXmlForm /\ WantsExt(ev, n.st[e].xn)
\* what an object cannot be read without: attributes that are text, and those that are numbers, booleans or names of a list
\* (a boolean always reads as something)
Idents == [x \in {"substation", "voltageLevel", "bus", "busbarSection", "switch", "load", "generator", "battery", "shunt", "staticVarCompensator", "danglingLine",
                 "lccConverterStation", "vscConverterStation", "hvdcLine", "line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer", "terminalRef"} |-> {"id"}]
Texts == [property |-> {"name", "value"}, switch |-> {"bus1", "bus2"}, hvdcLine |-> {"converterStation1", "converterStation2"},
          line |-> {"voltageLevelId1", "voltageLevelId2"}, twoWindingsTransformer |-> {"voltageLevelId1", "voltageLevelId2"},
          threeWindingsTransformer |-> {"voltageLevelId1", "voltageLevelId2", "voltageLevelId3"}, tieLine |-> {"id_1", "id_2"}]
Flags == [switch |-> {"open", "retained"}, generator |-> {"voltageRegulatorOn"}, vscConverterStation |-> {"voltageRegulatorOn"},
          ratioTapChanger |-> {"loadTapChangingCapabilities"}]
Quants == [battery |-> {"p0", "q0", "minP", "maxP"}, switch |-> {"kind", "node1", "node2"}, busbarSection |-> {"node"}, internalConnection |-> {"node1", "node2"},
           danglingLine |-> {"p0", "q0", "r", "x", "g", "b"}, generator |-> {"energySource", "minP", "maxP", "targetP"},
           hvdcLine |-> {"r", "nominalV", "convertersMode", "activePowerSetpoint", "maxP"}, lccConverterStation |-> {"lossFactor"}, vscConverterStation |-> {"lossFactor"},
           line |-> {"r", "x", "g1", "b1", "g2", "b2"}, tieLine |-> {"r_1", "x_1", "g1_1", "b1_1", "r_2", "x_2", "g2_2", "b2_2"}, load |-> {"p0", "q0"},
           staticVarCompensator |-> {"bMin", "bMax", "regulationMode"}, twoWindingsTransformer |-> {"r", "x", "g", "b", "ratedU1", "ratedU2"},
           threeWindingsTransformer |-> {"r1", "x1", "g1", "b1", "ratedU1", "r2", "x2", "ratedU2", "r3", "x3", "ratedU3"},
           voltageLevel |-> {"nominalV", "topologyKind"}, ratioTapChanger |-> {"lowTapPosition", "tapPosition"},
           phaseTapChanger |-> {"lowTapPosition", "tapPosition", "regulationMode"}, step |-> {"r", "x", "g", "b", "rho"},
           minMaxReactiveLimits |-> {"minQ", "maxQ"}, point |-> {"p", "minQ", "maxQ"},
           shunt |-> {"sectionCount", "currentSectionCount"}, shuntLinearModel |-> {"bPerSection", "maximumSectionCount"}, section |-> {"b", "g"}]
\* (a switch between two buses has neither kind nor retained flag)
Needed(el, at, by, bad) == (el = "switch" /\ at \in {"kind", "retained"} => by = "node1") /\ (at \in G(Quants, el, {}) \/ (~bad /\ at \in G(Idents, el, {}) \cup G(Texts, el, {}) \cup G(Flags, el, {})))
\* a document that was changed: an extension nobody knows on an object, or only the first thousandths of the document, or an attribute the less
Spoiled(ev, K) ==
  \/ "cut" \in DOMAIN ev.ret /\ ev.ret.cut /\ Needed(ev.cut, ev.cutat, ev.cutby, ev.cutbad)
  \/ "trunc" \in DOMAIN ev /\ ev.trunc < 1000
  \/ "alien" \in DOMAIN ev /\ (ev.alien \notin K \/ (G(ev, "ithrow", FALSE) /\ KeepsExt(ev, "alien")))

\* a document that claims an older version than that of its contents: the elements this version does not have are refused
\* (attributes it does not have are not read, or are missed: the result is not specified)
TooNew(n, v, ev, tp, K, P) ==
  LET y == CASE ev.relabel = "1.0" -> 0 [] ev.relabel = "1.1" -> 1 [] ev.relabel = "1.2" -> 2 [] ev.relabel = "1.3" -> 3 [] ev.relabel = "1.4" -> 4 [] ev.relabel = "1.5" -> 5 [] OTHER -> 9
  IN \/ y > 5
     \/ y < 5 /\ PowerLims(n) \cap P # {}
     \/ y < 3 /\ \/ \E id \in K \cup {"N"} : id \in DOMAIN n.al /\ DOMAIN n.al[id] # {}
                 \/ \E id \in K : n.st[id].k = "SHU" \/ (n.st[id].k = "DL" /\ (id \o "#gen") \in P)
     \/ y < 1 /\ \/ \E id \in K : n.st[id].k = "SVC" /\ n.st[id].rt # RefOf(id, 1)
                 \/ \E id \in K : n.st[id].k = "T3" /\ OldLegTcs(n, id) # {}
                 \/ \E vl \in OfKind(n, {"VL"}) : VlLevel(n, ev, vl) = "NB" /\ \E b \in SeqSet(tp.vl[vl].bv) : Num(b.v) \/ Num(b.an)

DoXml(n, ev) ==
  LET v == Cur(n, ev.th)
  IN IF v = "" THEN Err(n)
     ELSE
     LET tp == ev.ret.tp
         x == VerOf(ev)
         m == Downgrade(n, v, x)
         K == KeptIds(m, v, ev)
         P == KeptParts(m, v, ev, tp, K)
         T == K \cup Twins(m, ev, tp, K)
     IN IF (ev.strict /\ Unsupported(n, v, x)) \/ NoSuchExt(n, v, ev, x) \/ Refused(m, v, ev, tp, K, P)
             \/ BadVersions(m, ev, x, P) \/ Formless(m, ev, T) \/ Spoiled(ev, T) THEN Err(n)
        ELSE IF "relabel" \in DOMAIN ev THEN IF TooNew(m, v, ev, tp, K, P) \/ (ev.relabel # "1.5" /\ G(ev, "res", "ok") = "err") THEN Err(n) ELSE Ok(n)
        ELSE IF ~ev.swap THEN Ok(n)
        ELSE Ok(Loaded(m, v, ev, tp, K, Kept(m, ev, P)))

\* a switch between buses has no kind: that of a retained switch is in the document, but is a breaker once loaded;
\* the buses of the bus view get new names in each bus/branch document
Renamed(n, v, ev) == Level(ev) = "BR" \/ \E s \in OfKind(n, {"SW"}) : IsNB(n, n.st[s].own) /\ VlLevel(n, ev, n.st[s].own) = "BB" /\ n.dy[v][s].ret /\ n.st[s].swk # "BREAKER"
\* contents that take two trips to settle in an old version
OldSame(n, v, x) == x = 0 \/ (x = 1 /\ \E e \in OfKind(n, {"RTC", "PTC"}) : n.dy[v][e].db = 0 /\ ~n.dy[v][e].reg)
XmlTags(n, ev) ==
  LET v == Cur(n, ev.th)
      r == ev.ret
  IN (IF v = "" THEN {} ELSE {"x:tp:" \o t : t \in CheckTopo(n, v, r.tp)})
     \cup (IF r.pure THEN {} ELSE {"x:pure"})
     \cup (IF "flat" \notin DOMAIN r \/ r.flat THEN {} ELSE {"x:flat"})
     \* an attribute that is missing is reported as such
     \cup (IF "cut" \in DOMAIN r /\ r.cut /\ ~ev.cutbad /\ ev.res = "err" /\ ~r.pow THEN {"x:cutwhy"} ELSE {})
     \cup (IF "same" \notin DOMAIN r \/ r.same \/ Renamed(n, v, ev) \/ OldSame(n, v, VerOf(ev)) THEN {} ELSE {"x:same"})
     \* the refusal of what a version cannot express says so
     \cup (IF v # "" /\ ev.res = "err" /\ ev.strict /\ Unsupported(n, v, VerOf(ev)) /\ ~NoSuchExt(n, v, ev, VerOf(ev)) /\ ~r.unsup
                 /\ (LET K == KeptIds(n, v, ev)
                          P == KeptParts(n, v, ev, r.tp, K)
                      IN ~Refused(n, v, ev, r.tp, K, P) /\ ~BadVersions(n, ev, VerOf(ev), P)) THEN {"x:why"} ELSE {})
     \cup (IF ~ev.anon \/ ev.res # "ok" THEN {}
           ELSE (IF r.leak = <<>> THEN {} ELSE {"x:leak"}) \cup (IF r.csv THEN {} ELSE {"x:csv"})
                \cup (IF r.csv /\ r.known = <<>> THEN {} ELSE {"x:known"}) \cup (IF r.csv /\ r.count THEN {} ELSE {"x:count"})
                \cup (IF ~r.csv \/ r.again \/ Renamed(n, v, ev) THEN {} ELSE {"x:again"}))
=============================================================================
