-------------------------------- MODULE Equip --------------------------------
(* E01, A01: creation of objects, attribute validity and setters.           *)
(* Validity is stated once per kind (StOk: shared attributes, DyOk:         *)
(* per-variant attributes given the shared ones).  An adder or a setter is  *)
(* accepted exactly when the resulting object is valid in every variant it  *)
(* changes; otherwise it is refused and changes nothing.                    *)
EXTENDS Identity

Pos(x) == Num(x) /\ x > 0
NumAll(r, F) == \A f \in F : Num(r[f])
\* a rating is absent or positive
RatingOk(x) == ~Num(x) \/ x > 0

\* steps of a tap changer
RtcFields == {"rho", "r", "x", "g", "b"}
PtcFields == RtcFields \cup {"alpha"}

StOk(s) ==
  CASE s.k = "NET" -> s.fd >= 0
    [] s.k = "VL" -> /\ Pos(s.nv) /\ ~Lt(s.lo, 0) /\ ~Lt(s.hi, 0) /\ ~Lt(s.hi, s.lo)
    [] s.k = "GEN" -> /\ NumAll(s, {"minP", "maxP"}) /\ s.minP <= s.maxP /\ RatingOk(s.rs)
    [] s.k = "BAT" -> /\ NumAll(s, {"minP", "maxP"}) /\ s.minP <= s.maxP
    [] s.k = "SHU" -> /\ s.model.max > 0
                      /\ IF s.model.t = "LINEAR" THEN Num(s.model.bps) ELSE \A i \in 1..Len(s.model.secs) : NumAll(s.model.secs[i], {"b", "g"})
    [] s.k = "SVC" -> NumAll(s, {"bmin", "bmax"})
    [] s.k = "DL" -> NumAll(s, {"r", "x", "g", "b"})
    [] s.k = "DLGEN" -> ~Lt(s.maxP, s.minP)
    [] s.k = "LCC" -> /\ Num(s.loss) /\ s.loss >= 0 /\ s.loss <= 800 /\ Num(s.pf) /\ Abs(s.pf) <= 8
    [] s.k = "VSC" -> /\ Num(s.loss) /\ s.loss >= 0 /\ s.loss <= 800
    [] s.k = "HVDC" -> /\ Num(s.r) /\ Pos(s.nv) /\ Num(s.maxP) /\ s.maxP >= 0
    [] s.k \in {"LINE", "HALF"} -> NumAll(s, {"r", "x", "g1", "b1", "g2", "b2"})
    [] s.k = "T2" -> NumAll(s, {"r", "x", "g", "b", "ru1", "ru2"}) /\ RatingOk(s.rs)
    [] s.k = "LEG" -> NumAll(s, {"r", "x", "g", "b", "ru"}) /\ RatingOk(s.rs)
    [] s.k = "LIM" -> ~Num(s.perm) \/ s.perm > 0
    [] OTHER -> TRUE

\* voltage control: a positive target when on, a reactive target when off
ControlOk(d) == IF d.on THEN Pos(d.tv) ELSE Num(d.tq)

DyOk(s, d) ==
  CASE s.k = "BUS" -> ~Lt(d.v, 0)
    [] s.k \in {"LOAD", "DL", "BAT"} -> NumAll(d, {"p0", "q0"})
    [] s.k = "GEN" -> Num(d.tp) /\ ControlOk(d)
    [] s.k = "DLGEN" -> Num(d.tp) /\ ControlOk(d)
    [] s.k = "VSC" -> ControlOk(d)
    [] s.k = "SHU" -> /\ d.n <= s.model.max /\ ~Lt(d.db, 0) /\ (d.on => Pos(d.tv) /\ Num(d.db))
    [] s.k = "SVC" -> /\ (d.mode = "VOLTAGE" => Num(d.vs)) /\ (d.mode = "REACTIVE_POWER" => Num(d.qs))
    [] s.k = "HVDC" -> Num(d.p) /\ d.p >= 0
    [] s.k = "RTC" -> /\ d.pos >= s.low /\ d.pos <= s.high /\ ~Lt(d.db, 0)
                      /\ (d.reg => Num(d.db)) /\ (d.reg /\ s.lt => Pos(d.tv) /\ s.rt # "")
    [] s.k = "PTC" -> /\ d.pos >= s.low /\ d.pos <= s.high /\ ~Lt(d.db, 0)
                      /\ (d.reg => Num(d.db) /\ s.mode # "FIXED_TAP" /\ Num(d.rv) /\ s.rt # "")
    [] OTHER -> TRUE

\* the tap changers competing for regulation
Rivals(n, own) == {x \in {own \o s : s \in {"#rtc", "#ptc", "#rtc1", "#rtc2", "#rtc3", "#ptc1", "#ptc2", "#ptc3"}} : x \in DOMAIN n.st}
OneRegulating(n, own) == \A v \in Vs(n) : Cardinality({x \in Rivals(n, own) : n.dy[v][x].reg}) <= 1

\* the object (or part) id is valid in the network n, in all variants
Valid(n, id) == StOk(n.st[id]) /\ \A v \in Vs(n) : id \in DOMAIN n.dy[v] => DyOk(n.st[id], n.dy[v][id])

-----------------------------------------------------------------------------
(* Terminals: where the ends of a new equipment go                          *)
NodeUsed(n, vl, node) == \E t \in TermsIn(n, vl) : NodeOf(n, t) = node
EndOk(n, e) ==
  IF ~IsKind(n, e.vl, "VL") THEN FALSE
  ELSE /\ ~(e.bus # "" /\ e.cbus # "" /\ e.bus # e.cbus)
       /\ IF IsNB(n, e.vl)
          THEN e.node >= 0 /\ e.bus = "" /\ e.cbus = "" /\ ~NodeUsed(n, e.vl, e.node)
          ELSE e.node < 0 /\ (IF e.bus # "" THEN e.bus ELSE e.cbus) \in BusesOf(n, e.vl)
EndsOk(n, ends) ==
  /\ \A i \in 1..Len(ends) : EndOk(n, ends[i])
  /\ \A i, j \in 1..Len(ends) : i < j /\ ends[i].vl = ends[j].vl /\ IsNB(n, ends[i].vl) => ends[i].node # ends[j].node
Ts(n, ends) == [i \in 1..Len(ends) |-> [vl |-> ends[i].vl, node |-> IF IsNB(n, ends[i].vl) THEN ends[i].node ELSE -1]]
Td(n, ends) == [i \in 1..Len(ends) |-> [p |-> NaN, q |-> NaN, v |-> NaN, an |-> NaN,
                 cb |-> IF IsNB(n, ends[i].vl) THEN "" ELSE IF ends[i].bus # "" THEN ends[i].bus ELSE ends[i].cbus,
                 con |-> ~IsNB(n, ends[i].vl) /\ ends[i].bus # ""]]

-----------------------------------------------------------------------------
(* New objects: the records an adder produces from its arguments            *)
\* the conductance of a section, when it is not given, is that of the previous one
RECURSIVE SectionG(_, _)
SectionG(secs, i) == IF Num(G(secs[i], "g", NaN)) THEN secs[i].g ELSE IF i = 1 THEN 0 ELSE SectionG(secs, i - 1)
Ident(ev, id, k) == [nm |-> ev.nm, fic |-> ev.fic, k |-> k]
NewSt(n, ev, id) ==
  LET a == ev.a
      k == ev.k
      base == Ident(ev, id, k)
      D(f) == G(a, f, NaN)
      ts == [ts |-> Ts(n, ev.ends)]
      rt == [rt |-> IF G(a, "rt", "") = "" THEN RefOf(id, 1) ELSE a.rt]
  IN CASE k = "SUB" -> base @@ [country |-> G(a, "country", ""), tso |-> G(a, "tso", ""), tags |-> [t \in SeqSet(G(a, "tags", <<>>)) |-> 1]]
       [] k = "VL" -> base @@ [own |-> ev.sub, topo |-> a.topo, nv |-> D("nv"), lo |-> D("lo"), hi |-> D("hi")]
       [] k = "BUS" -> base @@ [own |-> ev.ends[1].vl]
       [] k = "SW" -> base @@ IF IsNB(n, ev.ends[1].vl)
                             THEN [own |-> ev.ends[1].vl, swk |-> IF ev.via = "breaker" THEN G(a, "swk", "BREAKER") ELSE IF ev.via = "disconnector" THEN G(a, "swk", "DISCONNECTOR") ELSE a.swk,
                                   n1 |-> ev.ends[1].node, n2 |-> ev.ends[2].node, b1 |-> "", b2 |-> ""]
                             ELSE [own |-> ev.ends[1].vl, swk |-> "BREAKER", n1 |-> -1, n2 |-> -1, b1 |-> ev.ends[1].bus, b2 |-> ev.ends[2].bus]
       [] k = "BBS" -> base @@ ts
       [] k = "LOAD" -> base @@ ts @@ [lt |-> G(a, "lt", "UNDEFINED")]
       [] k = "GEN" -> base @@ ts @@ rt @@ [es |-> G(a, "es", "OTHER"), minP |-> D("minP"), maxP |-> D("maxP"), rs |-> D("rs")]
       [] k = "BAT" -> base @@ ts @@ [minP |-> D("minP"), maxP |-> D("maxP")]
       [] k = "SHU" -> base @@ ts @@ rt @@
                       [model |-> IF a.model = "LINEAR" THEN [t |-> "LINEAR", max |-> a.max, bps |-> a.bps, gps |-> G(a, "gps", NaN)]
                                  ELSE [t |-> "NON_LINEAR", max |-> Len(a.secs),
                                        secs |-> [i \in 1..Len(a.secs) |-> [b |-> G(a.secs[i], "b", NaN), g |-> SectionG(a.secs, i)]]]]
       [] k = "SVC" -> base @@ ts @@ rt @@ [bmin |-> D("bmin"), bmax |-> D("bmax")]
       [] k = "DL" -> base @@ ts @@ [r |-> D("r"), x |-> D("x"), g |-> D("g"), b |-> D("b"), ucte |-> G(a, "ucte", "")]
       [] k = "LCC" -> base @@ ts @@ [loss |-> D("loss"), pf |-> D("pf"), hl |-> ""]
       [] k = "VSC" -> base @@ ts @@ [loss |-> D("loss"), hl |-> ""]
       [] k = "HVDC" -> base @@ [r |-> D("r"), nv |-> D("nv"), maxP |-> D("maxP"), c1 |-> Resolve(n, G(a, "c1", "")), c2 |-> Resolve(n, G(a, "c2", ""))]
       [] k = "LINE" -> base @@ ts @@ [f \in {"r", "x", "g1", "b1", "g2", "b2"} |-> D(f)]
       [] k = "TIE" -> base @@ ts @@ [ucte |-> G(a, "ucte", "")] @@
                       [f \in {"r", "x", "g1", "b1", "g2", "b2"} |-> a.h1[f] + a.h2[f]]
       [] k = "T2" -> base @@ ts @@ [f \in {"r", "x", "g", "b", "ru1", "ru2", "rs"} |-> D(f)] @@ [own |-> ev.sub]
       [] k = "T3" -> base @@ ts @@ [own |-> ev.sub, ru0 |-> IF "ru0" \in DOMAIN a /\ Num(a.ru0) THEN a.ru0 ELSE G(a.legs[1], "ru", NaN)]
NewDy(n, ev, id) ==
  LET a == ev.a
      k == ev.k
      D(f) == G(a, f, NaN)
      t == [t |-> Td(n, ev.ends)]
  IN CASE k = "BUS" -> [v |-> NaN, ang |-> NaN]
       [] k = "SW" -> [open |-> G(a, "open", FALSE), ret |-> IF IsNB(n, ev.ends[1].vl) THEN G(a, "ret", FALSE) ELSE TRUE]
       [] k = "BBS" -> t
       [] k \in {"LOAD", "DL"} -> t @@ [p0 |-> D("p0"), q0 |-> D("q0")]
       [] k = "GEN" -> t @@ [on |-> G(a, "on", FALSE), tp |-> D("tp"), tq |-> D("tq"), tv |-> D("tv")]
       [] k = "BAT" -> t @@ [p0 |-> D("p0"), q0 |-> D("q0")]
       [] k = "SHU" -> t @@ [n |-> a.n, on |-> G(a, "on", FALSE), tv |-> D("tv"), db |-> D("db")]
       [] k = "SVC" -> t @@ [vs |-> D("vs"), qs |-> D("qs"), mode |-> a.mode]
       [] k = "LCC" -> t
       [] k = "VSC" -> t @@ [on |-> a.on, tv |-> D("tv"), tq |-> D("tq")]
       [] k = "HVDC" -> [mode |-> a.mode, p |-> D("p")]
       [] k \in {"LINE", "TIE", "T2", "T3"} -> t

\* attributes that must be given at all
Given(ev) ==
  LET a == ev.a
      k == ev.k
      has(F) == F \subseteq DOMAIN a
  IN CASE k = "VL" -> has({"topo"})
       [] k = "GEN" -> has({"on"})
       [] k = "VSC" -> has({"on"})
       [] k = "SVC" -> has({"mode"})
       [] k = "HVDC" -> has({"mode"})
       [] k = "TIE" -> /\ has({"ucte", "h1", "h2"}) /\ a.ucte # ""
                       /\ \A h \in {a.h1, a.h2} : {"id", "r", "x", "g1", "b1", "g2", "b2"} \subseteq DOMAIN h /\ h.id # ""
       [] k = "SHU" -> /\ has({"model", "n"})
                       /\ IF a.model = "LINEAR" THEN has({"bps", "max"}) ELSE a.model = "NON_LINEAR" /\ has({"secs"}) /\ a.secs # <<>>
       [] k = "T3" -> has({"legs"}) /\ Len(a.legs) = 3
       [] OTHER -> TRUE

\* the parent of the new object exists (otherwise there is nothing to call an adder on)
ParentOk(n, ev) ==
  CASE ev.k \in {"SUB", "HVDC", "LINE", "TIE"} -> TRUE
    [] ev.k \in {"VL", "T2", "T3"} -> IsKind(n, ev.sub, "SUB")
    [] OTHER -> IsKind(n, ev.ends[1].vl, "VL")

\* references of the new object to others are sound
RefsOk(n, ev) ==
  LET a == ev.a
      k == ev.k
  IN CASE k = "BUS" -> ~IsNB(n, ev.ends[1].vl)
       [] k = "BBS" -> IsNB(n, ev.ends[1].vl) /\ EndOk(n, ev.ends[1])
       [] k = "SW" -> IF IsNB(n, ev.ends[1].vl) THEN /\ ev.ends[1].node >= 0 /\ ev.ends[2].node >= 0
                                                    /\ (ev.via \in {"breaker", "disconnector"} \/ "swk" \in DOMAIN a)
                      ELSE ev.ends[1].bus \in BusesOf(n, ev.ends[1].vl) /\ ev.ends[2].bus \in BusesOf(n, ev.ends[1].vl)
       [] k \in {"GEN", "SHU", "SVC"} -> EndsOk(n, ev.ends) /\ (G(a, "rt", "") = "" \/ a.rt \in TermRefs(n))
       [] k \in {"LOAD", "BAT", "DL", "LCC", "VSC", "LINE", "TIE"} -> EndsOk(n, ev.ends)
       [] k \in {"T2", "T3"} -> EndsOk(n, ev.ends) /\ \A i \in 1..Len(ev.ends) : SubOf(n, ev.ends[i].vl) = ev.sub
       [] k = "HVDC" -> \A c \in {"c1", "c2"} : Resolve(n, G(a, c, "")) \in OfKind(n, {"LCC", "VSC"})
       [] OTHER -> TRUE

\* parts created together with the object: <<suffix, shared record, per-variant record or <<>>>>
NewParts(n, ev, id) ==
  LET a == ev.a
      k == ev.k
      max == [rlk |-> "MIN_MAX", k |-> "RL", minQ |-> NegMax, maxQ |-> PosMax]
  IN CASE k \in {"GEN", "BAT", "VSC"} -> {<<"#rl", max, <<>>>>}
       [] k = "DL" /\ "gen" \in DOMAIN a ->
            {<<"#rl", max, <<>>>>,
             <<"#gen", [k |-> "DLGEN", minP |-> Default(G(a.gen, "minP", NaN), NegMax), maxP |-> Default(G(a.gen, "maxP", NaN), PosMax)],
                       [tp |-> G(a.gen, "tp", NaN), tq |-> G(a.gen, "tq", NaN), tv |-> G(a.gen, "tv", NaN), on |-> G(a.gen, "on", FALSE)]>>}
       [] k = "TIE" -> {<<"#half" \o ToString(i),
                          LET h == IF i = 1 THEN a.h1 ELSE a.h2
                          IN [k |-> "HALF", hid |-> h.id, nm |-> IF G(h, "nm", "") = "" THEN h.id ELSE h.nm, fic |-> G(h, "fic", FALSE)] @@ [f \in {"r", "x", "g1", "b1", "g2", "b2"} |-> h[f]],
                          <<>>>> : i \in {1, 2}}
       [] k = "T3" -> {<<"#leg" \o ToString(i), [k |-> "LEG", t |-> RefOf(id, i)] @@ [f \in {"r", "x", "g", "b", "ru", "rs"} |-> G(a.legs[i], f, IF i > 1 /\ f \in {"g", "b"} THEN 0 ELSE NaN)], <<>>>> : i \in 1..3}
       [] OTHER -> {}

Attach(n, id, s) == \* converter stations know the line they belong to
  IF s.k = "HVDC" THEN SetSt(SetSt(n, s.c1, "hl", id), s.c2, "hl", id) ELSE n

DoAdd(n, ev) ==
  IF ev.k = "IC"
  THEN IF ~IsKind(n, ev.ends[1].vl, "VL") THEN Nil(n)
       ELSE IF ~IsNB(n, ev.ends[1].vl) \/ ev.ends[1].node < 0 \/ ev.ends[2].node < 0 THEN Err(n)
       ELSE LET vl == ev.ends[1].vl
                p == <<ev.ends[1].node, ev.ends[2].node>>
                f == IcOf(n, vl)
            IN Ok([n EXCEPT !.ic = (vl :> ((p :> 1 + G(f, p, 0)) @@ f)) @@ @])
  ELSE IF ~ParentOk(n, ev) THEN Nil(n)
  ELSE LET id == NewId(n, ev)
       IN IF id = "" \/ ~RefsOk(n, ev) \/ ~Given(ev) THEN Err(n)
          ELSE LET s == NewSt(n, ev, id)
                   ps == NewParts(n, ev, id)
                   dyn == ev.k \notin {"SUB", "VL"}
                   d == IF dyn THEN NewDy(n, ev, id) ELSE <<>>
               IN IF /\ StOk(s) /\ (dyn => DyOk(s, d))
                     /\ \A p \in ps : StOk(p[2]) /\ (p[3] # <<>> => DyOk(p[2], p[3]))
                  THEN LET parts == [x \in {id \o p[1] : p \in ps} |-> (CHOOSE p \in ps : id \o p[1] = x)[2]]
                           dparts == [x \in {id \o p[1] : p \in {q \in ps : q[3] # <<>>}} |-> (CHOOSE p \in ps : id \o p[1] = x)[3]]
                           m == [n EXCEPT !.st = (id :> s) @@ parts @@ @,
                                          !.dy = [v \in DOMAIN @ |-> IF dyn THEN (id :> d) @@ dparts @@ @[v] ELSE @[v]]]
                       IN OkR(Attach(m, id, s), id)
                  ELSE Err(n)

-----------------------------------------------------------------------------
(* Setters                                                                  *)
StSet(k) ==
  CASE k = "NET" -> {"fd"}
    [] k = "SUB" -> {"tso", "country"}
    [] k = "VL" -> {"nv", "lo", "hi"}
    [] k = "LOAD" -> {"lt"}
    [] k = "GEN" -> {"minP", "maxP", "rs", "es", "rt"}
    [] k = "BAT" -> {"minP", "maxP"}
    [] k = "SHU" -> {"rt"}
    [] k = "SVC" -> {"bmin", "bmax", "rt"}
    [] k = "DL" -> {"r", "x", "g", "b"}
    [] k = "DLGEN" -> {"minP", "maxP"}
    [] k = "LCC" -> {"loss", "pf"}
    [] k = "VSC" -> {"loss"}
    [] k = "HVDC" -> {"r", "nv", "maxP"}
    [] k \in {"LINE", "HALF"} -> {"r", "x", "g1", "b1", "g2", "b2"}
    [] k = "T2" -> {"r", "x", "g", "b", "ru1", "ru2", "rs"}
    [] k = "LEG" -> {"r", "x", "g", "b", "ru", "rs"}
    [] k = "LIM" -> {"perm"}
    [] k = "RTC" -> {"rt", "lt"}
    [] k = "PTC" -> {"rt", "mode"}
    [] OTHER -> {}
DySet(k) ==
  CASE k = "BUS" -> {"v", "ang"}
    [] k = "SW" -> {"open", "ret"}
    [] k \in {"LOAD", "BAT", "DL"} -> {"p0", "q0"}
    [] k \in {"GEN", "DLGEN"} -> {"tp", "tq", "tv", "on"}
    [] k = "VSC" -> {"on", "tv", "tq"}
    [] k = "SHU" -> {"n", "on", "tv", "db"}
    [] k = "SVC" -> {"vs", "qs", "mode"}
    [] k = "HVDC" -> {"p", "mode"}
    [] k = "RTC" -> {"pos", "reg", "db", "tv"}
    [] k = "PTC" -> {"pos", "reg", "db", "rv"}
    [] OTHER -> {}

\* an object of several parts: a tie line's totals follow its halves, the current step of a tap changer its position
IsTap(s) == s.k \in {"RTC", "PTC"}
TapStep(s, pos) == s.steps[pos - s.low + 1]
Follow(n, key, own) ==
  IF n.st[key].k = "HALF"
  THEN LET h1 == n.st[own \o "#half1"]
           h2 == n.st[own \o "#half2"]
       IN [n EXCEPT !.st[own] = [f \in {"r", "x", "g1", "b1", "g2", "b2"} |-> h1[f] + h2[f]] @@ @]
  ELSE IF IsTap(n.st[key])
  THEN [n EXCEPT !.dy = [v \in DOMAIN n.dy |->
          LET d == n.dy[v][key]
              s == n.st[key]
          IN [n.dy[v] EXCEPT ![key] = IF s.low <= d.pos /\ d.pos <= s.high THEN [d EXCEPT !.cs = TapStep(s, d.pos)] ELSE d]]]
  ELSE n

\* the parts of a tap changer that a setter of its owner cannot reach are checked here
SetOk(n, key, own) == Valid(n, key) /\ (IsTap(n.st[key]) => OneRegulating(n, own))
Try(n, m, key, own) == IF SetOk(m, key, own) THEN Ok(Follow(m, key, own)) ELSE Err(n)

\* dates: year, month, day, hour, minute, second, microsecond, sign of the zone (0 when the zone is Z), its hours, its minutes
RECURSIVE Padded(_, _)
Padded(x, w) == IF w = 0 THEN "" ELSE Padded(x \div 10, w - 1) \o ToString(x % 10)
IsDate(t) == /\ t # <<>>
             /\ t[2] \in 1..12
             /\ t[3] >= 1
             /\ t[3] <= CASE t[2] \in {4, 6, 9, 11} -> 30
                          [] t[2] = 2 -> IF t[1] % 4 = 0 /\ (t[1] % 100 # 0 \/ t[1] % 400 = 0) THEN 29 ELSE 28
                          [] OTHER -> 31
DateText(t) == Padded(t[1], 4) \o "-" \o Padded(t[2], 2) \o "-" \o Padded(t[3], 2) \o "T" \o Padded(t[4], 2) \o ":" \o Padded(t[5], 2) \o ":" \o Padded(t[6], 2)
               \o (IF t[7] = 0 THEN "" ELSE "." \o Padded(t[7], 6)) \o (IF t[8] < 0 /\ t[9] + t[10] > 0 THEN "-" ELSE "+") \o Padded(t[9], 2) \o ":" \o Padded(t[10], 2)
DoSet(n, ev) ==
  LET key == IF Has(n, ev.id) THEN ev.id ELSE IF ev.own = "" THEN Resolve(n, ev.id) ELSE ""
      th == ev.th
      v == Cur(n, th)
      f == ev.f
  IN IF f \in {"bps", "gps", "max", "secb", "secg"} /\ ev.own # ""
     THEN \* the model of a shunt compensator
          IF ~IsKind(n, ev.own, "SHU") THEN Nil(n)
          ELSE LET s == n.st[ev.own]
                   m == s.model
               IN IF f \in {"bps", "gps", "max"}
                  THEN IF m.t # "LINEAR" THEN Nil(n)
                       ELSE Try(n, SetSt(n, ev.own, "model", [m EXCEPT ![f] = ev.x]), ev.own, ev.own)
                  ELSE IF m.t # "NON_LINEAR" \/ ev.at \notin 1..Len(m.secs) THEN Nil(n)
                       ELSE LET g == IF f = "secb" THEN "b" ELSE "g"
                                sec == m.secs[ev.at]
                            IN Try(n, SetSt(n, ev.own, "model", [m EXCEPT !.secs = [@ EXCEPT ![ev.at] = (g :> ev.x) @@ sec]]), ev.own, ev.own)
     ELSE IF key = "" THEN Nil(n)
     ELSE LET s == n.st[key]
              k == s.k
              own == IF ev.own = "" THEN key ELSE ev.own
          IN IF f = "fic" /\ k \notin (SubKinds \ {"HALF"}) THEN Ok(SetSt(n, key, "fic", ev.x))
             ELSE IF k = "NET" /\ f = "date" THEN IF IsDate(ev.dt) THEN Ok(SetSt(n, key, "date", DateText(ev.dt))) ELSE Err(n)
             ELSE IF k = "SUB" /\ f = "tag" THEN Ok(SetSt(n, key, "tags", (ev.x :> 1) @@ s.tags))
             ELSE IF IsTap(s) /\ f = "low"
                  THEN \* the whole range moves, and every variant's position with it
                       LET delta == ev.x - s.low
                           m == SetSt(SetSt(n, key, "low", ev.x), key, "high", s.high + delta)
                       IN Ok([m EXCEPT !.dy = [w \in DOMAIN @ |-> [@[w] EXCEPT ![key] = [@ EXCEPT !.pos = @ + delta]]]])
             ELSE IF IsTap(s) /\ f = "step"
                  THEN IF ev.at < s.low \/ ev.at > s.high THEN Err(n)
                       ELSE Ok(Follow(SetSt(n, key, "steps", [s.steps EXCEPT ![ev.at - s.low + 1] = (ev.c :> ev.x) @@ @]), key, own))
             ELSE IF k = "TIE" /\ f \in StSet("LINE") THEN Err(n)    \* the characteristics of a tie line are those of its halves
             ELSE IF f \in StSet(k)
                  THEN IF f = "rt"
                       THEN LET x == IF ev.x = "" /\ ~IsTap(s) THEN RefOf(key, 1) ELSE ev.x
                            IN IF x # "" /\ x \notin TermRefs(n) THEN Err(n) ELSE Try(n, SetSt(n, key, "rt", x), key, own)
                       ELSE IF k = "DLGEN" /\ ~Num(ev.x) THEN Err(n)
                       ELSE Try(n, SetSt(n, key, f, ev.x), key, own)
             ELSE IF f \in DySet(k)
                  THEN IF v = "" THEN Err(n)
                       ELSE IF k = "SW" /\ f = "ret" /\ ~IsNB(n, s.own) THEN Err(n)
                       ELSE Try(n, SetDy(n, v, key, f, ev.x), key, own)
             ELSE Nil(n)

\* values of a terminal
DoTset(n, ev) ==
  IF ~HasTerm(n, ev.tc, ev.ti + 1) THEN Nil(n)
  ELSE LET v == Cur(n, ev.th)
           i == ev.ti + 1
       IN IF n.st[ev.tc].k = "BBS" \/ v = "" \/ (n.st[ev.tc].k = "SHU" /\ ev.f = "p" /\ Num(ev.x)) THEN Err(n)
          ELSE Ok(SetDy(n, v, ev.tc, "t", [n.dy[v][ev.tc].t EXCEPT ![i] = [@ EXCEPT ![ev.f] = ev.x]]))

-----------------------------------------------------------------------------
(* Tap changers, limits and reactive limits are parts created on their own  *)
TapSteps(k, a) == [i \in 1..Len(a.steps) |-> a.steps[i]]
DoAddTap(n, ev) ==
  LET a == ev.a
      key == ev.own \o (IF ev.k = "RTC" THEN "#rtc" ELSE "#ptc") \o (IF ev.leg = 0 THEN "" ELSE ToString(ev.leg))
      low == G(a, "low", 0)
      F == IF ev.k = "RTC" THEN RtcFields ELSE PtcFields
  IN IF ~Has(n, ev.own) THEN Nil(n)
     ELSE IF ~((n.st[ev.own].k = "T2" /\ ev.leg = 0) \/ (n.st[ev.own].k = "T3" /\ ev.leg \in 1..3)) THEN Nil(n)
     ELSE IF "pos" \notin DOMAIN a \/ a.steps = <<>> THEN Err(n)
     ELSE IF \E i \in 1..Len(a.steps) : DOMAIN a.steps[i] # F \/ ~NumAll(a.steps[i], F) THEN Err(n)
     ELSE IF G(a, "rt", "") # "" /\ G(a, "rt", "") \notin TermRefs(n) THEN Err(n)
     ELSE LET s == [k |-> ev.k, low |-> low, high |-> low + Len(a.steps) - 1, cnt |-> Len(a.steps), steps |-> a.steps, rt |-> G(a, "rt", "")]
                   @@ IF ev.k = "RTC" THEN [lt |-> G(a, "lt", FALSE)] ELSE [mode |-> G(a, "mode", "FIXED_TAP")]
              d0 == [pos |-> a.pos, reg |-> G(a, "reg", FALSE), db |-> G(a, "db", NaN)]
                   @@ IF ev.k = "RTC" THEN [tv |-> G(a, "tv", NaN)] ELSE [rv |-> G(a, "rv", NaN)]
          IN IF a.pos < low \/ a.pos > s.high THEN Err(n)
             ELSE LET d == [cs |-> TapStep(s, a.pos)] @@ d0
                      m == Put(n, key, s, d)
                  IN IF SetOk(m, key, ev.own) THEN Ok(m) ELSE Err(n)

LimSide(k, side) == \/ k \in Branches /\ side \in {1, 2}
                    \/ k = "T3" /\ side \in {1, 2, 3}
                    \/ k = "DL" /\ side = 0
\* temporary limits are sorted by decreasing acceptable duration (-1 stands for an unbounded one)
DurLt(x, y) == x # -1 /\ (y = -1 \/ x < y)
RECURSIVE SortTemps(_)
SortTemps(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE t \in S : \A u \in S : ~DurLt(t.d, u.d) IN <<m>> \o SortTemps(S \ {m})
\* a temporary limit may ask for a name of its own: the first free one of nm, nm#0, nm#1, ... is given to it
LimName(nm, taken) == IF nm \notin taken THEN nm ELSE LET i == CHOOSE i \in 0..Cardinality(taken) : (nm \o "#" \o ToString(i)) \notin taken /\ \A j \in 0..(i - 1) : (nm \o "#" \o ToString(j)) \in taken
                                                     IN nm \o "#" \o ToString(i)
RECURSIVE LimNames(_, _)
LimNames(tmp, done) == IF Len(done) = Len(tmp) THEN done
                       ELSE LET t == tmp[Len(done) + 1]
                            IN LimNames(tmp, Append(done, IF "uniq" \in DOMAIN t THEN LimName(t.nm, Range(done)) ELSE t.nm))
DoAddLim(n, ev) ==
  LET a == ev.a
      key == ev.own \o "#lim" \o ToString(ev.side) \o ev.lty
      tmp == a.temps
      okT(t) == {"nm", "v", "d"} \subseteq DOMAIN t /\ Pos(t.v) /\ t.nm # ""
  IN IF ~Has(n, ev.own) THEN Nil(n)
     ELSE IF ~LimSide(n.st[ev.own].k, ev.side) THEN Nil(n)
     ELSE IF \E i \in 1..Len(tmp) : ~okT(tmp[i]) THEN Err(n)
     ELSE LET names == LimNames(tmp, <<>>)
              recs == {[nm |-> names[i], v |-> tmp[i].v, d |-> tmp[i].d, fic |-> G(tmp[i], "fic", FALSE)] : i \in 1..Len(tmp)}
              s == [k |-> "LIM", perm |-> G(a, "perm", NaN), temps |-> SortTemps(recs)]
              m == PutSt(n, key, s)
          IN IF \E i, j \in 1..Len(tmp) : i < j /\ names[i] = names[j] THEN Err(n)
             ELSE IF StOk(s) THEN Ok(m) ELSE Err(n)

DoAddRl(n, ev) ==
  LET a == ev.a
      key == ev.own \o "#rl"
  IN IF ~Has(n, key) THEN Nil(n)
     ELSE IF ev.rlk = "MIN_MAX"
     THEN LET lo == G(a, "minQ", NaN)
              hi == G(a, "maxQ", NaN)
          IN IF ~Num(lo) \/ ~Num(hi) \/ lo > hi THEN Err(n)
             ELSE Ok(PutSt(n, key, [k |-> "RL", rlk |-> "MIN_MAX", minQ |-> lo, maxQ |-> hi]))
     ELSE LET P == a.pts
              full(i) == {"p", "minQ", "maxQ"} \subseteq DOMAIN P[i] /\ NumAll(P[i], {"p", "minQ", "maxQ"})
              ps == {P[i].p : i \in 1..Len(P)}
          IN IF (\E i \in 1..Len(P) : ~full(i)) \/ Len(P) < 2 \/ Cardinality(ps) # Len(P) THEN Err(n)
             ELSE LET at(j) == CHOOSE i \in 1..Len(P) : Cardinality({q \in ps : q < P[i].p}) = j - 1
                  IN Ok(PutSt(n, key, [k |-> "RL", rlk |-> "CURVE", n |-> Len(P), minP |-> MinOf(ps), maxP |-> MaxOf(ps),
                                       pts |-> [j \in 1..Len(P) |-> [p |-> P[at(j)].p, minQ |-> P[at(j)].minQ, maxQ |-> P[at(j)].maxQ]]]))
=============================================================================
