-------------------------------- MODULE Ext ----------------------------------
(* P01: extensions.  An object holds at most one extension of each kind; it *)
(* is the entry "<id>#ext:<name>" of the state (shared data in st, data with*)
(* one value per variant in dy).                                            *)
EXTENDS Query

Loadish == {"fp", "fq", "vp", "vq"}
\* the kinds of object an extension may be attached to
ExtHosts(xn) ==
  CASE xn = "detail" -> {"LOAD"}
    [] xn = "slackTerminal" -> {"VL"}
    [] xn \in {"branchStatus", "position"} -> Connectables
    [] xn = "busbarSectionPosition" -> {"BBS"}
    [] xn = "activePowerControl" -> {"GEN", "BAT"}
    [] xn \in {"coordinatedReactiveControl", "generatorRemoteReactivePowerControl"} -> {"GEN"}
    [] xn \in {"hvdcAngleDroopActivePowerControl", "hvdcOperatorActivePowerRange"} -> {"HVDC"}
    [] xn = "twoWindingsTransformerPhaseAngleClock" -> {"T2"}
    [] xn = "threeWindingsTransformerPhaseAngleClock" -> {"T3"}
    [] xn = "voltagePerReactivePowerControl" -> {"SVC"}
    [] xn = "entsoeArea" -> {"SUB"}
    [] xn = "mergedXnode" -> Lines
    [] xn = "xnode" -> {"DL"}
    [] OTHER -> Connectables \cup {"NET", "SUB", "VL", "BUS", "SW", "HVDC"}

\* shared fields, with the value of those not given to the adder
ExtDefaults(xn) ==
  CASE xn = "branchStatus" -> [status |-> ""]
    [] xn = "busbarSectionPosition" -> [bi |-> -1, si |-> -1]
    [] xn = "activePowerControl" -> [part |-> FALSE, droop |-> 0]
    [] xn = "coordinatedReactiveControl" -> [qp |-> NaN]
    [] xn = "hvdcAngleDroopActivePowerControl" -> [p0 |-> NaN, droop |-> NaN, en |-> FALSE]
    [] xn = "hvdcOperatorActivePowerRange" -> [o12 |-> 0, o21 |-> 0]
    [] xn = "generatorRemoteReactivePowerControl" -> [tq |-> 0, en |-> FALSE, t |-> ""]
    [] xn = "twoWindingsTransformerPhaseAngleClock" -> [pac |-> -1]
    [] xn = "threeWindingsTransformerPhaseAngleClock" -> [l2 |-> -1, l3 |-> -1]
    [] xn = "voltagePerReactivePowerControl" -> [slope |-> 0]
    [] xn = "entsoeArea" -> [code |-> ""]
    [] xn = "mergedXnode" -> [rdp |-> NaN, xdp |-> NaN, p1 |-> NaN, q1 |-> NaN, p2 |-> NaN, q2 |-> NaN, l1 |-> "", l2 |-> "", code |-> ""]
    [] xn = "xnode" -> [code |-> ""]
    [] xn \in {"measurements", "discreteMeasurements"} -> [items |-> <<>>]
    [] OTHER -> <<>>

FeedersOk(a) ==
  LET F == DOMAIN a \cap {"f0", "f1", "f2", "f3"}
  IN /\ F # {} /\ \A f \in F : a[f].nm # ""
     /\ ("f0" \in F => F = {"f0"})
     /\ ("f1" \notin F => F \cap {"f2", "f3"} = {})
     /\ ("f2" \notin F => "f3" \notin F)

\* is a value acceptable for a field of an extension?
FieldOk(xn, f, x) ==
  CASE xn = "detail" -> Num(x)
    [] xn = "coordinatedReactiveControl" -> Num(x)
    [] xn = "hvdcAngleDroopActivePowerControl" /\ f \in {"p0", "droop"} -> Num(x)
    [] xn = "hvdcOperatorActivePowerRange" -> ~Lt(x, 0)
    [] xn \in {"twoWindingsTransformerPhaseAngleClock", "threeWindingsTransformerPhaseAngleClock"} -> x \in 0..11
    [] xn = "voltagePerReactivePowerControl" -> Num(x) /\ x >= 0
    [] xn = "mergedXnode" /\ f \in {"rdp", "xdp"} -> Num(x) /\ x >= 0 /\ x <= 8
    [] xn = "mergedXnode" /\ f \in {"p1", "q1", "p2", "q2"} -> Num(x)
    [] xn = "mergedXnode" /\ f = "code" -> x # ""
    [] xn = "xnode" -> x # ""
    [] xn \in {"branchStatus", "entsoeArea"} -> x # ""
    [] xn = "busbarSectionPosition" -> x >= 0
    [] xn = "generatorRemoteReactivePowerControl" /\ f = "t" -> x # ""
    [] OTHER -> TRUE

\* the slack terminal extension knows whether some variant has a terminal
Slack(n, id) == ExtId(id, "slackTerminal")
SlackTerms(n, id) == {n.dy[v][Slack(n, id)].t : v \in Vs(n)} \ {""}
\* the terminal named by a reference is one of this voltage level
RefIn(n, x, vl) == \E t \in TermsIn(n, vl) : Ref(t) = x
\* a reference to a terminal of an object that does not exist is not an operation
RefHere(n, x) == x = "" \/ x = "@" \/ x \in TermRefs(n)

SharedExt(xn, s) == s @@ [k |-> "EXT", xn |-> xn, own |-> TRUE, typed |-> TRUE]
DropExt(n, id, xn) == Drop(n, {ExtId(id, xn)})

DoSlackAdd(n, ev, id, t) ==
  IF ~RefHere(n, t) THEN Nil(n)
  ELSE IF n.st[id].k # "VL" \/ t = "" \/ Cur(n, ev.th) = "" \/ ~RefIn(n, t, id) THEN Err(n)
  ELSE LET m == DropExt(n, id, "slackTerminal")
           e == Slack(n, id)
       IN Ok([m EXCEPT !.st = (e :> SharedExt("slackTerminal", <<>>)) @@ @,
                       !.dy = [v \in DOMAIN @ |-> (e :> [t |-> IF v = Cur(n, ev.th) THEN t ELSE ""]) @@ @[v]]])

DoExtAdd(n, ev) ==
  LET id == Resolve(n, ev.id)
      xn == ev.xn
      a == ev.a
      e == ExtId(id, xn)
  IN IF id = "" THEN Nil(n)
     ELSE IF xn = "slackTerminal" THEN DoSlackAdd(n, ev, id, G(a, "t", ""))
     ELSE IF xn = "generatorRemoteReactivePowerControl" /\ ~RefHere(n, G(a, "t", "")) THEN Nil(n)
     ELSE IF n.st[id].k \notin ExtHosts(xn) THEN Err(n)
     ELSE IF xn = "position" THEN IF FeedersOk(a) THEN Ok(PutSt(DropExt(n, id, xn), e, SharedExt(xn, a))) ELSE Err(n)
     ELSE IF xn = "detail"
     THEN LET d == [f \in Loadish |-> G(a, f, 0)]
          IN IF \A f \in Loadish : Num(d[f]) THEN Ok(Put(DropExt(n, id, xn), e, SharedExt(xn, <<>>), d)) ELSE Err(n)
     ELSE LET D == ExtDefaults(xn)
              s == [f \in DOMAIN D |-> G(a, f, D[f])]
          IN IF \A f \in DOMAIN s : FieldOk(xn, f, s[f]) THEN Ok(PutSt(DropExt(n, id, xn), e, SharedExt(xn, s))) ELSE Err(n)

-----------------------------------------------------------------------------
(* measurements *)
SetItems(n, e, it) == SetSt(n, e, "items", it)
Props(a) == IF "pk" \in DOMAIN a THEN (a.pk :> a.pv) ELSE <<>>
DoMeas(n, ev, id, e) ==
  LET it == n.st[e].items
      a == IF ev.f = "new" THEN ev.a ELSE <<>>
      inj == n.st[id].k \in Injections
      val == G(a, "value", NaN)
      side == G(a, "side", "")
  IN IF ev.f = "clean" THEN IF it = <<>> THEN Ok(DropExt(n, id, "measurements")) ELSE Ok(n)
     ELSE IF ev.f = "new"
     THEN IF \/ n.st[id].k \notin Connectables
             \/ ev.mid # "" /\ ev.mid \in DOMAIN it
             \/ G(a, "type", "") = ""
             \/ (G(a, "valid", TRUE) /\ ~Num(val))
             \/ (side # "" /\ inj)
             \/ (side = "" /\ ~inj /\ a.type # "OTHER")
             \/ ("pk" \in DOMAIN a /\ a.pk = "")
          THEN Err(n)
          ELSE Ok(SetItems(n, e, (ev.mid :> [type |-> a.type, side |-> side, value |-> val, sd |-> G(a, "sd", NaN), valid |-> G(a, "valid", TRUE), pr |-> Props(a)]) @@ it))
     ELSE IF ev.mid \notin DOMAIN it THEN Nil(n)
     ELSE LET m == it[ev.mid]
              put(f, x) == Ok(SetItems(n, e, [it EXCEPT ![ev.mid] = [@ EXCEPT ![f] = x]]))
          IN CASE ev.f = "rm" -> Ok(SetItems(n, e, Without(it, {ev.mid})))
               [] ev.f = "value" -> IF m.valid /\ ~Num(ev.x) THEN Err(n) ELSE put("value", ev.x)
               [] ev.f = "sd" -> put("sd", ev.x)
               [] ev.f = "valid" -> IF ev.x /\ ~Num(m.value) THEN Err(n) ELSE put("valid", ev.x)
               [] ev.f = "prop" -> IF ev.c = "" THEN Err(n) ELSE put("pr", (ev.c :> ev.x) @@ m.pr)
               [] ev.f = "rmprop" -> put("pr", Without(m.pr, {ev.c}))

\* a value of a discrete measurement travels as [t |-> type, x |-> text]
DoDisc(n, ev, id, e) ==
  LET it == n.st[e].items
      a == IF ev.f = "new" THEN ev.a ELSE <<>>
      k == n.st[id].k
      tc == G(a, "tc", "")
      ty == G(a, "type", "")
      xf == {"RATIO_TAP_CHANGER", "PHASE_TAP_CHANGER"}
  IN IF ev.f = "clean" THEN IF it = <<>> THEN Ok(DropExt(n, id, "discreteMeasurements")) ELSE Ok(n)
     ELSE IF ev.f = "new"
     THEN IF \/ ev.mid # "" /\ ev.mid \in DOMAIN it
             \/ ty = ""
             \/ (ty = "SWITCH_POSITION" /\ k # "SW")
             \/ (ty = "TAP_POSITION" /\ (k \notin {"T2", "T3"} \/ tc = ""))
             \/ (tc # "" /\ k \notin {"T2", "T3"})
             \/ (tc # "" /\ k = "T2" /\ tc \notin xf)
             \/ (tc # "" /\ k = "T3" /\ tc \in xf)
             \/ "vt" \notin DOMAIN a
             \/ ("pk" \in DOMAIN a /\ a.pk = "")
          THEN Err(n)
          ELSE Ok(SetItems(n, e, (ev.mid :> [type |-> ty, tc |-> tc, vt |-> a.vt, value |-> a.vx, valid |-> G(a, "valid", TRUE), pr |-> Props(a)]) @@ it))
     ELSE IF ev.mid \notin DOMAIN it THEN Nil(n)
     ELSE LET m == it[ev.mid]
              put(f, x) == Ok(SetItems(n, e, [it EXCEPT ![ev.mid] = [@ EXCEPT ![f] = x]]))
          IN CASE ev.f = "rm" -> Ok(SetItems(n, e, Without(it, {ev.mid})))
               [] ev.f = "value" -> Ok(SetItems(n, e, [it EXCEPT ![ev.mid] = [@ EXCEPT !.vt = ev.vt, !.value = ev.vx]]))
               [] ev.f = "valid" -> put("valid", ev.x)
               [] ev.f = "prop" -> IF ev.c = "" THEN Err(n) ELSE put("pr", (ev.c :> ev.x) @@ m.pr)
               [] ev.f = "rmprop" -> put("pr", Without(m.pr, {ev.c}))

-----------------------------------------------------------------------------
DoSlackSet(n, ev, id) ==
  LET e == Slack(n, id)
      v == Cur(n, ev.th)
      clean == ev.f # "t"
  IN IF v = "" \/ (ev.x # "" /\ ~RefIn(n, ev.x, id)) THEN Err(n)
     ELSE LET m == SetDy(n, v, e, "t", ev.x) IN IF clean /\ SlackTerms(m, id) = {} THEN Ok(DropExt(m, id, "slackTerminal")) ELSE Ok(m)

\* attaching the slack to a bus of the bus view (f = "bv") or of the bus/breaker view ("bb"), named by one of its terminals, takes
\* a terminal that represents the bus, in the current variant
DoSlackAttach(n, ev) ==
  LET v == Cur(n, ev.th)
      S == {t \in Terms(n) : Ref(t) = ev.x}
      t == Pick(S)
      vl == VlOf(n, t)
      tp == VlTopo(n, v, vl)
      B == {g \in (IF ev.f = "bv" THEN tp.bv ELSE tp.bb) : t \in g.t}
      To(u) == LET e == [ev EXCEPT !.x = Ref(u), !.f = "tc"]
               IN {[o EXCEPT !.ret = Ref(u)] : o \in IF Has(n, Slack(n, vl)) THEN DoSlackSet(n, e, vl) ELSE DoSlackAdd(n, e, vl, Ref(u))}
  IN IF v = "" \/ S = {} THEN Nil(n) ELSE IF B = {} THEN Nil(n) ELSE UNION {To(u) : u \in BestTerms(n, Pick(B).t)}
\* clearing the slack of the current variant in every voltage level
DoSlackNone(n, ev) ==
  LET v == Cur(n, ev.th)
      D == {id \in OfKind(n, {"VL"}) : Has(n, Slack(n, id))}
      m == [n EXCEPT !.dy[v] = [x \in DOMAIN @ |-> IF \E id \in D : x = Slack(n, id) THEN [@[x] EXCEPT !.t = ""] ELSE @[x]]]
  IN IF D = {} THEN Ok(n) ELSE IF v = "" THEN Err(n) ELSE Ok(Drop(m, {Slack(n, id) : id \in {y \in D : SlackTerms(m, y) = {}}}))

DoExtSet(n, ev) ==
  LET id == Resolve(n, ev.id)
      xn == ev.xn
      e == ExtId(id, xn)
  IN IF id = "" THEN Nil(n)
     ELSE IF xn = "slackAttach" THEN DoSlackAttach(n, ev)
     ELSE IF xn = "slackNone" THEN DoSlackNone(n, ev)
     ELSE IF xn = "slackReset"
     THEN IF n.st[id].k # "VL" \/ ~RefHere(n, ev.x) THEN Nil(n)
          ELSE IF Has(n, Slack(n, id)) THEN DoSlackSet(n, ev, id)
          ELSE IF ev.x = "" THEN Ok(n) ELSE DoSlackAdd(n, ev, id, ev.x)
     ELSE IF ~Has(n, e) THEN Nil(n)
     ELSE CASE xn = "slackTerminal" -> IF RefHere(n, ev.x) THEN DoSlackSet(n, ev, id) ELSE Nil(n)
            [] xn = "detail" -> IF ~Num(ev.x) \/ Cur(n, ev.th) = "" THEN Err(n) ELSE Ok(SetDy(n, Cur(n, ev.th), e, ev.f, ev.x))
            [] xn = "position" -> IF ev.f \in DOMAIN n.st[e] THEN Ok(SetSt(n, e, ev.f, [n.st[e][ev.f] EXCEPT ![ev.c] = ev.x])) ELSE Nil(n)
            [] xn = "measurements" -> DoMeas(n, ev, id, e)
            [] xn = "discreteMeasurements" -> DoDisc(n, ev, id, e)
            [] xn = "generatorRemoteReactivePowerControl" -> Nil(n)
            [] OTHER -> IF FieldOk(xn, ev.f, ev.x) THEN Ok(SetSt(n, e, ev.f, ev.x)) ELSE Err(n)

DoExtRemove(n, ev) ==
  LET id == Resolve(n, ev.id)
  IN IF id = "" THEN Nil(n)
     ELSE IF ~Has(n, ExtId(id, ev.xn)) THEN Nil(n) ELSE Ok(DropExt(n, id, ev.xn))
=============================================================================
