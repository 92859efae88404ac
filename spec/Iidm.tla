-------------------------------- MODULE Iidm ---------------------------------
(* The whole system: what every operation may do to a network.              *)
EXTENDS Persist, Variants

\* questions leave the network as it is; their answers are judged by QTags
DoQuery(n, ev) == LET r == QRes(n, ev) IN IF r = "any" THEN {Out(n, x, ev.ret) : x \in {"ok", "err"}} ELSE {Out(n, r, IF r = "ok" THEN ev.ret ELSE "")}

Step(n, ev) ==
  CASE ev.op = "reset" -> Ok(EmptyNet)
    [] ev.op = "obs" -> Ok(n)
    [] ev.op = "move" -> Ok(n)
    [] ev.op = "vclone" -> DoClone(n, ev)
    [] ev.op = "vremove" -> DoRemoveVariant(n, ev)
    [] ev.op = "vselect" -> DoSelect(n, ev)
    [] ev.op = "vmt" -> DoMultiThread(n, ev)
    [] ev.op = "alias" -> DoAlias(n, ev)
    [] ev.op = "rmalias" -> DoRemoveAlias(n, ev)
    [] ev.op = "prop" -> DoProperty(n, ev)
    [] ev.op = "add" -> DoAdd(n, ev)
    [] ev.op = "addtc" -> DoAddTap(n, ev)
    [] ev.op = "addlim" -> DoAddLim(n, ev)
    [] ev.op = "addrl" -> DoAddRl(n, ev)
    [] ev.op = "set" -> DoSet(n, ev)
    [] ev.op = "tset" -> DoTset(n, ev)
    [] ev.op = "con" -> DoConDis(n, ev, TRUE)
    [] ev.op = "dis" -> DoConDis(n, ev, FALSE)
    [] ev.op = "setcb" -> DoSetCb(n, ev)
    [] ev.op = "busv" -> DoBusV(n, ev)
    [] ev.op = "rm" -> DoRemove(n, ev)
    [] ev.op = "rmsw" -> DoRmSwitch(n, ev)
    [] ev.op = "rmallsw" -> DoRmAllSwitches(n, ev)
    [] ev.op = "rmbus" -> DoRmBus(n, ev)
    [] ev.op = "rmallbus" -> DoRmAllBuses(n, ev)
    [] ev.op = "rmic" -> DoRmIc(n, ev)
    [] ev.op = "extadd" -> DoExtAdd(n, ev)
    [] ev.op = "extset" -> DoExtSet(n, ev)
    [] ev.op = "extrm" -> DoExtRemove(n, ev)
    [] ev.op = "xml" -> DoXml(n, ev)
    [] OTHER -> DoQuery(n, ev)
=============================================================================
