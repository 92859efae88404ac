------------------------------- MODULE MCGraph -------------------------------
(* Model checking of Graph on a finite alphabet of operations (see MC).     *)
(* Here a new element gets the lowest free number.                          *)
EXTENDS Graph, Json, IOUtils, TLCExt

Model == TLCEval(JsonDeserialize(IOEnv.MODEL))
Ops == Model.ops
Lowest(used) == MinOf(0..Cardinality(used) \ used)
Closed(g, ev) == ev @@ [res |-> "ok", ret |-> CASE ev.op = "addV" -> Lowest(Vx(g)) [] ev.op = "addE" -> Lowest(Ex(g)) [] OTHER -> ""]
Outs(g, ev) == {o \in GStep(g, ev) : o.res # "fresh"}

Law(name, ok) == IF ok THEN {} ELSE {name}
StepLaws(g, ev, o) ==
  LET h == o.n
  IN Law("G01:refused-unchanged", o.res # "ok" => h = g)
     \cup Law("G01:questions-change-nothing", ev.op \in {"trav", "paths", "between", "getE", "getV"} => h = g)
     \cup Law("G01:edges-kept", ev.op \notin {"rmE", "rmAllE"} => \A e \in Ex(g) : e \in Ex(h) /\ h.E[e] = g.E[e])
     \cup Law("G01:one-edge-gone", ev.op = "rmE" => \A e \in Ex(g) \ {ev.e} : e \in Ex(h) /\ h.E[e] = g.E[e])
     \cup Law("G01:vertices-kept", \A v \in Vx(g) \cap Vx(h) : h.V[v] = g.V[v] \/ (ev.op = "setV" /\ v = ev.v))
     \cup Law("G01:isolated-only", ev.op \in {"rmV", "rmIso"} => \A v \in Vx(g) \ Vx(h) : EdgesAt(g, v) = {})
     \* no path meets a vertex twice, and each ends at its first target
     \cup Law("G01:simple-paths", ev.op = "paths" /\ o.res = "ok" =>
                LET isTo == {v \in Vx(g) : g.V[v] \in SeqSet(ev.to)}
                IN \A p \in PathsFrom(g, ev.v, {ev.v}, isTo, {}) : Len(p) < Cardinality(Vx(g)) /\ Cardinality(SeqSet(p)) = Len(p))
     \* what is reached through p is reached again from there
     \cup Law("G01:reach", ev.op = "trav" /\ o.res = "ok" => LET R(v) == {v} \cup TravReach(g, {v}, SeqSet(ev.stopE), {}) IN \A w \in R(ev.v) : R(w) = R(ev.v))

VARIABLE g
Init == g = EmptyGraph /\ PrintT(<<"I", TLCFP(g)>>)
Next == /\ TLCGet("level") <= Model.depth
        /\ \E k \in 1..Len(Ops) : LET ev == TLCEval(Closed(g, Ops[k])) IN \E o \in Outs(g, ev) :
             /\ Cardinality(Vx(o.n)) <= Model.maxv /\ Cardinality(Ex(o.n)) <= Model.maxe
             /\ Assert(StepLaws(g, ev, o) = {}, <<"LAW", StepLaws(g, ev, o), k>>)
             /\ g' = TLCEval(o.n)
             /\ PrintT(<<"E", TLCFP(g), k, o.res, TLCFP(g')>>)
Spec == Init /\ [][Next]_g
Lawful == GraphOk(g) \/ (PrintT(<<"BROKEN", "GraphOk">>) /\ FALSE)
=============================================================================
