--------------------------------- MODULE MC ----------------------------------
(* Model checking of the specification on a finite alphabet of operations:  *)
(* the model (a file of JSON) holds the operations that set the stage and   *)
(* those that may then happen, in any order.  Every reachable state is      *)
(* checked against Laws, every step against StepLaws, and every transition  *)
(* is printed, so that all of them can be replayed on the implementation.   *)
EXTENDS Laws, Json, IOUtils, TLCExt, SequencesExt

Model == TLCEval(JsonDeserialize(IOEnv.MODEL))
Ops == Model.ops
\* the first Model.first operations are only open to the first step

(* Saving gives one of several right names to some buses: here, the model   *)
(* picks one (the trace specification reads the one that was observed).     *)
SpecVl(n, v, vl) ==
  LET tp == VlTopo(n, v, vl)
      T == tp.T
      nm == n.st[vl].nm
      nb == IsNB(n, vl)
      bvs == SetToSeq(tp.bv)
      bbs == SetToSeq(tp.bb)
      bus(g, id, made) == [id |-> id, nm |-> IF made THEN IF nm = "" THEN "" ELSE nm \o "_0" ELSE n.st[id].nm, fic |-> FALSE,
                           v |-> Pick(GroupV(n, v, vl, g, T, "v")), an |-> Pick(GroupV(n, v, vl, g, T, "an"))]
      bvId == [g \in tp.bv |-> IF nb THEN NbId(vl, g) ELSE vl \o "_" \o ToString((CHOOSE i \in 1..Len(bvs) : bvs[i] = g) - 1)]
      bbId == [g \in tp.bb |-> BbvId(n, vl, g)]
      of(G_, ids, x) == LET h == {g \in G_ : x \in g.m} IN IF h = {} THEN "" ELSE ids[Pick(h)]
      near(G_, ids, t) == Pick(NbConnectable(n, v, vl, NodeOf(n, t), G_, ids))
      term(t) == IF nb THEN [bv |-> of(tp.bv, bvId, NodeOf(n, t)), bb |-> of(tp.bb, bbId, NodeOf(n, t)), bvc |-> near(tp.bv, bvId, t), bbc |-> near(tp.bb, bbId, t)]
                 ELSE LET d == TDy(n, v, t)
                          b == of(tp.bv, bvId, d.cb)
                      IN [bv |-> IF d.con THEN b ELSE "", bb |-> IF d.con THEN d.cb ELSE "", bvc |-> b, bbc |-> d.cb]
      sw(s) == IF nb THEN [b1 |-> of(tp.bb, bbId, n.st[s].n1), b2 |-> of(tp.bb, bbId, n.st[s].n2)] ELSE [b1 |-> n.st[s].b1, b2 |-> n.st[s].b2]
  IN [vl |-> [bv |-> [i \in 1..Len(bvs) |-> bus(bvs[i], bvId[bvs[i]], TRUE)], bb |-> [i \in 1..Len(bbs) |-> bus(bbs[i], bbId[bbs[i]], nb)],
              sw |-> [s \in SwitchesOf(n, vl) |-> sw(s)]],
      tt |-> [x \in Refs(T) |-> term(CHOOSE t \in T : Ref(t) = x)]]
SpecTp(n, v) ==
  LET X == TLCEval([vl \in OfKind(n, {"VL"}) |-> SpecVl(n, v, vl)])
      R == UNION {DOMAIN X[vl].tt : vl \in DOMAIN X}
  IN [vl |-> [vl \in DOMAIN X |-> X[vl].vl], tt |-> [x \in R |-> X[CHOOSE vl \in DOMAIN X : x \in DOMAIN X[vl].tt].tt[x]]]
Closed(n, ev) == IF ev.op = "xml" /\ Cur(n, ev.th) # "" THEN [ev EXCEPT !.ret = [tp |-> SpecTp(n, Cur(n, ev.th))]] ELSE ev

RECURSIVE Fold(_, _)
Fold(n, k) == IF k > Len(Model.setup) THEN n
              ELSE LET outs == Step(n, Model.setup[k])
                       o == Pick(outs)
                   IN IF o.res # "ok" THEN Assert(FALSE, <<"the stage cannot be set", k, Model.setup[k].op, o.res>>) ELSE Fold(TLCEval(o.n), k + 1)

\* X01, X02, X04: a second trip brings nothing new
Settled(n, ev, o) ==
  ev.op # "xml" \/ o.res # "ok" \/ ~ev.swap \/ Renamed(n, Cur(n, ev.th), ev) \/ OldSame(n, Cur(n, ev.th), VerOf(ev))
  \/ \A u \in Step(o.n, Closed(o.n, ev)) : u.res = "ok" /\ u.n = o.n

VARIABLE n
Init == /\ n = TLCEval(Fold(EmptyNet, 1))
        /\ PrintT(<<"I", TLCFP(n)>>)
Next == /\ TLCGet("level") <= Model.depth
        /\ \E k \in (IF TLCGet("level") = 1 THEN 1 ELSE Model.first + 1)..Len(Ops) : LET ev == TLCEval(Closed(n, Ops[k])) IN \E o \in Step(n, ev) :
             /\ Assert(StepLaws(n, ev, o) = {}, <<"LAW", StepLaws(n, ev, o), k>>)
             /\ Assert(Settled(n, ev, o), <<"LAW", "settled", k>>)
             /\ n' = TLCEval(o.n)
             /\ PrintT(<<"E", TLCFP(n), k, o.res, TLCFP(n')>>)
Spec == Init /\ [][Next]_n
Lawful == LET l == Laws(n) IN l = {} \/ (PrintT(<<"BROKEN", l>>) /\ FALSE)
=============================================================================
