------------------------------ MODULE IidmTrace ------------------------------
(* Checks recorded executions of the implementation against the             *)
(* specification.  Each trace of the file starts at a "reset" event; every  *)
(* event must be a step the specification permits, with the same outcome,   *)
(* the same answer, and an observed state equal to the specified one.       *)
EXTENDS Iidm, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Log) : Log[i].op = "reset"}

VARIABLES tr, i, n, seen, bad
vars == <<tr, i, n, seen, bad>>
View == <<tr, i, bad>>

LastOf(t) == LET later == {s \in Starts : s > t} IN IF later = {} THEN Len(Log) ELSE MinOf(later) - 1
Last == TLCEval([t \in Starts |-> LastOf(t)])

(* Observations are recorded as differences: st and dy[v] hold the entries  *)
(* that differ from the previous observation (of the same variant) in the   *)
(* trace, sx and dx[v] the names of those that disappeared.  seen holds     *)
(* the previous observations.                                               *)
Patch(f, new, gone) == LET g == IF gone = <<>> THEN f ELSE Without(f, SeqSet(gone)) IN IF new = <<>> THEN g ELSE new @@ g
Full(o, s) ==
  IF o = <<>> \/ "projerr" \in DOMAIN o THEN o
  ELSE LET o1 == IF "st" \in DOMAIN o THEN [o EXCEPT !.st = Patch(s.st, o.st, o.sx)] ELSE o
       IN IF "dy" \in DOMAIN o THEN [o1 EXCEPT !.dy = [v \in DOMAIN o.dy |-> Patch(G(s.dy, v, <<>>), o.dy[v], G(o.dx, v, <<>>))]] ELSE o1
Seen(o, s) ==
  IF o = <<>> THEN s
  ELSE [st |-> IF "st" \in DOMAIN o THEN o.st ELSE s.st, dy |-> IF "dy" \in DOMAIN o THEN o.dy @@ s.dy ELSE s.dy]

-----------------------------------------------------------------------------
(* Comparison of an observation with a state                                *)
KindIn(f, id) == LET k == f[id].k IN IF k = "EXT" THEN "EXT." \o f[id].xn ELSE k
FieldDiff(x, y) == {f \in DOMAIN x \cup DOMAIN y : IF f \in DOMAIN x /\ f \in DOMAIN y THEN x[f] # y[f] ELSE TRUE}
IcNames(m, vl) == [x \in {ToString(p[1]) \o "-" \o ToString(p[2]) : p \in DOMAIN IcOf(m, vl)} |->
                     LET p == CHOOSE q \in DOMAIN IcOf(m, vl) : ToString(q[1]) \o "-" \o ToString(q[2]) = x IN IcOf(m, vl)[p]]
IcTotal(m, vl) == SumSet(DOMAIN IcOf(m, vl), IcOf(m, vl))
SpecSt(m, id) == IF m.st[id].k = "VL" THEN m.st[id] @@ [ics |-> IcNames(m, id), icn |-> IcTotal(m, id)]
                 ELSE IF m.st[id].k = "EXT" /\ m.st[id].xn = "slackTerminal" THEN m.st[id] @@ [empty |-> \A v \in Vs(m) : m.dy[v][id].t = ""]
                 ELSE m.st[id]
StTags(m, o) ==
  LET D == DOMAIN m.st
      O == DOMAIN o
  IN IF o = [id \in D |-> SpecSt(m, id)] THEN {} ELSE
     {"st-:" \o KindIn(m.st, id) : id \in D \ O} \cup {"st+:" \o KindIn(o, id) : id \in O \ D}
     \cup UNION {LET d == FieldDiff(SpecSt(m, id), o[id]) IN {"st:" \o KindIn(m.st, id) \o "." \o f : f \in d} : id \in D \cap O}
DyTags(m, v, o, pre) ==
  LET D == DOMAIN m.dy[v]
      O == DOMAIN o
  IN IF o = m.dy[v] THEN {} ELSE
     {pre \o "-:" \o KindIn(m.st, id) : id \in D \ O} \cup {pre \o "+:?" : id \in O \ D}
     \cup UNION {{pre \o ":" \o KindIn(m.st, id) \o "." \o f : f \in FieldDiff(m.dy[v][id], o[id])} : id \in D \cap O}
\* expected and observed values of the fields that differ, for the report
Details(m, th, o) ==
  IF o = <<>> THEN {} ELSE IF "projerr" \in DOMAIN o THEN {<<o.projerr>>}
  ELSE (IF "st" \in DOMAIN o THEN UNION {LET x == SpecSt(m, id) IN {<<"st", id, f, ToString(G(x, f, "-")), ToString(G(o.st[id], f, "-"))>> : f \in FieldDiff(x, o.st[id])} : id \in DOMAIN m.st \cap DOMAIN o.st} ELSE {})
       \cup (IF "dy" \in DOMAIN o THEN UNION {UNION {{<<"dy", v, id, f, ToString(G(m.dy[v][id], f, "-")), ToString(G(o.dy[v][id], f, "-"))>> : f \in FieldDiff(m.dy[v][id], o.dy[v][id])}
                                          : id \in DOMAIN m.dy[v] \cap DOMAIN o.dy[v]} : v \in DOMAIN o.dy \cap DOMAIN m.dy} ELSE {})
       \cup (IF "al" \in DOMAIN o /\ o.al # m.al THEN {<<"al", ToString(m.al), ToString(o.al)>>} ELSE {})
MapTags(f, o, tag) == IF f = o THEN {} ELSE {tag}

ObsTags(m, th, o) ==
  LET cur == Cur(m, th)
      vs == [v \in Vs(m) |-> 1]
  IN IF o = <<>> THEN {}
     ELSE IF "projerr" \in DOMAIN o THEN {"projerr"}
     ELSE IF o.vs # vs THEN {"vs"}
     ELSE IF o.cur # cur THEN {"cur"}
     ELSE IF o.mt # m.mt THEN {"mt"}
     ELSE (IF "st" \in DOMAIN o THEN StTags(m, o.st) \cup MapTags(m.al, o.al, "al") \cup MapTags(m.pr, o.pr, "pr") ELSE {})
          \cup (IF "ls" \in DOMAIN o THEN CheckListings(m, o.ls) \cup (IF cur = "" \/ "N:BBVSW" \notin DOMAIN o.ls THEN {} ELSE CheckBbvSwitches(m, cur, o.ls)) ELSE {})
          \cup (IF "dy" \in DOMAIN o THEN UNION {DyTags(m, v, o.dy[v], IF v = cur THEN "dyc" ELSE "dyo") : v \in DOMAIN o.dy} ELSE {})
          \cup (IF "tp" \in DOMAIN o THEN UNION {LET t == CheckTopo(m, v, o.tp[v]) IN IF v = cur THEN t ELSE {x \o "@o" : x \in t} : v \in DOMAIN o.tp} ELSE {})
          \cup (IF "cp" \in DOMAIN o THEN UNION {LET t == CheckComp(m, v, o.cp[v], o.tp[v]) IN IF v = cur THEN t ELSE {x \o "@o" : x \in t} : v \in DOMAIN o.cp} ELSE {})

IsQ(e) == e.op \in {"q.find", "q.trav", "q.ntrav", "q.eqt", "q.nodes", "q.lim", "q.ovl", "q.i", "q.rl", "q.shu", "q.sv", "q.bnd"}
\* tags of one permitted outcome against the recorded one
OutTags(e, o, ob) ==
  IF o.res # e.res THEN {"res:" \o o.res \o ">" \o e.res}
  ELSE (IF e.res = "ok" /\ e.op \notin {"xml"} /\ ~IsQ(e) /\ o.ret # e.ret THEN {"ret"} ELSE {})
       \cup (IF e.res = "ok" /\ IsQ(e) THEN QTags(n, e) ELSE {})
       \cup (IF e.op = "xml" THEN XmlTags(n, e) ELSE {})
       \cup (IF e.op = "xml" /\ e.res = "ok" /\ "copy" \in DOMAIN e.ret
             THEN LET c == (CHOOSE x \in DoXml(n, [e EXCEPT !.swap = TRUE]) : TRUE).n
                  IN {"x:copy:" \o t : t \in ObsTags(c, e.th, e.ret.copy)}
             ELSE {})
       \cup ObsTags(o.n, e.th, ob)

Init == tr \in Starts /\ i = tr /\ n = EmptyNet /\ seen = [st |-> <<>>, dy |-> <<>>] /\ bad = FALSE

Next ==
  /\ ~bad
  /\ i <= Last[tr]
  /\ LET e == Log[i]
         outs == Step(n, e)
         ob == TLCEval(Full(e.o, seen))
         judged == TLCEval({[o |-> o, t |-> OutTags(e, o, ob)] : o \in outs})
         good == {j \in judged : j.t = {}}
     IN IF good # {}
        THEN /\ \E j \in good : n' = j.o.n
             /\ seen' = Seen(ob, seen)
             /\ bad' = FALSE
             /\ i' = i + 1
             /\ (i = Last[tr] => PrintT(<<"DONE", tr>>))
        ELSE LET best == CHOOSE j \in judged : \A k \in judged : Cardinality(j.t) <= Cardinality(k.t)
             IN /\ PrintT(<<"DIVERGE", tr, i, best.t>>)
                /\ PrintT(<<"DETAIL", tr, i, Details(best.o.n, e.th, ob)>>)
                /\ bad' = TRUE
                /\ UNCHANGED <<i, n, seen>>
  /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
