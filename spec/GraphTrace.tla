----------------------------- MODULE GraphTrace ------------------------------
(* Checks recorded executions of the graph against Graph (see IidmTrace).   *)
EXTENDS Graph, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Log) : Log[i].op = "reset"}
VARIABLES tr, i, g, bad
vars == <<tr, i, g, bad>>
View == <<tr, i, bad>>
LastOf(t) == LET later == {s \in Starts : s > t} IN IF later = {} THEN Len(Log) ELSE MinOf(later) - 1
Last == TLCEval([t \in Starts |-> LastOf(t)])

OutTags(e, o) ==
  IF o.res # e.res THEN {"res:" \o o.res \o ">" \o e.res}
  ELSE (IF e.res = "ok" /\ e.op \notin {"trav", "paths", "between"} /\ o.ret # e.ret THEN {"ret"} ELSE {})
       \cup (IF e.res = "ok" THEN GTags(g, e) ELSE {})
       \cup LET s == GSeen(o.n) IN IF e.o = s THEN {} ELSE {"g:seen:" \o f : f \in {f \in DOMAIN s : s[f] # e.o[f]}}

Init == tr \in Starts /\ i = tr /\ g = EmptyGraph /\ bad = FALSE
Next ==
  /\ ~bad /\ i <= Last[tr]
  /\ LET e == Log[i]
         judged == TLCEval({[o |-> o, t |-> OutTags(e, o)] : o \in GStep(g, e)})
         good == {j \in judged : j.t = {}}
     IN IF good # {}
        THEN /\ \E j \in good : g' = j.o.n
             /\ bad' = FALSE /\ i' = i + 1
             /\ (i = Last[tr] => PrintT(<<"DONE", tr>>))
        ELSE LET best == CHOOSE j \in judged : \A k \in judged : Cardinality(j.t) <= Cardinality(k.t)
             IN /\ PrintT(<<"DIVERGE", tr, i, best.t>>)
                /\ PrintT(<<"DETAIL", tr, i, {ToString(GSeen(best.o.n))}>>)
                /\ bad' = TRUE /\ UNCHANGED <<i, g>>
  /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
