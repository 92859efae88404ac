-------------------------------- MODULE Graph --------------------------------
(* G01: the undirected multigraph under the topology of voltage levels.     *)
(* State: V : vertex -> object (-1 when none), E : edge -> ends and object. *)
(* The numbers given to new elements are free, but are never those of       *)
(* elements in use; an element keeps its number and content until it is     *)
(* removed.                                                                 *)
EXTENDS Base

EmptyGraph == [V |-> <<>>, E |-> <<>>]
Vx(g) == DOMAIN g.V
Ex(g) == DOMAIN g.E
EndsOf(e) == {e.a, e.b}
EdgesAt(g, v) == {e \in Ex(g) : v \in EndsOf(g.E[e])}
\* the other end of an edge (the vertex itself for a loop)
Across(g, e, v) == IF g.E[e].a = v THEN g.E[e].b ELSE g.E[e].a
GraphOk(g) == \A e \in Ex(g) : EndsOf(g.E[e]) \subseteq Vx(g)

AddV(g, v) == [g EXCEPT !.V = (v :> -1) @@ @]
RmV(g, v) == [g EXCEPT !.V = Without(@, {v})]

-----------------------------------------------------------------------------
(* Traversal: crossing an edge towards a vertex is accepted unless the edge *)
(* or the vertex is one where the visitor stops.                            *)
RECURSIVE TravReach(_, _, _, _)
TravReach(g, R, noE, noV) ==
  LET N == {Across(g, e, v) : <<e, v>> \in {p \in (Ex(g) \ noE) \X R : p[2] \in EndsOf(g.E[p[1]])}} \ noV
  IN IF N \subseteq R THEN R ELSE TravReach(g, R \cup N, noE, noV)

(* Simple paths from v to the first target met, crossing no rejected edge   *)
RECURSIVE PathsFrom(_, _, _, _, _)
PathsFrom(g, v, met, isTo, noE) ==
  UNION {LET w == Across(g, e, v)
         IN IF w \in met THEN {} ELSE IF w \in isTo THEN {<<e>>}
            ELSE {<<e>> \o p : p \in PathsFrom(g, w, met \cup {w}, isTo, noE)} : e \in EdgesAt(g, v) \ noE}

-----------------------------------------------------------------------------
\* the number given to a new element, provided that it was not in use (the outcome "fresh" matches no recorded one)
Fresh(ev, used) == IF ev.res = "ok" THEN {ev.ret} \ used ELSE {}
GStep(g, ev) ==
  CASE ev.op = "reset" -> Ok(EmptyGraph)
    [] ev.op = "addV" -> {Out(AddV(g, v), "ok", v) : v \in Fresh(ev, Vx(g))} \cup {Out(g, "fresh", "")}
    [] ev.op = "addVi" -> Ok(IF ev.v \in Vx(g) THEN g ELSE AddV(g, ev.v))
    [] ev.op = "addE" -> IF {ev.a, ev.b} \subseteq Vx(g)
                         THEN {Out([g EXCEPT !.E = (e :> [a |-> ev.a, b |-> ev.b, x |-> ev.x]) @@ @], "ok", e) : e \in Fresh(ev, Ex(g))} \cup {Out(g, "fresh", "")}
                         ELSE Err(g)
    [] ev.op = "rmE" -> IF ev.e \in Ex(g) THEN OkR([g EXCEPT !.E = Without(@, {ev.e})], g.E[ev.e].x) ELSE Err(g)
    [] ev.op = "rmV" -> IF ev.v \notin Vx(g) \/ EdgesAt(g, ev.v) # {} THEN Err(g) ELSE OkR(RmV(g, ev.v), g.V[ev.v])
    [] ev.op = "setV" -> IF ev.v \in Vx(g) THEN Ok([g EXCEPT !.V[ev.v] = ev.x]) ELSE Err(g)
    [] ev.op = "rmAllE" -> Ok([g EXCEPT !.E = <<>>])
    [] ev.op = "rmAllV" -> IF Ex(g) # {} THEN Err(g) ELSE Ok(EmptyGraph)
    [] ev.op = "rmIso" -> Ok([g EXCEPT !.V = Without(@, {v \in Vx(g) : EdgesAt(g, v) = {} /\ g.V[v] = -1})])
    [] ev.op = "getE" -> IF ev.e \in Ex(g) THEN OkR(g, <<g.E[ev.e].a, g.E[ev.e].b, g.E[ev.e].x>>) ELSE Err(g)
    [] ev.op = "getV" -> IF ev.v \in Vx(g) THEN OkR(g, g.V[ev.v]) ELSE Err(g)
    [] ev.op = "between" -> IF {ev.a, ev.b} \subseteq Vx(g) THEN Ok(g) ELSE Err(g)
    [] ev.op \in {"trav", "paths"} -> IF ev.v \in Vx(g) THEN Ok(g) ELSE Err(g)

\* answers that are judged by what they must satisfy
Names(S) == {ToString(x) : x \in S}
TravTags(g, ev) ==
  LET noE == SeqSet(ev.stopE)
      noV == SeqSet(ev.stopV)
      met0 == SeqSet(ev.met)
      R == {ev.v} \cup TravReach(g, {ev.v}, noE, noV \cup met0)
      C == ev.ret.e                              \* edge -> "from>to", one entry per call of the visitor
      calls == {[e |-> e, f |-> f, t |-> Across(g, e, f)] : <<e, f>> \in {p \in Ex(g) \X R : p[2] \in EndsOf(g.E[p[1]])}}
      made == {c \in calls : ToString(c.e) \in DOMAIN C /\ C[ToString(c.e)] = ToString(c.f) \o ">" \o ToString(c.t)}
      yes(c) == c.e \notin noE /\ c.t \notin noV
  IN (IF DOMAIN ev.ret.v = Names(R \cup met0) THEN {} ELSE {"g:trav:vertices"})
     \cup (IF Cardinality(made) = Cardinality(DOMAIN C) THEN {} ELSE {"g:trav:calls"})
     \cup (IF \A w \in R \ {ev.v} : Cardinality({c \in made : c.t = w /\ yes(c)}) = 1 THEN {} ELSE {"g:trav:once"})
     \cup (IF \A c \in made : c.t \notin met0 /\ c.t # ev.v /\ c.t # c.f THEN {} ELSE {"g:trav:met"})
     \* what is refused was asked
     \cup (IF \A c \in calls : c.t \notin R \cup met0 => c \in made THEN {} ELSE {"g:trav:asked"})
PathTags(g, ev) ==
  LET isTo == {v \in Vx(g) : g.V[v] \in SeqSet(ev.to)}
      noE == {e \in Ex(g) : g.E[e].x \in SeqSet(ev.noE)}
      P == PathsFrom(g, ev.v, {ev.v}, isTo, noE)
      r == ev.ret
  IN (IF Lists(r, P) THEN {} ELSE {"g:paths:set"})
     \cup (IF \A i \in 1..(Len(r) - 1) : Len(r[i]) <= Len(r[i + 1]) THEN {} ELSE {"g:paths:order"})
BetweenTags(g, ev) ==
  LET S == {e \in Ex(g) : EndsOf(g.E[e]) = {ev.a, ev.b}}
      cnt(x) == Cardinality({e \in S : g.E[e].x = x})
      \* a loop is met at both its ends
      times == IF ev.a = ev.b THEN {1, 2} ELSE {1}
  IN IF {ToString(g.E[e].x) : e \in S} = DOMAIN ev.ret /\ \A e \in S : \E k \in times : ev.ret[ToString(g.E[e].x)] = k * cnt(g.E[e].x) THEN {} ELSE {"g:between"}
GTags(g, ev) == CASE ev.op = "trav" -> TravTags(g, ev) [] ev.op = "paths" -> PathTags(g, ev) [] ev.op = "between" -> BetweenTags(g, ev) [] OTHER -> {}

\* what is seen of the graph after each operation
Bag(S, f) == [k \in {ToString(f[x]) : x \in S} |-> Cardinality({x \in S : ToString(f[x]) = k})]
GSeen(g) ==
  [V |-> [k \in Names(Vx(g)) |-> g.V[CHOOSE v \in Vx(g) : ToString(v) = k]],
   E |-> [k \in Names(Ex(g)) |-> g.E[CHOOSE e \in Ex(g) : ToString(e) = k]],
   vc |-> Cardinality(Vx(g)), ec |-> Cardinality(Ex(g)), bound |-> TRUE,
   eo |-> Bag(Ex(g), [e \in Ex(g) |-> g.E[e].x]), vo |-> Bag(Vx(g), g.V)]
=============================================================================
