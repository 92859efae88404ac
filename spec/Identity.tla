------------------------------ MODULE Identity ------------------------------
(* I01: one name space for ids and aliases; properties.                     *)
EXTENDS Net

\* the name an object or alias to be created gets, "" when it must be refused
NewId(n, ev) == IF ev.id = "" THEN "" ELSE IF ev.uniq THEN Unique(n, ev.id) ELSE IF Taken(n, ev.id) THEN "" ELSE ev.id

PutAlias(n, id, a, ty) == [n EXCEPT !.al = IF id \in DOMAIN @ THEN [@ EXCEPT ![id] = (a :> ty) @@ @] ELSE (id :> (a :> ty)) @@ @]
Types(n, id) == IF id \in DOMAIN n.al THEN Range(n.al[id]) \ {""} ELSE {}

DoAlias(n, ev) ==
  LET id == Resolve(n, ev.id)
      a == IF ev.uniq THEN Unique(n, ev.al) ELSE ev.al
  IN IF id = "" THEN Nil(n)
     ELSE IF ev.ty # "" /\ ev.ty \in Types(n, id) THEN Err(n)
     ELSE IF Taken(n, a) THEN IF Resolve(n, a) = id THEN Ok(n) ELSE Err(n)
     ELSE Ok(PutAlias(n, id, a, ev.ty))

DoRemoveAlias(n, ev) ==
  LET id == Resolve(n, ev.id)
  IN IF id = "" THEN Nil(n)
     ELSE IF id \notin DOMAIN n.al THEN Err(n)
     ELSE IF ev.al \notin DOMAIN n.al[id] THEN Err(n)
     ELSE Ok([n EXCEPT !.al = IF DOMAIN @[id] = {ev.al} THEN Without(@, {id}) ELSE [@ EXCEPT ![id] = Without(@, {ev.al})]])

DoProperty(n, ev) ==
  LET id == Resolve(n, ev.id)
  IN IF id = "" THEN Nil(n)
     ELSE LET old == IF id \in DOMAIN n.pr THEN G(n.pr[id], ev.key, "") ELSE ""
          IN OkR([n EXCEPT !.pr = IF id \in DOMAIN @ THEN [@ EXCEPT ![id] = (ev.key :> ev.x) @@ @] ELSE (id :> (ev.key :> ev.x)) @@ @], old)

QFind(n, ev) == [x \in SeqSet(ev.ids) |-> Resolve(n, x)]

\* every listing of the network, as the set of ids it must contain
VlListing(n, vl, what) ==
  LET here(K) == {id \in OfKind(n, K) : vl \in VlsOfConn(n, id)}
  IN CASE what \in {"BAT", "DL", "GEN", "LCC", "LOAD", "SHU", "SVC", "VSC", "BBS"} -> here({what})
       [] what = "CONN" -> here(Connectables)
       [] what \in {"SW", "NBSW", "BBSW"} -> SwitchesOf(n, vl)
       [] what = "CFGBUS" -> BusesOf(n, vl)
NetListing(n, what) ==
  CASE what \in {"BAT", "BBS", "DL", "GEN", "HVDC", "LCC", "LOAD", "SHU", "SVC", "SUB", "SW", "T3", "T2", "VL", "VSC"} -> OfKind(n, {what})
    [] what = "BRANCH" -> OfKind(n, Branches)
    [] what = "CS" -> OfKind(n, {"LCC", "VSC"})
    [] what = "LINES" -> OfKind(n, Lines)
    [] what = "CONN" -> Conns(n)
SubListing(n, sub, what) ==
  CASE what = "SUBVL" -> VlsOf(n, sub)
    [] what = "SUBT2" -> {t \in OfKind(n, {"T2"}) : n.st[t].own = sub}
    [] what = "SUBT3" -> {t \in OfKind(n, {"T3"}) : n.st[t].own = sub}
VlWhats(n, vl) == {"BAT", "DL", "GEN", "LCC", "LOAD", "SHU", "SVC", "VSC", "CONN", "SW"}
                  \cup (IF IsNB(n, vl) THEN {"BBS", "NBSW"} ELSE {"CFGBUS", "BBSW"})
NetWhats == {"BAT", "BRANCH", "BBS", "DL", "GEN", "CS", "HVDC", "LCC", "LINES", "LOAD", "SHU", "SVC", "SUB", "SW", "T3", "T2", "VL", "VSC", "CONN"}

ListOk(o, S) == Lists(o.i, S) /\ o.n \in {-1, Cardinality(S)}
\* o: the observed listings; cur: the variant they were read in
CheckListings(n, o) ==
  LET keys == {"N:" \o w : w \in NetWhats} \cup {"N:BBVSW"}
              \cup {s \o ":" \o w : s \in OfKind(n, {"SUB"}), w \in {"SUBVL", "SUBT2", "SUBT3"}}
              \cup UNION {{vl \o ":" \o w : w \in VlWhats(n, vl)} : vl \in OfKind(n, {"VL"})}
  IN IF DOMAIN o # keys THEN {"ls:keys"}
     ELSE {"ls:N:" \o w : w \in {w \in NetWhats : ~ListOk(o["N:" \o w], NetListing(n, w))}}
          \cup UNION {{"ls:" \o s \o ":" \o w : w \in {w \in {"SUBVL", "SUBT2", "SUBT3"} : ~ListOk(o[s \o ":" \o w], SubListing(n, s, w))}} : s \in OfKind(n, {"SUB"})}
          \cup UNION {{"ls:" \o vl \o ":" \o w : w \in {w \in VlWhats(n, vl) : ~ListOk(o[vl \o ":" \o w], VlListing(n, vl, w))}} : vl \in OfKind(n, {"VL"})}
=============================================================================
