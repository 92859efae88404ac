------------------------------ MODULE Variants ------------------------------
(* V01, V02, V03: variants are whole copies of the per-variant state; names *)
(* and selection follow the operations below.                               *)
EXTENDS Net

DoClone(n, ev) ==
  LET tg == ev.tgts
      T == SeqSet(tg)
      old == T \cap Vs(n)
  IN IF \/ Len(tg) = 0
        \/ ev.src \notin Vs(n)
        \/ (~ev.ow /\ (old # {} \/ Cardinality(T) # Len(tg)))
     THEN Err(n)
     ELSE LET src == n.dy[ev.src]
          IN Ok([n EXCEPT !.dy = [v \in (DOMAIN @) \cup T |-> IF v \in T THEN src ELSE @[v]]])

DoRemoveVariant(n, ev) ==
  IF ev.v = Init0 \/ ev.v \notin Vs(n) THEN Err(n)
  ELSE LET m == [n EXCEPT !.dy = Without(@, {ev.v})]
       IN Ok(IF n.mt THEN [m EXCEPT !.tl = [@ EXCEPT ![ev.th] = IF @ = ev.v THEN "" ELSE @]]
             ELSE [m EXCEPT !.sh = IF @ = ev.v THEN "" ELSE @])

DoSelect(n, ev) ==
  IF ev.v \notin Vs(n) THEN Err(n)
  ELSE Ok(IF n.mt THEN [n EXCEPT !.tl = [@ EXCEPT ![ev.th] = ev.v]] ELSE [n EXCEPT !.sh = ev.v])

DoMultiThread(n, ev) ==
  IF ev.on = n.mt THEN Ok(n)
  ELSE IF ev.on
  THEN \* the switching thread keeps its selection, nobody else has one
       Ok([n EXCEPT !.mt = TRUE, !.tl = [t \in Threads |-> IF t = ev.th THEN n.sh ELSE ""], !.sh = ""])
  ELSE Ok([n EXCEPT !.mt = FALSE, !.tl = [t \in Threads |-> ""], !.sh = IF n.tl[ev.th] = "" THEN Init0 ELSE n.tl[ev.th]])
=============================================================================
