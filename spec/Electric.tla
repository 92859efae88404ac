------------------------------ MODULE Electric ------------------------------
(* M01: the state of the far side of a branch, in exact arithmetic.         *)
(*                                                                         *)
(* Complex numbers are Gaussian rationals [re, im, d]: (re + j*im) / d.     *)
(* The far side is a rational function of the parameters and of the near    *)
(* state, so that agreement on a lattice of exact points speaks for the     *)
(* function.  Outside the lattice nothing is said about an answer.  *)
EXTENDS Removal

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Cx(re, im, d) == LET g == Gcd(Gcd(Abs(re), Abs(im)), Abs(d))
                     h == IF d < 0 THEN -g ELSE g
                 IN [re |-> IF d < 0 THEN -(re \div g) ELSE re \div g, im |-> IF d < 0 THEN -(im \div g) ELSE im \div g, d |-> Abs(d) \div g]
C0 == Cx(0, 0, 1)
CPlus(a, b) == LET g == Gcd(a.d, b.d)
                  l == (a.d \div g) * b.d
              IN Cx(a.re * (l \div a.d) + b.re * (l \div b.d), a.im * (l \div a.d) + b.im * (l \div b.d), l)
CMinus(a, b) == CPlus(a, [b EXCEPT !.re = -@, !.im = -@])
CTimes(a, b) == Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, a.d * b.d)
CConj(a) == [a EXCEPT !.im = -@]
Norm2(a) == a.re * a.re + a.im * a.im  \* times a.d^2
COver(a, b) == LET t == CTimes(a, CConj(b)) IN Cx(t.re * b.d * b.d, t.im * b.d * b.d, t.d * Norm2(b))
IsZero(a) == a.re = 0 /\ a.im = 0
CTurn(k) == CASE k % 4 = 0 -> Cx(1, 0, 1) [] k % 4 = 1 -> Cx(0, 1, 1) [] k % 4 = 2 -> Cx(-1, 0, 1) [] OTHER -> Cx(0, -1, 1)
\* how an observed number in 1024ths may round a rational
Rounds(obs, num, d) == LET w == (num \div d) * 1024 + ((num % d) * 1024) \div d IN w - 1 <= obs /\ obs <= w + 2

-----------------------------------------------------------------------------
\* a link: series impedance z, shunt admittances y1 and y2, and an ideal transformer of complex ratio ra on side 1
PiModel(z, y1, y2, ra) == [z |-> z, y1 |-> y1, y2 |-> y2, ra |-> ra]
SmallC(a, max, d) == a.d <= d /\ Abs(a.re) <= max * a.d /\ Abs(a.im) <= max * a.d
FitsLink(l) == ~IsZero(l.z) /\ ~IsZero(l.ra) /\ SmallC(l.z, 4, 2) /\ SmallC(l.y1, 2, 4) /\ SmallC(l.y2, 2, 4) /\ SmallC(l.ra, 4, 4)
FitsState(v, i) == ~IsZero(v) /\ SmallC(v, 9, 2) /\ SmallC(i, 9, 8)

\* from the voltage and the current that enters at one end, those of the other end
\* (b: the voltage behind the transformer, j: the current in it, s: the current through the impedance)
Far(l, side, v, i) ==
  IF side = 1
  THEN LET b == CTimes(v, l.ra)
           j == COver(i, CConj(l.ra))
           s == CMinus(j, CTimes(l.y1, b))
           w == CMinus(b, CTimes(l.z, s))
       IN [v |-> w, i |-> CMinus(CTimes(l.y2, w), s)]
  ELSE LET s == CMinus(i, CTimes(l.y2, v))
           b == CMinus(v, CTimes(l.z, s))
           j == CMinus(CTimes(l.y1, b), s)
       IN [v |-> COver(b, l.ra), i |-> CTimes(j, CConj(l.ra))]
Power(v, i) == CTimes(v, CConj(i))
Shown(x, v, i) == \* an observed <<re v, im v, p, q>>
  LET s == Power(v, i) IN Rounds(x[1], v.re, v.d) /\ Rounds(x[2], v.im, v.d) /\ Rounds(x[3], s.re, s.d) /\ Rounds(x[4], s.im, s.d)

-----------------------------------------------------------------------------
\* the links of the network; a number that is not one gives none
E8(x) == Cx(x, 0, 8)
Z8(r, x) == Cx(r, x, 8)
Nums(s, F) == \A f \in F : Num(s[f]) /\ Abs(s[f]) < 4000
NoLink == PiModel(C0, C0, C0, Cx(1, 0, 1))
PiLink(s) == IF Nums(s, {"r", "x", "g1", "b1", "g2", "b2"}) THEN PiModel(Z8(s.r, s.x), Z8(s.g1, s.b1), Z8(s.g2, s.b2), Cx(1, 0, 1)) ELSE NoLink
DlLink(s, split) == IF ~Nums(s, {"r", "x", "g", "b"}) THEN NoLink
                    ELSE IF split THEN PiModel(Z8(s.r, s.x), Cx(s.g, s.b, 16), Cx(s.g, s.b, 16), Cx(1, 0, 1))
                    ELSE PiModel(Z8(s.r, s.x), Z8(s.g, s.b), C0, Cx(1, 0, 1))
\* a transformer: each tap changer's current step corrects r, x, g, b by a percentage, and multiplies the ratio
T2Link(n, v, id, split) ==
  LET s == n.st[id]
      taps == {x \in {id \o "#rtc", id \o "#ptc"} : Has(n, x)}
      step(x) == n.dy[v][x].cs
      ok == Nums(s, {"r", "x", "g", "b"}) /\ Num(s.ru1) /\ Num(s.ru2) /\ Abs(s.ru1) < 8000 /\ Abs(s.ru2) < 8000 /\ s.ru1 > 0 /\ s.ru2 > 0
            /\ \A x \in taps : Nums(step(x), {"r", "x", "g", "b", "rho"})
            /\ (id \o "#ptc" \in taps => Num(step(id \o "#ptc").alpha) /\ step(id \o "#ptc").alpha % 720 = 0)
      corr(f) == LET F(x) == IF x \in taps THEN Cx(800 + step(x)[f], 0, 800) ELSE Cx(1, 0, 1)
                 IN CTimes(E8(s[f]), CTimes(F(id \o "#rtc"), F(id \o "#ptc")))
      rho(x) == IF x \in taps THEN E8(step(x).rho) ELSE Cx(1, 0, 1)
      J == Cx(0, 1, 1)
      y == CPlus(corr("g"), CTimes(J, corr("b")))
      y2 == CTimes(y, Cx(1, 0, 2))
      ra == CTimes(Cx(s.ru2, 0, s.ru1), CTimes(rho(id \o "#rtc"), rho(id \o "#ptc")))
      turned == IF id \o "#ptc" \in taps THEN CTimes(ra, CTurn(step(id \o "#ptc").alpha \div 720)) ELSE ra
      small == Abs(s.r) + Abs(s.x) + Abs(s.g) + Abs(s.b) <= 400 /\ \A x \in taps : Abs(step(x).rho) <= 64 /\ \A f \in {"r", "x", "g", "b"} : step(x)[f] % 400 = 0 /\ Abs(step(x)[f]) <= 800
  IN IF ~ok \/ ~small THEN NoLink ELSE PiModel(CPlus(corr("r"), CTimes(J, corr("x"))), IF split THEN y2 ELSE y, IF split THEN y2 ELSE C0, turned)

SvKind(n, ev) ==
  CASE ev.how = "line" -> Has(n, ev.id) /\ n.st[ev.id].k \in Lines
    [] ev.how \in {"t2", "t2s"} -> IsKind(n, ev.id, "T2")
    [] ev.how \in {"dl", "dls"} -> IsKind(n, ev.id, "DL")
    [] ev.how \in {"half1", "half2"} -> IsKind(n, ev.id, "TIE")
    [] OTHER -> TRUE
SvLink(n, v, ev) ==
  CASE ev.how = "line" -> PiLink(n.st[ev.id])
    [] ev.how = "t2" -> T2Link(n, v, ev.id, FALSE)
    [] ev.how = "t2s" -> T2Link(n, v, ev.id, TRUE)
    [] ev.how = "dl" -> DlLink(n.st[ev.id], FALSE)
    [] ev.how = "dls" -> DlLink(n.st[ev.id], TRUE)
    [] ev.how \in {"half1", "half2"} -> PiLink(n.st[ev.id \o "#" \o ev.how])
    [] OTHER -> PiModel(Z8(ev.r, ev.x), Z8(ev.g1, ev.b1), Z8(ev.g2, ev.b2), CTimes(E8(ev.rho), CTurn(ev.al)))

QSvTags(n, ev, r) ==
  LET l == SvLink(n, Cur(n, ev.th), ev)
      v == Cx(ev.v[1], ev.v[2], 1)
      i == Cx(ev.i[1], ev.i[2], 1)
      f == Far(l, ev.side, v, i)
  IN IF ~FitsLink(l) \/ ~FitsState(v, i) THEN {}
     ELSE (IF \A k \in 1..Len(r.far) : Shown(r.far[k], f.v, f.i) THEN {} ELSE {"q:sv:far"})
          \cup (IF IsZero(f.v) \/ \A k \in 1..Len(r.back) : Shown(r.back[k], v, i) THEN {} ELSE {"q:sv:back"})
          \cup (IF ev.how \in {"half1", "half2"} \/ (r.fs = 3 - ev.side /\ r.bs = ev.side) THEN {} ELSE {"q:sv:side"})

\* boundaries: the far side of a dangling line (shunt admittance split between its ends), or of half a tie line
HasBoundary(n, ev) == Has(n, ev.id) /\ ((n.st[ev.id].k = "DL" /\ ev.half = 0) \/ (n.st[ev.id].k = "TIE" /\ ev.half \in {1, 2}))
QBndTags(n, ev, r) ==
  LET cur == Cur(n, ev.th)
      side == IF ev.half = 2 THEN 2 ELSE 1
      t == <<ev.id, side>>
      d == TDy(n, cur, t)
      vl == VlOf(n, t)
      T == TermsIn(n, vl)
      \* what the bus of the terminal in the bus view may tell: nothing when there is none
      on == {g \in VlTopo(n, cur, vl).bv : t \in g.t}
      U == IF on = {} THEN {NaN} ELSE GroupV(n, cur, vl, Pick(on), T, "v")
      A == IF on = {} THEN {NaN} ELSE GroupV(n, cur, vl, Pick(on), T, "an")
      l == IF ev.half = 0 THEN DlLink(n.st[ev.id], TRUE) ELSE PiLink(n.st[ev.id \o "#half" \o ToString(ev.half)])
      fits(u, a) == FitsLink(l) /\ u \in {8, 16, 32, 64} /\ a % 720 = 0 /\ d.p % 8 = 0 /\ d.q % 8 = 0 /\ Abs(d.p) <= 64 /\ Abs(d.q) <= 64
      agrees(u, a) == IF NaN \in {u, a, d.p, d.q} THEN \A k \in 1..4 : r.x[k] = NaN
                      ELSE ~fits(u, a) \/ LET v == CTimes(E8(u), CTurn(a \div 720))
                                              f == Far(l, side, v, CConj(COver(Cx(d.p, d.q, 8), v)))
                                          IN Shown(r.x, f.v, f.i)
      same == r.c = ev.id /\ r.sd = ev.half /\ r.vl = vl /\ "bad" \notin DOMAIN r
  IN (IF same THEN {} ELSE {"q:bnd:of"}) \cup (IF \E u \in U, a \in A : agrees(u, a) THEN {} ELSE {"q:bnd"})

\* the links of a network
LinksOf(n, v) ==
  {PiLink(n.st[x]) : x \in OfKind(n, Lines \cup {"HALF"})}
  \cup {DlLink(n.st[x], split) : x \in OfKind(n, {"DL"}), split \in BOOLEAN}
  \cup {T2Link(n, v, x, split) : x \in OfKind(n, {"T2"}), split \in BOOLEAN}
=============================================================================
