------------------------------- MODULE Points -------------------------------
(* C26: points denote locations.  One query (cs) takes four integer points   *)
(* and a factor through every coordinate system the library offers; whatever *)
(* is computed there must be what exact vector arithmetic gives for the same *)
(* locations.  Reals are fixed point (1000 x, rounded).                      *)
EXTENDS Geo

Num(v) == v \in -300000000..300000000
Near(v, e, tol) == Len(v) = Len(e) /\ \A j \in 1..Len(e) : Sane(v[j]) /\ A1(v[j] - e[j]) <= tol
Loc(v, p, d) == Near(v, [j \in 1..d |-> K * p[j]], 1)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Add3(a, b) == [j \in 1..3 |-> a[j] + b[j]]
Max3(a) == LET S == { A1(a[j]) : j \in 1..3 } IN CHOOSE x \in S : \A y \in S : y <= x
\* twice a triangle's area, up to rounding, from the cross product of its sides
AreaOK(v, n) == Sane(v) /\ v >= 0 /\ A1(2 * v - SqrtK(Sq(n))) <= 3

\* angle (1000 a) of the direction (x, y), as far as its octant
PhiOK(v, x, y) ==
  /\ v \in -3142..3142
  /\ (x = 0 /\ y = 0) \/
     /\ (y > 0 => v > 0) /\ (y < 0 => v < 0) /\ (y = 0 => IF x > 0 THEN v = 0 ELSE A1(v) \in 3141..3142)
     /\ (x > 0 => A1(v) < 1571) /\ (x < 0 => A1(v) > 1570) /\ (x = 0 => A1(v) \in 1570..1571)
     /\ (A1(y) > A1(x) => A1(v) \in 785..2357) /\ (A1(y) < A1(x) => A1(v) \in (0..786) \cup (2356..3142))
RawOK(nm, v, p) ==
  CASE nm = "pol" -> A1(v[1] - SqrtK(Sq(p))) <= 1 /\ PhiOK(v[2], p[1], p[2])
    [] nm = "sph" -> /\ A1(v[1] - SqrtK(Sq(p))) <= 1 /\ PhiOK(v[3], p[1], p[2]) /\ v[2] \in 0..3142
                     /\ (p[3] > 0 => v[2] < 1571) /\ (p[3] < 0 => v[2] > 1570) /\ (p[3] = 0 /\ p # Zero3 => v[2] \in 1570..1571)
    [] nm = "cyl" -> A1(v[1] - SqrtK(p[1]*p[1] + p[2]*p[2])) <= 1 /\ PhiOK(v[2], p[1], p[2]) /\ v[3] = K * p[3]
    [] OTHER -> Loc(v, p, Len(v))

SystemOK(nm, d, r, P, f) ==
  LET p == P[1]  q == P[2]  s == P[3]  t == P[4]
      n == Cross(Sub3(q, p), Sub3(s, p))
      vol == Trip(Sub3(q, p), Sub3(s, p), Sub3(t, p)) IN
  /\ r.dim = d /\ r.sz = d /\ Loc(r.zero, Zero3, d)
  /\ RawOK(nm, r.raw, p)
  /\ All(r.c, LAMBDA v : Loc(v, p, d)) /\ All(r.cv, LAMBDA v : Loc(v, p, d))
  /\ All(r.add, LAMBDA v : Loc(v, Add3(p, q), d))
  /\ All(r.sub, LAMBDA v : Loc(v, Sub3(p, q), d))
  /\ All(r.mul, LAMBDA v : Loc(v, Scl(f, p), d))
  /\ All(r.div, LAMBDA v : Len(v) = d /\ \A j \in 1..d : Sane(v[j]) /\ A1(f * v[j] - K * p[j]) <= A1(f))
  /\ Loc(r.neg, Scl(-1, p), d)
  /\ Loc(r.chain, Scl(f, Sub3(Add3(p, q), s)), d)
  /\ Loc(r.self, Scl(2, p), d)
  /\ All(r.n1, LAMBDA v : Num(v) /\ A1(v - K * L1(p)) <= 1)
  /\ All(r.n2, LAMBDA v : Num(v) /\ A1(v - SqrtK(Sq(p))) <= 1)
  /\ All(r.ni, LAMBDA v : Num(v) /\ A1(v - K * Max3(p)) <= 1)
  /\ All(r.ip, LAMBDA v : Num(v) /\ A1(v - K * Dot(p, q)) <= 1)
  /\ All(r.l, LAMBDA v : Num(v) /\ A1(v - SqrtK(Sq(Sub3(q, p)))) <= 1)
  /\ All(r.a, LAMBDA v : AreaOK(v, n))
  /\ IF d = 2 THEN Num(r.sa) /\ A1(2 * r.sa - K * n[3]) <= 2 ELSE AreaOK(r.sa, n)
  /\ (\A j \in 1..4 : Sane(r.ang[j]) \/ p = Zero3 \/ q = Zero3 \/ p = s \/ q = s)
  /\ AngOK(p, q, r.ang[1], r.ang[2]) /\ AngOK(Sub3(p, s), Sub3(q, s), r.ang[3], r.ang[4])
  /\ d = 3 => /\ All(r.x, LAMBDA v : Loc(v, Cross(p, q), 3))
              /\ All(r.t, LAMBDA v : Num(v) /\ A1(6 * v - K * vol) <= 6)
              /\ All(r.ta, LAMBDA v : Num(v) /\ A1(6 * v - K * A1(vol)) <= 6)

\* sine and cosine of k * 45 degrees: sign and twice the square
Oct(k) == k % 8
CosS(k) == CASE Oct(k) \in {7, 0, 1} -> 1 [] Oct(k) \in {2, 6} -> 0 [] OTHER -> -1
CosQ(k) == CASE Oct(k) \in {0, 4} -> 2 [] Oct(k) \in {2, 6} -> 0 [] OTHER -> 1
SinS(k) == CosS(k - 2 + 8)
SinQ(k) == CosQ(k - 2 + 8)
\* v = f * sign * sqrt(m / 4)
Root(v, f, sg, m) == Sane(v) /\ A1(2 * v - (IF f * sg >= 0 THEN 1 ELSE -1) * (IF sg = 0 THEN 0 ELSE SqrtK(f * f * m))) <= 3
ExplicitOK(r, f, a, b, z) ==         \* a: azimuth, b: from the pole, in eighths of a turn
  LET sph(v) == Root(v[1], f, SinS(b) * CosS(a), SinQ(b) * CosQ(a)) /\ Root(v[2], f, SinS(b) * SinS(a), SinQ(b) * SinQ(a)) /\ Root(v[3], f, CosS(b), 2 * CosQ(b))
      pol(v) == Root(v[1], f, CosS(a), 2 * CosQ(a)) /\ Root(v[2], f, SinS(a), 2 * SinQ(a)) IN
  /\ pol(r.ex[1]) /\ pol(r.ex[3]) /\ r.ex[3][3] = K * z
  /\ sph(r.ex[2]) /\ sph(r.ex[4])
  /\ (f > 0 => pol(r.ex[5]) /\ A1(r.ex[5][3] - K * z) <= 1)

Less3(p, q) == \/ p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
Bit(b) == IF b THEN 1 ELSE 0
QueryC26(ev) == ev.op = "cs" =>
  LET P3(i) == SubSeq(ev.a, 2 + 3*i, 4 + 3*i)
      p3 == [i \in 1..4 |-> P3(i - 1)]
      p2 == [i \in 1..4 |-> << P3(i - 1)[1], P3(i - 1)[2], 0 >>]
      f == ev.a[14]  r == ev.r IN
  /\ ev.x = 0
  /\ SystemOK("car2", 2, r.car2, p2, f) /\ SystemOK("pol", 2, r.pol, p2, f)
  /\ SystemOK("car3", 3, r.car3, p3, f) /\ SystemOK("sph", 3, r.sph, p3, f) /\ SystemOK("cyl", 3, r.cyl, p3, f)
  /\ ExplicitOK(r, f, ev.a[15], ev.a[16], ev.a[4])
  /\ r.mm[1] = [j \in 1..3 |-> K * (IF p3[1][j] < p3[2][j] THEN p3[1][j] ELSE p3[2][j])]
  /\ r.mm[2] = [j \in 1..3 |-> K * (IF p3[1][j] > p3[2][j] THEN p3[1][j] ELSE p3[2][j])]
  /\ r.less = << Bit(Less3(p3[1], p3[2])), Bit(Less3(p3[2], p3[1])), 0 >>
=============================================================================
