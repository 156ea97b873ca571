-------------------------------- MODULE C18 --------------------------------
(* Merger times (Peters 1964) in every eccentricity regime (evol.py).         *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"ecc", "ecc", "ecc", "ecc", "circ", "mandel", "reject", "alone", "source">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           src |-> <<"scalar", "one", "few", "several", "several">>,
           ecc |-> <<"zero", "small", "other", "other", "large", "edges", "mixed", "mixed">>,
           orbit |-> <<"a", "f", "both">>,
           mass |-> <<"m", "beta", "both">>,
           exact |-> <<"omit", "yes", "no", "no">>,
           tols |-> <<"std", "std", "custom">>,
           lunit |-> <<"AU", "R_sun", "m">>,
           munit |-> <<"Msun", "kg">>,
           funit |-> <<"Hz", "mHz", "1/yr">>,
           merged |-> <<"no", "no", "some">>,
           which |-> <<"omit", "mask">>,
           save |-> <<"yes", "no">> ]
\* beta alone does not determine the orbit of a frequency
ValidCase_(c) == c.fn \in {"ecc", "circ", "alone"} => (c.mass = "beta" => c.orbit = "a")

(* laws: the limits join the integral, the time lies between zero and the circular one and decreases with eccentricity *)
EGrid == <<"0.01", "0.1", "0.149", "0.151", "0.3", "0.5", "0.7", "0.9", "0.99", "0.9998">>
LawPoints_ == (1..10) \X {"1", "50"} \X {"0.01", "3"}
Law_(p) ==
  LET m == R(p[2]) ** Msun  a == R(p[3]) ** AU  b == Beta(m, m)
      e == R(EGrid[p[1]])
      t == TMerge(b, a, e, SmallE, LargeE, TRUE)
      full == TPeters(b, a, e)
  IN  /\ Close(t, full, R("0.03"), Zero)                       \* the limits are within their documented accuracy
      /\ RLt(Zero, t) /\ RLt(t, TCirc(b, a))
      /\ Close(TMerge(b, a, e, SmallE, LargeE, FALSE), t, R("0.011"), Zero)     \* so is the fit
      /\ p[1] < 10 => RLt(TPeters(b, a, R(EGrid[p[1] + 1])), full)
      /\ Close(TSmallE(b, a, R("1e-5")), TCirc(b, a), R("1e-8"), Zero)
      /\ Close(PetersInt(Zero, Half) ++ PetersInt(Half, R("0.9")), PetersInt(Zero, R("0.9")), R("1e-9"), Zero)

One1(ev, i) ==
  LET m1 == R(ev.m1[i])  m2 == R(ev.m2[i])  e == R(ev.e[i])
      b == IF ev.beta = <<>> THEN Beta(m1, m2) ELSE R(ev.beta[i])
      a == IF ev.a = <<>> THEN KeplerA(R(ev.f[i]), m1, m2) ELSE R(ev.a[i])
  IN  IF ev.fn = "circ" THEN TCirc(b, a) ELSE TMerge(b, a, e, R(ev.se), R(ev.le), ev.exact)

Judge_(ev) ==
  IF ev.fn = "reject" THEN Fails("underdetermined accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE IF ev.fn = "mandel"
  THEN IF ev.out.shape # ev.shape THEN {"shape"}
       ELSE LET v == Vals(ev.out) IN Fails("value", \A i \in 1..Len(ev.e) : Close(v[i], MandelFit(R(ev.e[i])), R("1e-8"), Zero))
  ELSE IF ev.fn = "source"
  THEN LET rows == SelectSeq([i \in 1..Len(ev.e) |-> i], LAMBDA i : ev.which[i] = 1)
       IN  IF ev.out.shape # <<Len(rows)>> THEN {"shape"}
           ELSE LET v == Vals(ev.out)
                    exp(i) == IF ev.merged[i] = 1 THEN Zero ELSE One1([ev EXCEPT !.fn = "ecc"], i)
                IN  Fails("value", \A q \in 1..Len(rows) : Close(v[q], exp(rows[q]), R("1e-6"), Zero))
                    \cup Fails("unit", ev.out.unit = "Gyr")
                    \cup Fails("stored", IF ev.saved THEN ev.stored.ok /\ ev.stored.shape = <<Len(ev.e)>>
                                              /\ \A i \in 1..Len(ev.e) : Close(R(ev.stored.v[i]), exp(i), R("1e-6"), Zero)
                                         ELSE ev.stored.v = <<"none">>)
  ELSE IF ev.out.shape # ev.shape THEN {"shape"}
  ELSE LET v == Vals(ev.out)
       IN  Fails("value", \A i \in 1..Len(ev.e) : Close(v[i], One1(ev, i), R("1e-6"), Zero))
           \cup Fails("bounds", \A i \in 1..Len(ev.e) : RLe(Zero, v[i]))
           \cup Fails("unit", ev.out.unit = "Gyr")
           \cup Fails("arguments changed", ev.kept = 1)
           \* the same source alone (fn "alone": as a length-one array and as a scalar)
           \cup (IF ev.fn # "alone" THEN {}
                 ELSE Fails("alone differs", \A i \in 1..Len(ev.e) : ev.single[i].ok /\ Close(R(ev.single[i].v[1]), v[i], R("1e-12"), Zero)))
=============================================================================
