-------------------------------- MODULE C24 --------------------------------
(* Orbit-averaged detector response (utils.py), the amplitude modulation       *)
(* (strain.py) and the sky position a collection keeps (source.py).            *)
EXTENDS Sky, CheckCore

Dims_ == [ fn |-> <<"Dp", "Dx", "Dpx", "Fp", "Fx", "Fp", "Fx", "amp", "amp", "source", "source", "source">>,
           shape |-> <<"scalar", "one", "vec", "vec", "mat">>,
           unit |-> <<"rad", "deg", "other", "mixed", "plain">>,
           sky |-> <<"any", "any", "any", "pole", "equator", "quarter">>,
           frame |-> <<"icrs", "galactic", "barycentrictrueecliptic", "fk5", "barycentricmeanecliptic", "icrs-distance", "galactic-distance", "icrs-vector">>,
           pol |-> <<"any", "any", "zero", "quarter", "half", "wide">>,
           inc |-> <<"any", "any", "face", "edge", "away">>,
           src |-> <<"one", "few", "few", "single">>,
           ask |-> <<"position", "strain", "strain", "snr", "amplitude">> ]
ValidCase_(c) == (c.fn = "source" => c.shape # "mat") /\ (c.fn = "amp" => c.unit # "plain")

\* the sky average, exactly: a polynomial of degree 4 in cos(theta) (Gauss-Legendre, 3 nodes), a trigonometric polynomial in phi (trapezium, 16 nodes)
Nodes == RV(<<"0.6847192030022832", "1.5707963267948966", "2.4568734505875101">>)
Weights == <<R("5") // R("18"), R("8") // R("18"), R("5") // R("18")>>
SkyMean(F(_, _)) == Sum([i \in 1..3 |-> Weights[i] ** Sum([j \in 1..16 |-> F(Nodes[i], (RI(j) ** Pi) // R("8")) // R("16")])])
LawPoints_ == {<<"mean", psi, "0", "0">> : psi \in {"0", "0.2", "0.7853981633974483", "1.1", "2.9"}}
  \cup {<<"point", psi, th, ph>> : psi \in {"0", "0.3", "1.4"}, th \in {"0", "0.4", "1.5707963267948966", "2.2", "3.141592653589793"}, ph \in {"0", "0.9", "2.5", "4", "6.1"}}
Law_(q) ==
  LET psi == R(q[2])  near(x, y) == Close(x, y, R("1e-10"), R("1e-14")) IN
  IF q[1] = "mean"      \* the mean over the sky and over psi, psi + 45 degrees is 3/20 for each
  THEN LET P(th, ph) == FPlus2(th, ph, psi) ++ FPlus2(th, ph, psi ++ (Pi // R("4")))
           X(th, ph) == FCross2(th, ph, psi) ++ FCross2(th, ph, psi ++ (Pi // R("4")))
       IN  near(SkyMean(P), R("3/10")) /\ near(SkyMean(X), R("3/10"))
  ELSE LET th == R(q[3])  ph == R(q[4])  p == FPlus2(th, ph, psi)  x == FCross2(th, ph, psi)
       IN  /\ near(p ++ x, (DPlus2(th, ph) ++ DCross2(th, ph)) // R("4"))
           /\ near(FPlus2(th, ph, psi ++ (Pi // R("4"))), x)
           /\ near(FPlus2(th, ph, psi ++ (Pi // Two)), p)
           /\ RLe(Neg(R("1e-15")), p) /\ RLe(Neg(R("1e-15")), x)
           /\ RLe(Sq(DPlusDCross(th, ph)), (DPlus2(th, ph) ** DCross2(th, ph)) ++ R("1e-12"))

Expect(fn, th, ph, ps) ==
  CASE fn = "Dp" -> DPlus2(th, ph) [] fn = "Dx" -> DCross2(th, ph) [] fn = "Dpx" -> DPlusDCross(th, ph)
    [] fn = "Fp" -> FPlus2(th, ph, ps) [] fn = "Fx" -> FCross2(th, ph, ps)
Judge_(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE CASE ev.fn \in {"Dp", "Dx", "Dpx", "Fp", "Fx"} ->
         LET v == Vals(ev.out) IN
         IF ev.out.shape # ev.shape THEN {"shape"}
         ELSE Fails("value", \A i \in DOMAIN ev.th : Close(v[i], Expect(ev.fn, R(ev.th[i]), R(ev.ph[i]), R(ev.ps[i])), R("1e-9"), R("1e-13")))
              \cup Fails("unit", ev.out.unit = "none") \cup Fails("arguments changed", ev.kept = 1)
              \cup (IF ev.fn = "Dpx" THEN {} ELSE Fails("negative", \A i \in DOMAIN v : RLe(R("-1e-13"), v[i])))
    [] ev.fn = "amp" ->
         LET v == Vals(ev.out) IN
         IF ev.out.shape # ev.shape THEN {"shape"}
         ELSE Fails("value", \A i \in DOMAIN ev.th : Close(v[i], Modulation(R(ev.ph[i]), (Pi // Two) -- R(ev.th[i]), R(ev.ps[i]), R(ev.inc[i])), R("1e-9"), R("1e-13")))
              \cup Fails("unit", ev.out.unit = "none") \cup Fails("arguments changed", ev.kept = 1)
    [] ev.fn = "source" ->
         LET n == Len(ev.lon)  v == Vals(ev.out)
             mod(i) == Modulation(R(ev.lon[i]), R(ev.lat[i]), R(ev.ps[i]), R(ev.inc[i]))
         IN  Fails("frame", ev.frame = "barycentrictrueecliptic" /\ \A i \in 1..n : RLe(R(ev.sep[i]), R("1e-9")))
             \cup Fails("direction", \A i \in 1..n : RLe(Apart(Vec(R(ev.lon[i]), R(ev.lat[i])), ToEcl(ev.from, Vec(R(ev.given[i][1]), R(ev.given[i][2])))), R("3e-4")))
             \cup (IF Len(v) # n THEN {"shape"}
                   ELSE Fails("value", \A i \in 1..n : Close(v[i], mod(i), R("1e-8"), R("1e-12"))))
=============================================================================
