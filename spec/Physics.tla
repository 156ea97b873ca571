------------------------------ MODULE Physics ------------------------------
(* The physics LEGWORK promises, over SI reals: orbital relations, Peters &   *)
(* Mathews functions, quadrupole strains and the orbit-averaged response.     *)
EXTENDS Integers, Sequences, Reals64

G == R("6.6743e-11")
C == R("299792458")
Msun == R("1.988409870698051e30")
AU == R("149597870700")
Yr == R("31557600")

(* ---------------- masses and orbits ---------------- *)
ChirpMass(m1, m2) == ((m1 ** m2) ^^ R("3/5")) // ((m1 ++ m2) ^^ R("1/5"))
KeplerA(f, m1, m2) == ((G ** (m1 ++ m2)) // Sq(Two ** Pi ** f)) ^^ R("1/3")
KeplerF(a, m1, m2) == RSqrt((G ** (m1 ++ m2)) // PowI(a, 3)) // (Two ** Pi)
Beta(m1, m2) == ((R("64/5") ** PowI(G, 3)) // PowI(C, 5)) ** m1 ** m2 ** (m1 ++ m2)
C0(a, e) == a ** (One -- Sq(e)) ** (e ^^ R("-12/19")) ** ((One ++ (R("121/304") ** Sq(e))) ^^ R("-870/2299"))
AFromEcc(e, c0) == (c0 ** (e ^^ R("12/19")) ** ((One ++ (R("121/304") ** Sq(e))) ^^ R("870/2299"))) // (One -- Sq(e))

(* ---------------- Peters & Mathews (1963) ---------------- *)
PetersF(e) == (One ++ (R("73/24") ** Sq(e)) ++ (R("37/96") ** PowI(e, 4))) // ((One -- Sq(e)) ^^ R("7/2"))
PetersG(n, e) ==
  LET x == RI(n) ** e
      jp2 == BesselJ(n + 2, x)          \* highest order first: one recurrence serves all five
      jp1 == BesselJ(n + 1, x)
      j0  == BesselJ(n, x)
      jm1 == BesselJ(n - 1, x)
      jm2 == BesselJ(n - 2, x)
      b1 == jp2                          \* force evaluation order (cache) before the rest
      br1 == ((jm2 -- (Two ** e ** jm1)) ++ ((Two // RI(n)) ** j0) ++ (Two ** e ** jp1)) -- b1
      br2 == (jm2 -- (Two ** j0)) ++ jp2
  IN  (PowI(RI(n), 4) // R("32")) **
        (Sq(br1) ++ ((One -- Sq(e)) ** Sq(br2)) ++ ((R("4/3") // Sq(RI(n))) ** Sq(j0)))
FnDot(mc, f, e, n) ==
  (((R("48") ** RI(n)) // (R("5") ** Pi)) ** ((G ** mc) ^^ R("5/3")) ** ((Two ** Pi ** f) ^^ R("11/3")) ** PetersF(e))
     // PowI(C, 5)

(* the table used by the harness instead of g(n,e): changes sign, negative entries count as zero *)
UserG(n, e) == (R("0.8") -- (R("1.1") ** e)) ++ (R("0.01") ** RI(n))
Gof(which, n, e) == CASE which = "exact" -> PetersG(n, e) [] which = "table" -> UserG(n, e)
                      [] which = "above" -> UserG(n, e) ++ R("0.6")      \* never negative: no cancellation to amplify the rounding of e

(* ---------------- strains ---------------- *)
H0Part(mc, f, d) == (RSqrt((Two ^^ R("28/3")) // R("5")) ** (G ^^ R("5/3")) ** (mc ^^ R("5/3")) ** ((Pi ** f) ^^ R("2/3")))
                      // (PowI(C, 4) ** d)
HcPart(mc, f, e, d) == (RSqrt((Two ^^ R("5/3")) // (R("3") ** (Pi ^^ R("4/3")))) ** (G ^^ R("5/6")) ** (mc ^^ R("5/6")) ** (f ^^ R("-1/6")))
                      // ((C ^^ R("3/2")) ** d ** RSqrt(PetersF(e)))
\* with the relative power g given (exact or tabulated; negative table values count as zero)
H0g(mc, f, n, d, g) == (H0Part(mc, f, d) ** RSqrt(RMax(g, Zero))) // RI(n)
Hcg(mc, f, e, n, d, g) == HcPart(mc, f, e, d) ** RSqrt(RMax(g, Zero) // RI(n))
H0(mc, f, e, n, d) == H0g(mc, f, n, d, PetersG(n, e))
Hc(mc, f, e, n, d) == Hcg(mc, f, e, n, d, PetersG(n, e))

(* ---------------- Cornish & Larson (2003) orbit-averaged response ---------------- *)
\* theta: ecliptic co-latitude, phi: ecliptic longitude, psi: polarisation
DPlus2(th, ph) == R("3/2048") ** (((R("487") ++ (R("158") ** Sq(RCos(th)))) ++ (R("7") ** PowI(RCos(th), 4)))
                     -- (R("162") ** Sq(RSin(Two ** ph)) ** Sq(One ++ Sq(RCos(th)))))
DCross2(th, ph) == R("3/512") ** ((R("120") ** Sq(RSin(th))) ++ Sq(RCos(th)) ++ (R("162") ** Sq(RSin(Two ** ph)) ** Sq(RCos(th))))
DPlusDCross(th, ph) == R("243/512") ** RCos(th) ** RSin(Two ** ph) ** ((Two ** Sq(RCos(ph))) -- One) ** (One ++ Sq(RCos(th)))
FPlus2(th, ph, ps) == R("1/4") ** (((Sq(RCos(Two ** ps)) ** DPlus2(th, ph)) -- (RSin(R("4") ** ps) ** DPlusDCross(th, ph)))
                        ++ (Sq(RSin(Two ** ps)) ** DCross2(th, ph)))
FCross2(th, ph, ps) == R("1/4") ** ((Sq(RCos(Two ** ps)) ** DCross2(th, ph)) ++ (RSin(R("4") ** ps) ** DPlusDCross(th, ph))
                        ++ (Sq(RSin(Two ** ps)) ** DPlus2(th, ph)))
Modulation(lon, lat, psi, inc) ==
  LET th == (Pi // Two) -- lat
      ap == (One ++ Sq(RCos(inc))) // Two
      ac == RCos(inc)
  IN  R("5/4") ** ((Sq(ap) ** FPlus2(th, lon, psi)) ++ (Sq(ac) ** FCross2(th, lon, psi)))
=============================================================================
