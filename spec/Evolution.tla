----------------------------- MODULE Evolution -----------------------------
(* Inspiral by gravitational radiation (Peters 1964).                        *)
EXTENDS Noise

Q121 == R("121/304")
\* the integrand of Peters' merger time after e = t/sqrt(1+t^2), t = s^3 (bounded, smooth)
SOf(e) == (e // RSqrt(One -- Sq(e))) ^^ R("1/3")
EOf(s) == LET t == PowI(s, 3) IN t // RSqrt(One ++ Sq(t))
QInt(s) == LET e == EOf(s) IN (e ^^ R("29/19")) ** ((One ++ (Q121 ** Sq(e))) ^^ R("1181/2299")) ** R("3") ** Sq(s)
\* composite Simpson between s1 and s2, n even
SimpsonQ(s1, s2, n) ==
  LET h == (s2 -- s1) // RI(n)
  IN  (h // R("3")) ** Sum([k \in 1..(n + 1) |->
        LET w == IF k = 1 \/ k = n + 1 THEN One ELSE IF k % 2 = 0 THEN R("4") ELSE Two
        IN  w ** QInt(s1 ++ (RI(k - 1) ** h))])
\* integral of e^(29/19) (1+121/304 e^2)^(1181/2299) (1-e^2)^(-3/2) from e1 to e2
PetersInt(e1, e2) == SimpsonQ(SOf(e1), SOf(e2), 240)

TCirc(beta, a) == PowI(a, 4) // (R("4") ** beta)
TSmallE(beta, a, e) == (PowI(C0(a, e), 4) // (R("4") ** beta)) ** (e ^^ R("48/19"))
TLargeE(beta, a, e) == TSmallE(beta, a, e) ** R("768/425") ** ((One -- Sq(e)) ^^ R("-1/2")) ** ((One ++ (Q121 ** Sq(e))) ^^ R("3480/2299"))
PetersK(beta, a, e) == (R("12/19") ** PowI(C0(a, e), 4)) // beta
TPeters(beta, a, e) == PetersK(beta, a, e) ** PetersInt(Zero, e)
\* Mandel (2021) fit to TPeters / TCirc with the polynomial correction of LEGWORK
MandelCoeff == RV(<<"-1.20317749e+03", "5.67211219e+03", "-1.13935479e+04", "1.27306422e+04", "-8.66281737e+03", "3.69447796e+03",
                    "-9.79864734e+02", "1.54873214e+02", "-1.32267683e+01", "5.32494018e-01", "9.93382093e-01">>)
MandelFit(e) ==
  ((One ++ (R("0.27") ** PowI(e, 10)) ++ (R("0.33") ** PowI(e, 20)) ++ (R("0.20") ** PowI(e, 1000))) ** ((One -- Sq(e)) ^^ R("7/2")))
    // Sum([i \in 1..11 |-> MandelCoeff[i] ** PowI(e, 11 - i)])
\* regime selection; se, le: the eccentricity limits of the two approximations
Regime(e, se, le) == CASE REq(e, Zero) -> "circ" [] RLt(Zero, e) /\ RLt(e, se) -> "small" [] RLt(le, e) -> "large" [] OTHER -> "other"
TMerge(beta, a, e, se, le, exact) ==
  CASE Regime(e, se, le) = "circ" -> TCirc(beta, a)
    [] Regime(e, se, le) = "small" -> TSmallE(beta, a, e)
    [] Regime(e, se, le) = "large" -> TLargeE(beta, a, e)
    [] OTHER -> IF exact THEN TPeters(beta, a, e) ELSE TCirc(beta, a) ** MandelFit(e)
SmallE == R("0.15")
LargeE == R("0.9999")
TMergeStd(m1, m2, f, e, exact) == TMerge(Beta(m1, m2), KeplerA(f, m1, m2), e, SmallE, LargeE, exact)

(* ---------------- circular evolution ---------------- *)
MergedF == R("100")
ACircAt(a0, beta, t) == LET d == PowI(a0, 4) -- (R("4") ** beta ** t) IN IF RLe(d, Zero) THEN Zero ELSE d ^^ R("1/4")
FCircAt(a0, beta, m1, m2, t) == LET a == ACircAt(a0, beta, t) IN IF REq(a, Zero) THEN MergedF ELSE KeplerF(a, m1, m2)

(* ---------------- eccentric evolution: e(t) from the time identity t = K * Int(e, e0) ---------------- *)
WExp == R("144/19")
TLCEvalR(x) == x ++ Zero                  \* (a primitive application: forces evaluation once per use)
RECURSIVE NewtonW(_, _, _, _, _)
NewtonW(w, s0, i0, target, k) ==          \* find s with Int_0^s = target, w = s^(144/19), i0 = Int_0^s0
  IF k = 0 THEN w
  ELSE LET s == TLCEvalR(w ^^ R("19/144"))
           have == i0 -- SimpsonQ(s, s0, 80)
           dsdw == s // (WExp ** w)
           nw == TLCEvalR(w -- ((have -- target) // (QInt(s) ** dsdw)))
       IN  NewtonW(IF RLe(nw, Zero) THEN w ** R("0.1") ELSE nw, s0, i0, target, k - 1)
\* eccentricity reached from e0 after time t (K = PetersK); 0 after the merger
EccAt(e0, K, t) ==
  LET s0 == SOf(e0)
      i0 == SimpsonQ(Zero, s0, 240)
      left == i0 -- (t // K)
  IN  IF RLe(left, Zero) THEN Zero
      ELSE IF REq(t, Zero) THEN e0
      ELSE EOf(NewtonW((s0 ^^ WExp) ** (left // i0), s0, i0, left, 7) ^^ R("19/144"))
\* time needed to go from e1 down to e2
TimeBetween(K, e1, e2) == K ** SimpsonQ(SOf(e2), SOf(e1), 240)

(* ---------------- closed-form chirp used for the stationarity criterion ---------------- *)
ChirpInner(f, mc, t, e) ==
  (f ^^ R("-8/3")) -- (((Two ^^ R("32/3")) ** (Pi ^^ R("8/3")) ** t ** ((G ** mc) ^^ R("5/3")) ** PetersF(e)) // (R("5") ** PowI(C, 5)))
ChirpF(f, mc, t, e, mergeF) == LET x == ChirpInner(f, mc, t, e) IN IF RLe(Zero, x) THEN x ^^ R("-3/8") ELSE mergeF
FracChange(f, mc, t, e) == (ChirpF(f, mc, t, e, R("1e9")) -- f) // f
Stationary(f, mc, t, e, tol) == RLe(FracChange(f, mc, t, e), tol)
\* how much of the initial f^(-8/3) is left, 1 at the start, negative after the merger
Left(f, mc, t, e) == ChirpInner(f, mc, t, e) // (f ^^ R("-8/3"))
Eps == R("1e-13")
\* TRUE, FALSE, or either when the change is within rounding of the tolerance
StatOk(flag, f, mc, t, e, tol) ==
  IF RLe(R("1e7"), f) THEN TRUE                      \* the marker frequency of merged sources
  ELSE LET l == Left(f, mc, t, e)  band == R("1e-12") ++ (R("1e-9") ** tol)
       IN  IF RLe(R("9e8"), f ** tol) THEN TRUE       \* beyond the marker frequency of a merger
           ELSE IF RLe(l, Neg(Eps)) THEN flag = 0
           ELSE IF RLt(l, Eps) THEN TRUE
           ELSE LET d == (l ^^ R("-3/8")) -- One
                IN  IF RLe(d, tol -- band) THEN flag = 1 ELSE IF RLt(tol ++ band ++ ((R("1e-12") ** d) // l), d) THEN flag = 0 ELSE TRUE
=============================================================================
