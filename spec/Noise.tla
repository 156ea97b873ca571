------------------------------- MODULE Noise -------------------------------
(* Power spectral densities and Galactic confusion noise (all 1/Hz, SI).      *)
EXTENDS Physics

Infinity == R("inf")
Cube(x) == PowI(x, 3)

(* ------------- confusion noise ------------- *)
\* index of the nearest tabulated length (first on ties)
Nearest(lens, tyr) == CHOOSE i \in 1..Len(lens) :
    /\ \A j \in 1..Len(lens) : RLe(RAbs(tyr -- lens[i]), RAbs(tyr -- lens[j]))
    /\ \A j \in 1..(i-1) : RLt(RAbs(tyr -- lens[i]), RAbs(tyr -- lens[j]))

RobLens == RV(<<"0.5", "1", "2", "4">>)
RobAlpha == RV(<<"0.133", "0.171", "0.165", "0.138">>)
RobBeta == RV(<<"243", "292", "299", "-221">>)
RobKappa == RV(<<"482", "1020", "611", "521">>)
RobGamma == RV(<<"917", "1680", "1340", "1680">>)
RobFk == RV(<<"2.58e-3", "2.15e-3", "1.73e-3", "1.13e-3">>)
\* without the knee: what rounding errors of (1 + tanh) are relative to
Robson19Pre(f, t) ==
  LET i == Nearest(RobLens, t // Yr)
  IN  R("9e-45") ** (f ^^ R("-7/3"))
        ** RExp((RobBeta[i] ** f ** RSin(RobKappa[i] ** f)) -- (f ^^ RobAlpha[i]))
\* far above the knee the noise is zero (1 + tanh vanishes faster than the exponential grows)
Robson19Tail(f, t) == LET i == Nearest(RobLens, t // Yr) IN RLt(R("25"), RobGamma[i] ** (f -- RobFk[i]))
Robson19(f, t) ==
  LET i == Nearest(RobLens, t // Yr)
  IN  IF Robson19Tail(f, t) THEN Zero ELSE Robson19Pre(f, t) ** (One ++ RTanh(RobGamma[i] ** (RobFk[i] -- f)))

HuaLens == RV(<<"0.5", "1", "2", "4", "5">>)
HuaA == << RV(<<"-18.6", "-18.6", "-18.6", "-18.6", "-18.6">>),
           RV(<<"-1.22", "-1.13", "-1.45", "-1.43", "-1.51">>),
           RV(<<"0.009", "-0.945", "0.315", "-0.687", "-0.71">>),
           RV(<<"-1.87", "-1.02", "-1.19", "0.24", "-1.13">>),
           RV(<<"0.65", "4.05", "-4.48", "-0.15", "-0.83">>),
           RV(<<"3.6", "-4.5", "10.8", "-1.8", "13.2">>),
           RV(<<"-4.6", "-0.5", "-9.4", "-3.2", "-19.1">>) >>
Huang20(f, t) ==
  IF RLt(f, R("1e-4")) \/ RLt(One, f) THEN Zero
  ELSE LET i == Nearest(HuaLens, t // Yr)
           x == RLog10(f // R("1e-3"))
       IN  Sq(R("10") ^^ Sum([k \in 1..7 |-> HuaA[k][i] ** PowI(x, k - 1)]))

Thiele21(f) ==
  LET x == RLog10(f)
      p == ((((((((R("-3.112634") ** x) ++ R("-44.021504")) ** x) ++ R("-233.748834")) ** x) ++ R("-554.061115")) ** x) ++ R("-540.315450"))
  IN  (R("10") ^^ p) ** R("4") ** Yr

Karnesis21Pre(f, t) ==
  LET f1 == ((t // Yr) ^^ R("-0.15")) ** (R("10") ^^ R("-2.72"))
  IN  R("0.575e-44") ** (f ^^ R("-7/3")) ** RExp(Neg((f // f1) ^^ R("1.56")))
Karnesis21(f, t) ==
  LET fk == ((t // Yr) ^^ R("-0.37")) ** (R("10") ^^ R("-2.49"))
  IN  Karnesis21Pre(f, t) ** (One ++ RTanh((fk -- f) // R("0.00067")))

(* The user-supplied noise functions the harness passes in (same formulas in harness/userfns.py). *)
UserNoise(id, f, t) ==
  CASE id = "cnA" -> R("3e-41") ** (f // R("1e-3")) ^^ R("-1.5") ** RSqrt(t // Yr)
    [] id = "cnB" -> R("1e-39") ** (f ^^ R("0.25"))

(* model: "robson19" "huang20" "thiele21" "karnesis21" "none" or the id of a user function; t in seconds *)
Confusion(model, f, t) ==
  CASE model = "robson19" -> Robson19(f, t)
    [] model = "huang20" -> Huang20(f, t)
    [] model = "thiele21" -> Thiele21(f)
    [] model = "karnesis21" -> Karnesis21(f, t)
    [] model = "none" -> Zero
    [] OTHER -> UserNoise(model, f, t)
\* magnitude below which a difference is rounding
NoiseScale(model, f, t) ==
  CASE model = "robson19" -> (IF Robson19Tail(f, t) THEN Zero ELSE Robson19Pre(f, t)) [] model = "karnesis21" -> Karnesis21Pre(f, t) [] OTHER -> Zero
NoiseModels == {"robson19", "huang20", "thiele21", "karnesis21", "none", "cnA", "cnB"}
\* Thiele+21 is only defined for a four year mission
NoiseAllowed(model, t) == model \in NoiseModels /\ (model = "thiele21" => Close(t, R("4") ** Yr, R("1e-12"), Zero))

(* ------------- instruments ------------- *)
Fstar(L) == C // (Two ** Pi ** L)
LisaResponse(f, L, approx) ==
  IF approx THEN R("3/10") // (One ++ (R("0.6") ** Sq(f // Fstar(L))))
  ELSE TableSpline("R.dat", f // Fstar(L))
InBand(f, lo, hi) == RLe(lo, f) /\ RLe(f, hi)

LisaPsd(f, t, L, approx, model) ==
  IF ~InBand(f, R("1e-7"), Two) THEN Infinity
  ELSE LET poms == Sq(R("1.5e-11")) ** (One ++ PowI(R("2e-3") // f, 4))
           pacc == Sq(R("3e-15")) ** (One ++ Sq(R("0.4e-3") // f)) ** (One ++ PowI(f // R("8e-3"), 4))
           inst == (poms ++ ((Two ** (One ++ Sq(RCos(f // Fstar(L)))) ** pacc) // PowI(Two ** Pi ** f, 4))) // Sq(L)
       IN  (inst // LisaResponse(f, L, approx)) ++ Confusion(model, f, t)

TianQinPsd(f, t, L, model) ==
  LET inst == (R("10/3") // Sq(L))
                ** (((R("4e-30") // PowI(Two ** Pi ** f, 4)) ** (One ++ (R("1e-4") // f))) ++ R("1e-24"))
                ** (One ++ (R("0.6") ** Sq(f // Fstar(L))))
  IN  inst ++ Confusion(model, f, t)

DecigoPsdBand(f, t, model, lo, hi) ==
  IF ~InBand(f, lo, hi) THEN Infinity
  ELSE LET x == Sq(f // R("7.36"))
       IN  ((R("6.53e-48") ** (One ++ x)) ++ (R("4.8e-51") // (PowI(f, 4) ** (One ++ x))))
             ++ (R("5.33e-52") // PowI(f, 4)) ++ Confusion(model, f, t)
DecigoPsd(f, t, model) == DecigoPsdBand(f, t, model, R("1e-3"), R("100"))

(* The user-supplied PSDs of harness/userfns.py: each sees the settings it was called with. *)
UserPsd(id, f) ==
  CASE id = "psdA" -> R("2e-40") ** ((f // R("1e-3")) ^^ R("-2")) ++ R("1e-42")
    [] id = "psdB" -> R("5e-41") ++ (R("1e-38") ** f)

(* ------------- dispatch with automatic settings ------------- *)
Instruments == {"LISA", "TianQin", "DECIGO", "custom"}
\* A settings record p: instrument, psd (id or "none"), t (literal, seconds, or AUTO), L (literal, metres, or AUTO), approx, noise (name or "auto")
AUTO == "auto"
AutoT(inst) == IF inst \in {"LISA", "DECIGO"} THEN R("4") ** Yr ELSE R("5") ** Yr
AutoL(inst) == IF inst = "LISA" THEN R("2.5e9") ELSE RSqrt(R("3")) ** R("1e8")
AutoNoise(inst) == IF inst = "TianQin" THEN "huang20" ELSE "karnesis21"
EffT(p) == IF p.t = AUTO THEN AutoT(p.instrument) ELSE R(p.t)
EffL(p) == IF p.L = AUTO THEN AutoL(p.instrument) ELSE R(p.L)
EffNoise(p) == IF p.noise = "auto" THEN AutoNoise(p.instrument) ELSE p.noise
SettingsAllowed(p) ==
  /\ p.instrument \in Instruments
  /\ p.instrument = "custom" => p.psd # "none"
  /\ p.instrument # "custom" => NoiseAllowed(EffNoise(p), EffT(p))
Psd(f, p) ==
  CASE p.instrument = "LISA" -> LisaPsd(f, EffT(p), EffL(p), p.approx, EffNoise(p))
    [] p.instrument = "TianQin" -> TianQinPsd(f, EffT(p), EffL(p), EffNoise(p))
    [] p.instrument = "DECIGO" -> DecigoPsd(f, EffT(p), EffNoise(p))
    [] p.instrument = "custom" -> UserPsd(p.psd, f)
=============================================================================
