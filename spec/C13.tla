-------------------------------- MODULE C13 --------------------------------
(* Noise power spectral densities of every instrument (psd.py).               *)
EXTENDS Noise, CheckCore

Dims_ == [ fn |-> <<"psd", "psd", "psd", "direct", "direct", "response", "approx_response", "psd", "notable">>,
           inst |-> <<"LISA", "LISA", "TianQin", "DECIGO", "DECIGO", "custom", "unknown">>,
           t |-> <<"auto", "given">>,
           L |-> <<"auto", "given">>,
           lunit |-> <<"m", "km", "AU">>,
           approx |-> <<"omit", "no", "yes">>,
           noise |-> <<"omit", "auto", "none", "robson19", "huang20", "karnesis21", "cnA", "thiele21">>,
           shape |-> <<"scalar", "one", "vec", "vec", "mat", "cube", "empty">>,
           freq |-> <<"Hz", "mHz", "1/day">>,
           range |-> <<"band", "low", "edges", "outside", "mixed">>,
           band |-> <<"std", "custom">> ]
\* (scipy's splev rejects empty input, so no frequencies at all are left out where the exact response is used)
ValidCase_(c) == /\ c.fn = "direct" => c.inst \notin {"custom", "unknown"}
                 /\ c.shape = "empty" => (c.fn # "response" /\ (c.inst = "LISA" => c.approx = "yes"))

\* laws: infinite exactly outside the band, noise adds linearly, automatic settings are the instrument's own
LawPoints_ == {<<i, f>> : i \in {"LISA", "TianQin", "DECIGO"}, f \in {"1e-8", "0.99e-7", "1e-7", "1e-5", "1.1e-3", "3e-2", "2", "2.01", "100", "101"}}
Law_(p) ==
  LET f == R(p[2])
      s(t, L, n) == [instrument |-> p[1], psd |-> "none", t |-> t, L |-> L, approx |-> FALSE, noise |-> n]
      v == Psd(f, s("auto", "auto", "none"))
      lo == IF p[1] = "LISA" THEN R("1e-7") ELSE R("1e-3")
      hi == IF p[1] = "LISA" THEN Two ELSE R("100")
  IN  /\ (p[1] # "TianQin") => (IsFinite(v) <=> (RLe(lo, f) /\ RLe(f, hi)))
      /\ (IsFinite(v) /\ p[1] # "LISA" /\ RLe(f, Two)) => Close(Psd(f, s("auto", "auto", "cnB")), v ++ Confusion("cnB", f, One), R("1e-12"), Zero)
      /\ IsFinite(v) => RLt(Zero, v)
      /\ SettingsAllowed(s("auto", "auto", "auto"))

Judge_(ev) ==
  IF ev.fn \in {"response", "approx_response"}
  THEN IF ~ev.out.ok THEN {"raises"}
       ELSE IF ev.out.shape # ev.shape THEN {"shape"}
       ELSE LET f == RV(ev.f)  v == Vals(ev.out)  fs == R(ev.fstar)
            IN  Fails("value", \A i \in 1..Len(f) : Close(v[i],
                   IF ev.fn = "response" THEN TableSpline("R.dat", f[i] // fs) ELSE R("3/10") // (One ++ (R("0.6") ** Sq(f[i] // fs))),
                   R("1e-8"), Zero))
  ELSE IF ev.fn = "notable"  \* the tabulated response is not there: the approximation, with a warning
  THEN IF ~ev.out.ok THEN {"raises"}
       ELSE IF ev.out.shape # ev.shape THEN {"shape"}
       ELSE LET f == RV(ev.f)  v == Vals(ev.out)
                s == [instrument |-> "LISA", psd |-> "none", t |-> "auto", L |-> "auto", approx |-> TRUE, noise |-> "none"]
            IN  Fails("warning", ev.warned = 1) \cup
                Fails("value", \A i \in 1..Len(f) : Close(v[i],
                   IF ev.kind = "psd" THEN Psd(f[i], s) ELSE R("3/10") // (One ++ (R("0.6") ** Sq(f[i] // R(ev.fstar)))), Rtol, Zero))
  ELSE
  LET f == RV(ev.f)
      p == ev.p
  IN  IF p.instrument \notin Instruments THEN Fails("unknown instrument accepted", IsErr(ev.out, "ValueError"))
      ELSE IF ~SettingsAllowed(p) THEN Fails("invalid noise accepted", IsErr(ev.out, "ValueError"))
      ELSE IF ~ev.out.ok THEN {"raises"}
      ELSE IF ev.out.shape # ev.shape THEN {"shape"}
      ELSE Fails("unit", ev.out.unit = "s")
           \cup Fails("arguments changed", ev.kept = 1)
           \* a custom PSD is called once, with every setting as given
           \cup (IF p.instrument = "custom"
                 THEN Fails("custom call", ev.seen = <<[id |-> p.psd, t |-> p.t, L |-> p.L, approx |-> p.approx, noise |-> p.noise]>>)
                 ELSE Fails("custom call", ev.seen = <<>>))
           \cup (LET v == Vals(ev.out)
                 IN  Fails("value", \A i \in 1..Len(f) : Close(v[i],
                        IF ev.band # <<>> THEN DecigoPsdBand(f[i], EffT(p), EffNoise(p), R(ev.band[1]), R(ev.band[2]))
                        ELSE Psd(f[i], p), Rtol, Zero)))
=============================================================================
