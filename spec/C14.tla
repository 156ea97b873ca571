-------------------------------- MODULE C14 --------------------------------
(* Galactic confusion noise (psd.py).                                         *)
EXTENDS Noise, CheckCore

Dims_ == [ fn |-> <<"get", "get", "get", "direct", "direct", "inpsd", "inpsd", "inpsd">>,
           model |-> <<"robson19", "huang20", "thiele21", "karnesis21", "none", "cnA", "cnB", "unknown">>,
           t |-> <<"auto", "tab", "tab", "near", "any", "long", "four", "four">>,
           tunit |-> <<"yr", "s", "day">>,
           shape |-> <<"scalar", "one", "vec", "vec", "mat", "empty">>,
           freq |-> <<"Hz", "mHz", "1/day">>,
           range |-> <<"knee", "low", "high", "edges", "wide">>,
           inst |-> <<"LISA", "TianQin", "DECIGO">> ]
ValidCase_(c) ==
  /\ c.shape = "empty" => ~(c.fn = "inpsd" /\ c.inst = "LISA")
  /\ c.fn = "get" => c.model \notin {"cnA", "cnB"}
  /\ c.fn = "direct" => c.model \notin {"cnA", "cnB", "none", "unknown"}

\* laws: nearest length of a tabulated length is itself, the noise is non-negative and vanishes far above the knee
LawPoints_ == {<<"near", i>> : i \in 1..5} \cup
              {<<"pos", m, f, t>> : m \in {"robson19", "huang20", "karnesis21", "none"}, f \in {"1e-5", "5e-4", "2e-3", "1e-2"}, t \in {"0.4", "1", "4", "9"}}
Law_(p) ==
  IF p[1] = "near" THEN Nearest(HuaLens, HuaLens[p[2]]) = p[2] /\ (p[2] < 5 => Nearest(RobLens, RobLens[p[2]]) = p[2])
  ELSE LET f == R(p[3])  t == R(p[4]) ** Yr
       IN  /\ RLe(Zero, Confusion(p[2], f, t))
           /\ p[2] = "karnesis21" => Close(Confusion(p[2], R("0.05"), t), Zero, Zero, R("1e-55"))
           /\ p[2] = "huang20" => REq(Confusion(p[2], R("0.9e-4"), t), Zero) /\ REq(Confusion(p[2], R("1.1"), t), Zero)

\* default mission length of a model when none is given
DefaultT(m) == IF m = "huang20" THEN R("5") ** Yr ELSE R("4") ** Yr
Judge_(ev) ==
  LET f == RV(ev.f)
      n == Len(f)
      t == IF ev.t = "auto" THEN (IF ev.fn = "inpsd" THEN AutoT(ev.inst) ELSE DefaultT(ev.model)) ELSE R(ev.t)
      bad == IF ev.model = "unknown" THEN TRUE ELSE ~NoiseAllowed(ev.model, t)
  IN  IF bad THEN Fails("invalid accepted", IsErr(ev.out, "ValueError"))
      ELSE IF ~ev.out.ok THEN {"raises"}
      ELSE IF ev.out.shape # ev.shape THEN {"shape"}
      ELSE Fails("unit", ev.out.unit = "s")
           \cup Fails("arguments changed", ev.kept = 1)
           \cup (LET v == Vals(ev.out)
                     p == [instrument |-> ev.inst, psd |-> "none", t |-> ev.t, L |-> "auto", approx |-> FALSE, noise |-> ev.model]
                 IN  Fails("value", \A i \in 1..n :
                       IF ev.fn = "inpsd" THEN Close(v[i], Psd(f[i], p), Rtol, Zero)
                       ELSE Close(v[i], Confusion(ev.model, f[i], t), Rtol, R("1e-15") ** NoiseScale(ev.model, f[i], t))))
=============================================================================
