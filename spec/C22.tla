-------------------------------- MODULE C22 --------------------------------
(* Stationary SNR: the per-harmonic sum over the noise curve (snr.py).        *)
EXTENDS Snr, CheckCore

Dims_ == [ fn |-> <<"circ", "ecc", "ecc">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           ret |-> <<"total", "max", "terms">>,
           src |-> <<"one", "few", "several">>,
           ecc |-> <<"zero", "low", "mid", "high", "mixed", "mixed">>,
           nharm |-> <<"one", "two", "ten", "ten", "fifty">>,
           inst |-> <<"LISA", "LISA", "TianQin", "DECIGO", "custom", "omit">>,
           sc |-> <<"none", "none", "user">>,
           g |-> <<"exact", "exact", "table">>,
           noise |-> <<"omit", "auto", "robson19", "huang20", "karnesis21", "none", "cnA">>,
           approx |-> <<"omit", "yes", "no">>,
           len |-> <<"omit", "auto", "given">>,
           tobs |-> <<"short", "four", "long">>,
           sky |-> <<"no", "no", "yes">>,
           fr |-> <<"in", "in", "in", "edge">>,
           units |-> <<"si", "astro", "odd">> ]
ValidCase_(c) == TRUE

LisaP(t) == [instrument |-> "LISA", psd |-> "none", t |-> t, L |-> "auto", approx |-> FALSE, noise |-> "auto", sc |-> "none"]
LawPoints_ == {"0.3", "20"} \X {"2e-4", "5e-3"} \X {"0", "0.25", "0.7"}
Law_(q) ==
  LET mc == R(q[1]) ** Msun  f == R(q[2])  e == R(q[3])  d == R("3e20")  T == R("4") ** Yr
      p == LisaP("126230400")
      s2(x, tt) == Sum(EccStatTerms(mc, f, e, x, 12, tt, p, "exact"))
  IN  /\ Close(R("9") ** s2(R("3") ** d, T), s2(d, T), R("1e-10"), Zero)           \* SNR ~ 1/D
      /\ Close(s2(d, R("4") ** T), R("4") ** s2(d, T), R("1e-10"), Zero)           \* SNR ~ sqrt(T) on a fixed curve
      /\ q[3] = "0" => Close(s2(d, T), CircStat2(mc, f, d, T, p, "exact", <<>>), R("1e-10"), Zero)

T_(ev) == R(ev.T)
Terms(ev, i) ==
  IF ev.fn = "circ" THEN <<CircStat2(R(ev.mc[i]), R(ev.f[i]), R(ev.d[i]), T_(ev), ev.p, ev.g, IF ev.sky = <<>> THEN <<>> ELSE ev.sky[i])>>
  ELSE EccStatTerms(R(ev.mc[i]), R(ev.f[i]), R(ev.e[i]), R(ev.d[i]), ev.N, T_(ev), ev.p, ev.g)
RtolS == R("1e-6")
Judge_(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE LET n == Len(ev.mc)
           o == IF ev.ret = "max" THEN ev.out.parts[1] ELSE ev.out
       IN  IF ev.ret = "max" /\ (ev.out.kind # "parts" \/ ev.out.n # 2) THEN {"outputs"}
           ELSE IF o.shape # (IF ev.ret = "terms" THEN <<n, ev.N>> ELSE <<n>>) THEN {"shape"}
           ELSE LET v == Vals(o)
                    t == TLCEval([i \in 1..n |-> Terms(ev, i)])
                IN  Fails("plain number", o.kind = "f")
                    \cup Fails("arguments changed", ev.kept = 1)
                    \cup (IF ev.ret = "terms"
                          THEN Fails("term", \A i \in 1..n : \A k \in 1..ev.N : Close(v[((i - 1) * ev.N) + k], t[i][k], RtolS, R("1e-12") ** MaxV(t[i])))
                          ELSE Fails("total", \A i \in 1..n : Close(v[i], RSqrt(Sum(t[i])), RtolS, R("1e-300"))))
                    \cup (IF ev.ret # "max" THEN {}
                          ELSE LET h == ev.out.parts[2].v
                               IN  Fails("dominant harmonic", ev.out.parts[2].shape = <<n>> /\ \A i \in 1..n : h[i] \in 1..ev.N
                                           /\ RLe(MaxV(t[i]) ** R("0.999999"), t[i][h[i]])))
=============================================================================
