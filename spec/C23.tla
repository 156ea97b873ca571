-------------------------------- MODULE C23 --------------------------------
(* Evolving SNR: the trapezoid along the inspiral track (snr.py).             *)
EXTENDS Snr, CheckCore

Dims_ == [ fn |-> <<"circ", "circ", "ecc", "ecc">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           ret |-> <<"total", "max", "terms">>,
           src |-> <<"one", "few", "several">>,
           ecc |-> <<"low", "mid", "high", "mixed", "mixed">>,
           nharm |-> <<"two", "five", "twelve">>,
           nstep |-> <<"two", "few", "few", "many">>,
           ends |-> <<"observation", "observation", "merger", "mixed", "mixed", "imminent">>,
           tm |-> <<"omit", "given", "sooner", "later">>,
           nproc |-> <<1, 1, 1, 2>>,
           inst |-> <<"LISA", "LISA", "TianQin", "DECIGO", "custom", "omit">>,
           sc |-> <<"none", "none", "user">>,
           g |-> <<"exact", "exact", "table">>,
           noise |-> <<"omit", "auto", "huang20", "karnesis21", "none", "cnA">>,
           approx |-> <<"yes", "yes", "omit">>,
           len |-> <<"omit", "auto", "given">>,
           tobs |-> <<"short", "four", "long">>,
           units |-> <<"si", "astro", "odd">> ]
ValidCase_(c) == TRUE

\* laws: agrees with the stationary SNR when nothing moves; scales as 1/D; more time, more SNR
LawPoints_ == {"0.5", "10"} \X {"1e-4", "2e-3"}
Law_(q) ==
  LET m == R(q[1]) ** Msun  f == R(q[2])  d == R("3e20")  T == R("0.01") ** Yr
      p == [instrument |-> "LISA", psd |-> "none", t |-> "126230400", L |-> "auto", approx |-> TRUE, noise |-> "auto", sc |-> "none"]
      tm == TCirc(Beta(m, m), KeplerA(f, m, m))
      s == CircEvol2(m, m, f, d, T, tm, 6, p, "exact")
      ecc(e) == Sum(EccEvolTerms(EccTrack(m, m, f, e, T, 3), ChirpMass(m, m), d, 4, p, "exact"))
  IN  /\ Close(s, CircStat2(ChirpMass(m, m), f, d, T, p, "exact", <<>>), R("2e-3"), Zero)
      /\ Close(R("9") ** CircEvol2(m, m, f, R("3") ** d, T, tm, 6, p, "exact"), s, R("1e-9"), Zero)
      /\ RLt(s, CircEvol2(m, m, f, d, Two ** T, tm, 6, p, "exact"))
      /\ Close(ecc(R("1e-3")), s, R("1e-2"), Zero)

T_(ev) == R(ev.T)
Tm(ev, i) ==
  IF ev.tmerge # <<>> THEN R(ev.tmerge[i])
  ELSE LET m1 == R(ev.m1[i])  m2 == R(ev.m2[i])  f == R(ev.f[i])
       IN  IF ev.fn = "circ" THEN TCirc(Beta(m1, m2), KeplerA(f, m1, m2)) ELSE TMergeStd(m1, m2, f, R(ev.e[i]), TRUE)
Guarded(ev, i) == RLe(Tm(ev, i) -- GuardEcc, T_(ev) ** R("1.000001"))

Candidates(ev, i) ==
  LET m1 == R(ev.m1[i])  m2 == R(ev.m2[i])  f == R(ev.f[i])  d == R(ev.d[i])  mc == ChirpMass(m1, m2)
  IN  IF ev.fn = "circ" THEN << <<CircEvol2(m1, m2, f, d, T_(ev), Tm(ev, i), ev.nstep, ev.p, ev.g)>> >>
      ELSE IF RLt(Tm(ev, i), GuardEcc) THEN << [n \in 1..ev.N |-> Zero] >>      \* no time left before the guard
      ELSE LET tr == EccTrack(m1, m2, f, R(ev.e[i]), RMin(Tm(ev, i) -- GuardEcc, T_(ev)), ev.nstep)
               t1 == EccEvolTerms(tr, mc, d, ev.N, ev.p, ev.g)
           IN  IF Guarded(ev, i) THEN <<t1, EccEvolTerms(HoldLast(tr), mc, d, ev.N, ev.p, ev.g)>> ELSE <<t1>>
RtolS(ev) == IF ev.fn = "circ" THEN R("1e-6") ELSE R("5e-4")

Judge_(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE LET n == Len(ev.m1)
           o == IF ev.ret = "max" THEN ev.out.parts[1] ELSE ev.out
       IN  IF ev.ret = "max" /\ (ev.out.kind # "parts" \/ ev.out.n # 2) THEN {"outputs"}
           ELSE IF o.shape # (IF ev.ret = "terms" THEN <<n, ev.N>> ELSE <<n>>) THEN {"shape"}
           ELSE LET v == Vals(o)
                    h(i) == ev.out.parts[2].v[i]
                    ok(i, t) ==
                      IF ev.ret = "terms" THEN \A k \in 1..ev.N : Close(v[((i - 1) * ev.N) + k], t[k], RtolS(ev), R("1e-6") ** MaxV(t))
                      ELSE Close(v[i], RSqrt(Sum(t)), RtolS(ev), R("1e-300"))
                    dom(i, t) == h(i) \in 1..ev.N /\ RLe(MaxV(t) ** R("0.999"), t[h(i)])
                    good(i) == LET cs == TLCEval(Candidates(ev, i)) IN <<\E c \in DOMAIN cs : ok(i, cs[c]), ev.ret # "max" \/ \E c \in DOMAIN cs : dom(i, cs[c])>>
                    res == TLCEval([i \in 1..n |-> good(i)])
                IN  Fails("plain number", o.kind = "f")
                    \cup Fails("arguments changed", ev.kept = 1)
                    \cup Fails("value", \A i \in 1..n : res[i][1])
                    \cup Fails("dominant harmonic", \A i \in 1..n : res[i][2])
                    \cup Fails("alone differs", ev.alone = "none" \/ Close(R(ev.alone), v[ev.which], R("1e-6"), R("1e-300")))
=============================================================================
