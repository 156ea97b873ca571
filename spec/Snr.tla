-------------------------------- MODULE Snr --------------------------------
(* Signal-to-noise ratio of one source: the stationary sum over harmonics and  *)
(* the integral along the inspiral track.  Noise settings p as in Noise.tla    *)
(* plus p.sc: "none" (exact curve) or the name of the curve used instead.      *)
EXTENDS Evolution, TLC

\* p.sc = "grid": the interpolated curve of a collection, 1e30 outside [1e-7, 2] Hz
GridLo == R("1e-7")
NoiseAt(f, p) ==
  CASE p.sc = "none" -> Psd(f, p)
    [] p.sc = "grid" -> IF RLt(f, GridLo) \/ RLt(Two, f) THEN R("1e30") ELSE Psd(f, p)
    [] OTHER -> UserPsd(p.sc, f)
SkyFactor2(sky) == IF sky = <<>> THEN One ELSE Modulation(R(sky[1]), R(sky[2]), R(sky[3]), R(sky[4]))

(* ---------------- stationary ---------------- *)
Ratio(x, y) == IF REq(y, Infinity) THEN Zero ELSE x // y
StatTerm(mc, f, e, d, n, T, p, g) == Ratio(Sq(H0g(mc, f, n, d, Gof(g, n, e))) ** T, NoiseAt(RI(n) ** f, p))
CircStat2(mc, f, d, T, p, g, sky) == SkyFactor2(sky) ** StatTerm(mc, f, Zero, d, 2, T, p, g)
EccStatTerms(mc, f, e, d, N, T, p, g) == TLCEval([n \in 1..N |-> StatTerm(mc, f, e, d, n, T, p, g)])

(* ---------------- evolving: trapezoid over the sampled track ---------------- *)
GuardCirc == One
GuardEcc == R("0.1") ** Yr
\* y, x: sequences
Trapz(y, x) == Sum([k \in 1..(Len(x) - 1) |-> Half ** (y[k] ++ y[k + 1]) ** (x[k + 1] -- x[k])])
TrackTerm(mc, f, e, d, n, p, g) ==
  LET fn == RI(n) ** f IN Ratio(Sq(Hcg(mc, f, e, n, d, Gof(g, n, e))), Sq(fn) ** NoiseAt(fn, p))
CircTrackF(m1, m2, f0, tend, steps) ==
  LET b == Beta(m1, m2)  a0 == KeplerA(f0, m1, m2)
      at(k) == (tend ** RI(k - 1)) // RI(steps - 1)
      alive == {k \in 1..steps : k = 1 \/ RLt(at(k), TCirc(b, a0))}
      \* a binary that has merged (its time to merger was overestimated) adds nothing: it stays where it was last seen
      last == CHOOSE k \in alive : k + 1 \notin alive
  IN  TLCEval([k \in 1..steps |-> KeplerF(ACircAt(a0, b, at(IF k <= last THEN k ELSE last)), m1, m2)])
CircEvol2(m1, m2, f0, d, T, tm, steps, p, g) ==
  LET tend == RMin(tm -- GuardCirc, T)
      fs == CircTrackF(m1, m2, f0, tend, steps)
      mc == ChirpMass(m1, m2)
  IN  Trapz(TLCEval([k \in 1..steps |-> TrackTerm(mc, fs[k], Zero, d, 2, p, g)]), TLCEval([k \in 1..steps |-> Two ** fs[k]]))
\* the sampled track (e, f) of an eccentric source
EccTrack(m1, m2, f0, e0, tend, steps) ==
  LET b == Beta(m1, m2)  a0 == KeplerA(f0, m1, m2)  K == PetersK(b, a0, e0)  c0 == C0(a0, e0)
      es == TLCEval([k \in 1..steps |-> EccAt(e0, K, (tend ** RI(k - 1)) // RI(steps - 1))])
  IN  TLCEval([k \in 1..steps |-> <<es[k], KeplerF(AFromEcc(es[k], c0), m1, m2)>>])
EccEvolTerms(track, mc, d, N, p, g) ==
  TLCEval([n \in 1..N |-> Trapz(TLCEval([k \in 1..Len(track) |-> TrackTerm(mc, track[k][2], track[k][1], d, n, p, g)]),
                                TLCEval([k \in 1..Len(track) |-> RI(n) ** track[k][2]]))])
\* the last sample before the merger guard may repeat the one before (it sits exactly on the guard)
HoldLast(track) == TLCEval([k \in DOMAIN track |-> IF k = Len(track) /\ k > 1 THEN track[k - 1] ELSE track[k]])
=============================================================================
