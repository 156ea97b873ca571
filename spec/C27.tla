-------------------------------- MODULE C27 --------------------------------
(* Distributions of source variables (visualisation.plot_1D_dist,             *)
(* visualisation.plot_2D_dist, Source.plot_source_variables).                 *)
EXTENDS Physics, CheckCore

VarNames == <<"m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr">>
Dims_ == [ fn |-> <<"source", "source", "source", "source", "one", "two">>,
           src |-> <<"few", "several", "many">>,
           x |-> VarNames \o <<"mass_1", "time">>,
           y |-> <<"none", "none", "none", "none", "none", "none", "none", "none", "none">> \o VarNames \o <<"nonsense">>,
           type |-> <<"omit", "omit", "hist", "kde", "ecdf", "scatter">>,
           log |-> <<"omit", "no", "yes", "yes", "x", "y">>,
           which |-> <<"omit", "omit", "mask", "index">>,
           exclude |-> <<"omit", "omit", "yes", "no">>,
           merged |-> <<"no", "some", "some">>,
           snr |-> <<"yes", "yes", "no">>,
           weights |-> <<"no", "yes">>,
           xlabel |-> <<"omit", "omit", "given", "empty">>,
           ylabel |-> <<"omit", "omit", "given">>,
           xlim |-> <<"omit", "omit", "given">>,
           ylim |-> <<"omit", "omit", "given">>,
           axes |-> <<"own", "own", "bare">>,
           half |-> <<"no", "no", "yes">>,
           bins |-> <<"omit", "omit", "int", "edges">>,
           density |-> <<"omit", "no">>,
           look |-> <<"default", "given">>,
           extra |-> <<"none", "none", "some">>,
           figsize |-> <<"omit", "given">>,
           show |-> <<"omit", "yes", "no", "no">>,
           fail |-> <<"no", "no", "no", "no", "no", "keyword", "length">>,
           units |-> <<"std", "odd">> ]
ValidCase_(c) ==
  /\ c.fn = "two" => c.type \in {"omit", "scatter", "kde"}
  /\ c.fn = "one" => c.type \in {"omit", "hist", "kde", "ecdf"}
  /\ c.fn = "source" => IF c.y = "none" THEN c.type \in {"omit", "hist", "kde", "ecdf"} ELSE c.type \in {"omit", "scatter", "kde"}
  /\ (c.fn = "source" /\ c.type = "kde") => c.x # c.y /\ {c.x, c.y} # {"f_orb", "f_GW"}      \* proportional variables have no 2D density
  /\ (c.fn = "one" \/ (c.fn = "source" /\ c.y = "none")) => c.log \notin {"x", "y"}

(* laws of the distributions specified below, on a fixed sample *)
Fn0 == RV(<<"0.5", "1.25", "1.5", "3", "4.5", "7">>)
W0(k) == IF k = 1 THEN RV(<<"1", "1", "1", "1", "1", "1">>) ELSE RV(<<"0.5", "2", "1", "0.25", "3", "1.5">>)
Total(w) == Sum(w)
InBin(v, lo, hi, last) == RLe(lo, v) /\ (IF last THEN RLe(v, hi) ELSE RLt(v, hi))
\* weight of the sample in a bin
BinW(v, w, lo, hi, last) == Sum([i \in DOMAIN v |-> IF InBin(v[i], lo, hi, last) THEN w[i] ELSE Zero])
Ecdf(v, w, x) == Sum([i \in DOMAIN v |-> IF RLe(v[i], x) THEN w[i] ELSE Zero]) // Total(w)
EcdfBelow(v, w, x) == Sum([i \in DOMAIN v |-> IF RLt(v[i], x) THEN w[i] ELSE Zero]) // Total(w)
\* Gaussian kernel density with Scott's rule for weighted samples
Kde(v, w, x, adj) ==
  LET n == Len(v)  p == [i \in 1..n |-> w[i] // Total(w)]
      neff == One // Sum([i \in 1..n |-> Sq(p[i])])
      mu == Sum([i \in 1..n |-> p[i] ** v[i]])
      var == Sum([i \in 1..n |-> p[i] ** Sq(v[i] -- mu)]) // (One -- (One // neff))
      h == adj ** RSqrt(var) ** (neff ^^ R("-1/5"))
  IN  Sum([i \in 1..n |-> (p[i] ** RExp(Neg(Sq((x -- v[i]) // h) // Two))) // (h ** RSqrt(Two ** Pi))])
\* the same in two dimensions (whole covariance), at a point <<x, y>>
Kde2Of(vx, vy, w, adj) ==
  LET n == Len(vx)  tot == Total(w)  p == TLCEval([i \in 1..n |-> w[i] // tot])
      q == Sum([i \in 1..n |-> Sq(p[i])])
      mx == Sum([i \in 1..n |-> p[i] ** vx[i]])  my == Sum([i \in 1..n |-> p[i] ** vy[i]])
      f == (Sq(adj) ** (q ^^ R("1/3"))) // (One -- q)
      xx == f ** Sum([i \in 1..n |-> p[i] ** Sq(vx[i] -- mx)])  yy == f ** Sum([i \in 1..n |-> p[i] ** Sq(vy[i] -- my)])
      xy == f ** Sum([i \in 1..n |-> p[i] ** (vx[i] -- mx) ** (vy[i] -- my)])
  IN  TLCEval([p |-> p, xx |-> xx, yy |-> yy, xy |-> xy, det |-> (xx ** yy) -- Sq(xy), vx |-> vx, vy |-> vy])
Kde2(k, x, y) ==
  Sum([i \in DOMAIN k.p |-> LET dx == x -- k.vx[i]  dy == y -- k.vy[i]
                                q == (((k.yy ** Sq(dx)) -- (Two ** k.xy ** dx ** dy)) ++ (k.xx ** Sq(dy))) // k.det
                            IN  k.p[i] ** RExp(Neg(q // Two))]) // (Two ** Pi ** RSqrt(k.det))
LawPoints_ == {1, 2} \X {"0.6", "1.5", "2.2", "5"}
Law_(q) ==
  LET w == W0(q[1])  x == R(q[2]) IN
  /\ Close(BinW(Fn0, w, R("0.5"), x, FALSE) ++ BinW(Fn0, w, x, R("7"), TRUE), Total(w), R("1e-12"), Zero)
  /\ Close(EcdfBelow(Fn0, w, x) ** Total(w), BinW(Fn0, w, R("0.5"), x, FALSE), R("1e-12"), R("1e-14"))
  /\ Close(Ecdf(Fn0, w, R("7")), One, R("1e-12"), Zero) /\ RLe(Ecdf(Fn0, w, x), One)
  /\ RLt(Zero, Kde(Fn0, w, x, One))
  /\ Close(Sum([k \in 1..400 |-> Kde(Fn0, w, R("-20") ++ (RI(k) ** R("0.12")), One) ** R("0.12")]), One, R("1e-6"), Zero)

Invalid(s) == s \in {"mass_1", "time", "nonsense"}
\* values of a variable from what the collection holds
Value(ev, name, i) ==
  CASE name = "m_1" -> R(ev.m1[i]) [] name = "m_2" -> R(ev.m2[i]) [] name = "ecc" -> R(ev.e[i]) [] name = "dist" -> R(ev.d[i]) [] name = "f_orb" -> R(ev.f[i])
    [] name = "f_GW" -> Two ** R(ev.f[i]) [] name = "snr" -> R(ev.snr[i])
    [] name = "m_c" -> ChirpMass(R(ev.m1[i]), R(ev.m2[i])) [] name = "a" -> KeplerA(R(ev.f[i]), R(ev.m1[i]), R(ev.m2[i]))
\* which sources (in order), when ev.which is a mask over all
Chosen(ev) == SelectSeq([i \in 1..Len(ev.f) |-> i], LAMBDA i : ev.which[i] = 1 /\ (ev.exclude => ev.merged[i] = 0))
Refused(ev) == ev.fn = "source" /\ (Invalid(ev.xvar) \/ Invalid(ev.yvar) \/ ((ev.xvar = "snr" \/ ev.yvar = "snr") /\ ev.snr = <<>>))
T == R("1e-9")
\* data as drawn: in the unit of the axis (scale: SI -> axis), logarithm where the histogram is of the logarithm
Drawn(ev, q) == LET z == R(ev.xscale) IN [k \in DOMAIN q |-> LET v == q[k] ** z IN IF ev.type = "hist" /\ ev.logx THEN RLog10(v) ELSE v]
Hist(ev, v, w) ==
  LET b == ev.bars  nb == Len(b)
      lo(k) == R(b[k][1])  hi(k) == R(b[k][1]) ++ R(b[k][2])  h(k) == R(b[k][3])
      span == hi(nb) -- lo(1)
      slack == span ** R("1e-9")
      width(k) == hi(k) -- lo(k)
      total == IF ev.density THEN Sum([i \in DOMAIN v |-> IF RLe(lo(1) -- slack, v[i]) /\ RLe(v[i], hi(nb) ++ slack) THEN w[i] ELSE Zero]) ELSE One
      scale(k) == IF ev.density THEN h(k) ** width(k) ** total ELSE h(k)
      surely(k) == Sum([i \in DOMAIN v |-> IF RLt(IF k = 1 THEN lo(k) -- slack ELSE lo(k) ++ slack, v[i]) /\ RLt(v[i], IF k = nb THEN hi(k) ++ slack ELSE hi(k) -- slack) THEN w[i] ELSE Zero])
      maybe(k) == Sum([i \in DOMAIN v |-> IF RLt(lo(k) -- slack, v[i]) /\ RLt(v[i], hi(k) ++ slack) THEN w[i] ELSE Zero])
  IN  IF nb = 0 THEN {"bars"}
      ELSE Fails("bars touch", \A k \in 1..(nb - 1) : Close(hi(k), lo(k + 1), R("1e-6"), slack))
           \cup Fails("bin count", ev.nbins = 0 \/ nb = ev.nbins)
           \cup Fails("bin edges", ev.edges = <<>> \/ \A k \in 1..nb : Close(lo(k), R(ev.edges[k]), R("1e-9"), slack) /\ Close(hi(k), R(ev.edges[k + 1]), R("1e-9"), slack))
           \cup Fails("covers", ev.edges # <<>> \/ \A i \in DOMAIN v : RLe(lo(1) -- slack, v[i]) /\ RLe(v[i], hi(nb) ++ slack))
           \cup Fails("heights", REq(total, Zero) \/ \A k \in 1..nb : RLe(surely(k) -- (T ** total) -- T, scale(k)) /\ RLe(scale(k), maybe(k) ++ (T ** total) ++ T))
Line(ev, v, w) ==
  IF ev.type = "ecdf"
  THEN LET n == Len(ev.lx)  all == IF ev.count THEN Total(w) ELSE One  ly(k) == R(ev.ly[k]) // all IN
       IF n # Len(v) + 1 THEN {"selection"}
       ELSE Fails("steps", \A k \in 2..n : /\ RLe(EcdfBelow(v, w, R(ev.lx[k]) ** (One -- T)) -- T, ly(k)) /\ RLe(ly(k), Ecdf(v, w, R(ev.lx[k]) ** (One ++ T)) ++ T)
                                           /\ RLe(ly(k - 1), ly(k))
                                           /\ \E i \in DOMAIN v : Close(v[i], R(ev.lx[k]), T, Zero))
            \cup Fails("from zero to one", Close(ly(1), Zero, T, T) /\ Close(ly(n), One, T, Zero))
  ELSE IF ev.lx = <<>> THEN {"selection"}
  ELSE LET u == IF ev.logx THEN [i \in DOMAIN v |-> RLog10(v[i])] ELSE v IN
       Fails("density", \A k \in DOMAIN ev.lx : Close(R(ev.ly[k]), Kde(u, w, IF ev.logx THEN RLog10(R(ev.lx[k])) ELSE R(ev.lx[k]), R(ev.adjust)), R("1e-6"), R(ev.peak) ** R("1e-8")))
\* every vertex of a contour sits at the contour's density; contours are nested
Contours(ev, vx, vy, w) ==
  LET ux == [i \in DOMAIN vx |-> LET v == vx[i] ** R(ev.xscale) IN IF ev.logx THEN RLog10(v) ELSE v]
      uy == [i \in DOMAIN vy |-> LET v == vy[i] ** R(ev.yscale) IN IF ev.logy THEN RLog10(v) ELSE v]
      k == Kde2Of(ux, uy, w, R(ev.adjust))
      c == ev.contours
      top == MaxV([j \in DOMAIN ux |-> Kde2(k, ux[j], uy[j])])
      wide(u, var) == ((MaxV(u) -- MinV(u)) ++ (RI(6) ** RSqrt(var))) // RI(200)
      \* the contours are interpolated on a 200 x 200 grid: too coarse for a very thin ridge
      coarse == \/ RLt(R("0.08") ** RSqrt(k.det // k.yy), wide(ux, k.xx))
                \/ RLt(R("0.08") ** RSqrt(k.det // k.xx), wide(uy, k.yy))
  IN  IF c = <<>> THEN {"contours"} ELSE IF coarse THEN {}
      ELSE Fails("contours", \A j \in DOMAIN c : LET x == R(c[j][2])  y == R(c[j][3]) IN
                    Close(R(c[j][1]), Kde2(k, IF ev.logx THEN RLog10(x) ELSE x, IF ev.logy THEN RLog10(y) ELSE y), R("0.02"), top ** R("0.002")))
           \cup Fails("contour count", ev.nlevels = ev.wantlevels)
Look(ev) ==
  Fails("colour", ev.colour = "" \/ \A k \in DOMAIN ev.colours : ev.colours[k] = ev.colour)
  \cup Fails("figure size", ev.figsize = <<>> \/ \A k \in 1..2 : Close(R(ev.gotsize[k]), R(ev.figsize[k]), R("1e-9"), Zero))
  \cup Fails("label of the supplied axes", ev.prior = "" \/ ((ev.xl.mode = "given" \/ ev.xl.text = ev.prior) /\ (ev.yl.mode = "given" \/ ev.yl.text = ev.prior)))
Labels(ev) ==
  Fails("x label", CASE ev.xl.mode = "given" -> ev.xl.text = ev.xl.want
                     [] ev.fn # "source" -> TRUE
                     [] OTHER -> ev.xl.names = {ev.xvar} /\ ev.xl.unit = (IF ev.xvar \in {"ecc", "snr"} THEN 0 ELSE 1) /\ ev.xl.log = (IF ev.yvar = "none" /\ ev.type = "hist" /\ ev.logx THEN 1 ELSE 0))
  \cup Fails("y label", CASE ev.yl.mode = "given" -> ev.yl.text = ev.yl.want
                     [] ev.fn # "source" -> TRUE
                     [] ev.yvar = "none" -> ev.yl.density = 1 /\ ev.yl.log = (IF ev.logx THEN 1 ELSE 0) /\ ev.xvar \in ev.yl.symbols
                     [] OTHER -> ev.yl.names = {ev.yvar} /\ ev.yl.unit = (IF ev.yvar \in {"ecc", "snr"} THEN 0 ELSE 1))
Limits(ev) ==
  LET ok(got, want, log) == \A k \in 1..2 : Close(R(got[k]), IF log THEN RLog10(R(want[k])) ELSE R(want[k]), R("1e-9"), Zero) IN
  Fails("x limits", ev.xlim = <<>> \/ ok(ev.gotx, ev.xlim, ev.type = "hist" /\ ev.logx))
  \cup Fails("y limits", ev.ylim = <<>> \/ ok(ev.goty, ev.ylim, FALSE))
Set(ev, q) == [ev EXCEPT !.xl.names = {ev.xl.names[k] : k \in DOMAIN ev.xl.names}, !.yl.names = {ev.yl.names[k] : k \in DOMAIN ev.yl.names}, !.yl.symbols = {ev.yl.symbols[k] : k \in DOMAIN ev.yl.symbols}]
Judge_(e0) ==
  LET kept == Fails("plotting configuration changed", e0.rc = 1) \cup Fails("arguments changed", e0.kept = 1)
              \cup Fails("a figure or axes supplied alone was used", e0.spare = 1) IN
  IF Refused(e0) THEN kept \cup Fails("accepted", IsErr(e0.out, "ValueError")) \cup Fails("plotted", e0.newfigs = 0)
  ELSE IF e0.fail # "no" THEN kept \cup Fails("accepted", ~e0.out.ok)
  ELSE IF ~e0.out.ok THEN {"raises"}
  ELSE LET ev == Set(e0, 0)
           ch == Chosen(ev)
           vx == IF ev.fn = "source" THEN [k \in DOMAIN ch |-> Value(ev, ev.xvar, ch[k])] ELSE RV(ev.vx)
           vy == IF ev.yvar = "none" THEN <<>> ELSE IF ev.fn = "source" THEN [k \in DOMAIN ch |-> Value(ev, ev.yvar, ch[k])] ELSE RV(ev.vy)
           w == IF ev.w = <<>> THEN [k \in DOMAIN vx |-> One] ELSE IF ev.fn = "source" THEN [k \in DOMAIN ch |-> R(ev.w[ch[k]])] ELSE RV(ev.w)
       IN  kept \cup Labels(ev) \cup Limits(ev) \cup Look(ev)
           \cup Fails("figure", IF ev.own THEN ev.newfigs = 1 ELSE ev.same = 1 /\ ev.newfigs = 0)
           \cup Fails("shown", ev.shows = (IF ev.show THEN 1 ELSE 0))
           \cup (CASE ev.type = "hist" -> Hist(ev, Drawn(ev, vx), w)
                   [] ev.yvar = "none" -> Line(ev, Drawn(ev, vx), w)
                   [] ev.type = "scatter" ->
                        IF Len(ev.px) # Len(vx) THEN {"selection"}
                        ELSE Fails("points", \A k \in DOMAIN vx : Close(R(ev.px[k]), vx[k], T, Zero) /\ Close(R(ev.py[k]), vy[k], T, Zero))
                             \cup Fails("sizes", IF ev.w = <<>> THEN \A k \in DOMAIN ev.size : Close(R(ev.size[k]), R(ev.s), T, Zero)
                                                 ELSE Len(ev.size) = Len(w) /\ \A k \in DOMAIN w : Close(R(ev.size[k]), R(ev.s) ** w[k], T, Zero))
                             \cup Fails("scales", ev.scales = <<IF ev.logx THEN "log" ELSE "linear", IF ev.logy THEN "log" ELSE "linear">>)
                   [] OTHER -> Contours(ev, vx, vy, w) \cup Fails("scales", ev.scales = <<IF ev.logx THEN "log" ELSE "linear", IF ev.logy THEN "log" ELSE "linear">>))
=============================================================================
