-------------------------------- MODULE C25 --------------------------------
(* Sources over the sensitivity curve (visualisation.plot_sensitivity_curve,  *)
(* visualisation.plot_sources_on_sc, Source.plot_sources_on_sc): what is      *)
(* drawn, what is announced, what stays as it was.                            *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"source", "source", "source", "source", "direct", "direct", "curve", "curve">>,
           src |-> <<"one", "few", "several", "several">>,
           ecc |-> <<"zero", "mixed", "mixed", "high">>,
           pace |-> <<"slow", "mixed", "mixed", "fast">>,
           snr |-> <<"real", "assigned", "assigned", "assigned", "none">>,
           merged |-> <<"no", "no", "some", "all">>,
           weights |-> <<"no", "yes">>,
           cutoff |-> <<"omit", "omit", "mid", "mid", "low", "huge">>,
           axes |-> <<"own", "own", "own", "bare", "curve", "logged">>,
           half |-> <<"no", "no", "yes">>,
           y |-> <<"omit", "ASD", "h_c", "h_c">>,
           inst |-> <<"omit", "LISA", "TianQin", "DECIGO", "custom">>,
           t |-> <<"omit", "auto", "given">>,
           L |-> <<"omit", "auto", "given">>,
           approx |-> <<"omit", "yes", "no">>,
           noise |-> <<"omit", "auto", "none", "robson19", "huang20", "cnA">>,
           range |-> <<"omit", "omit", "given", "given">>,
           fill |-> <<"omit", "no">>,
           look |-> <<"default", "default", "given">>,
           show |-> <<"omit", "yes", "no", "no">>,
           fail |-> <<"no", "no", "no", "no", "no", "no", "keyword", "quantity">>,
           pre |-> <<"none", "none", "settings", "index">>,
           tol |-> <<"omit", "omit", "given">>,
           funit |-> <<"Hz", "mHz", "1/yr">> ]
ValidCase_(c) == TRUE

(* laws of the noise curve as drawn: the two quantities differ by the square root of the frequency; a source of SNR 1 lies on the curve *)
LawPoints_ == {"LISA", "TianQin", "DECIGO"} \X {"0.0012", "0.004", "0.1"} \X {"1", "7", "3000"}
Set0(inst) == [instrument |-> inst, psd |-> "none", t |-> "auto", L |-> "auto", approx |-> FALSE, noise |-> "auto"]
Curve(f, p, y) == IF y = "h_c" THEN RSqrt(f ** Psd(f, p)) ELSE RSqrt(Psd(f, p))
Height(f, p, y, snr) == snr ** Curve(f, p, y)
Law_(q) ==
  LET f == R(q[2])  p == Set0(q[1]) IN
  /\ Close(Curve(f, p, "h_c"), Curve(f, p, "ASD") ** RSqrt(f), R("1e-12"), Zero)
  /\ Close(Height(f, p, "ASD", R(q[3])) // Curve(f, p, "ASD"), R(q[3]), R("1e-12"), Zero)
  /\ RLe(Curve(f, p, "ASD"), Height(f, p, "ASD", R(q[3])))

TolP(p) == IF p.instrument = "LISA" /\ ~p.approx THEN R("1e-6") ELSE R("1e-8")
CurveOk(ev, c) ==       \* c: sampled points of a drawn line
  LET n == c.n IN
  IF c.n # ev.range.n THEN FALSE
  ELSE \A k \in DOMAIN c.at :
    LET x == R(c.x[k])
        want == IF ev.range.given THEN R(ev.range.x[k]) ELSE R("10") ^^ (R("-5") ++ ((RI(5) ** RI(c.at[k])) // RI(999)))
        v == Curve(x, ev.p, ev.y)
    IN  Close(x, want, R("1e-9"), Zero) /\ (IF IsFinite(v) THEN Close(R(c.y[k]), v, TolP(ev.p), Zero) ELSE ~IsFinite(R(c.y[k])))
Common(ev) ==
  Fails("a figure or axes supplied alone was used", ev.spare = 1) \cup
  Fails("plotting configuration changed", ev.rc = 1)
  \cup Fails("arguments changed", ev.kept = 1)
Shows(ev) == Fails("shown", ev.shows = (IF ev.show THEN 1 ELSE 0))
\* the axes hold a curve when they are new; nothing but the points is added to those supplied
\* the curve looks as asked for
CurveLook(ev) ==
  LET w == ev.look  g == ev.got IN
  Fails("colour", w.color = "" \/ ((\A k \in DOMAIN g.color : g.color[k] = w.color) /\ (\A k \in DOMAIN g.fillcolor : g.fillcolor[k] = w.color)))
  \cup Fails("line width", w.linewidth = "0" \/ \A k \in DOMAIN g.linewidth : Close(R(g.linewidth[k]), R(w.linewidth), R("1e-9"), Zero))
  \cup Fails("opacity", w.alpha = "0" \/ \A k \in DOMAIN g.alpha : Close(R(g.alpha[k]), R(w.alpha), R("1e-9"), Zero))
  \cup Fails("curve label", w.label = "" \/ \A k \in DOMAIN g.label : g.label[k] = w.label)
  \cup Fails("figure size", w.figsize = <<>> \/ ~ev.own \/ \A k \in 1..2 : Close(R(g.figsize[k]), R(w.figsize[k]), R("1e-9"), Zero))
  \cup Fails("axis labels", g.xlabel # "" /\ g.ylabel # "" /\ g.xlabel # g.ylabel)
CurvePart(ev) ==
  IF ev.own THEN IF Len(ev.lines) # 1 THEN {"curve drawn"}
                 ELSE CurveLook(ev) \cup Fails("curve", CurveOk(ev, ev.lines[1])) \cup Fails("fill", ev.fills = (IF ev.fill THEN 1 ELSE 0))
                      \cup Fails("frequency limits", Close(R(ev.xlim[1]), R(ev.range.lo), R("1e-9"), Zero) /\ Close(R(ev.xlim[2]), R(ev.range.hi), R("1e-9"), Zero))
                      \cup Fails("one new figure", ev.newfigs = 1)
  ELSE Fails("supplied axes", ev.same = 1 /\ ev.newfigs = 0) \cup Fails("vertical limits", ev.ylim = 1) \cup Fails("added to supplied axes", Len(ev.lines) = 0 /\ ev.fills = 0)
Stat(ev, i) == Stationary(R(ev.f[i]), ChirpMass(R(ev.m1[i]), R(ev.m2[i])), EffT(ev.p), R(ev.e[i]), R(ev.stol))
Points(ev, sel) ==
  LET n == Len(sel) IN
  IF Len(ev.px) # n THEN {"selection"}
  ELSE LET fd(k) == R(ev.f[sel[k]]) ** R(ev.msh[sel[k]]) IN
       Fails("frequency", \A k \in 1..n : Close(R(ev.px[k]), fd(k), R("1e-9"), Zero))
       \cup Fails("height", \A k \in 1..n : Close(R(ev.py[k]), Height(fd(k), ev.p, ev.y, R(ev.snr[sel[k]])), TolP(ev.p), Zero))
       \cup Fails("size", IF ev.w = <<>> THEN n = 0 \/ (Len(ev.size) = 1 /\ Close(R(ev.size[1]), R(ev.s), R("1e-9"), Zero)) \/ (Len(ev.size) = n /\ \A k \in 1..n : Close(R(ev.size[k]), R(ev.s), R("1e-9"), Zero))
                          ELSE Len(ev.size) = n /\ \A k \in 1..n : Close(R(ev.size[k]), R(ev.s) ** R(ev.w[sel[k]]), R("1e-9"), Zero))
       \cup Fails("colour of the points", ev.look.points = "" \/ n = 0 \/ ev.got.points = <<ev.look.points>>)
       \cup Fails("label", n = 0 \/ ev.label = ev.wantlabel)
Sel(ev, P(_)) == SelectSeq([i \in 1..Len(ev.f) |-> i], P)
Card(ev, P(_)) == Len(Sel(ev, P))
Judge_(ev) ==
  IF ev.fail = "quantity" /\ ev.reaches THEN Common(ev) \cup Fails("accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ev.fail = "keyword" /\ ev.reaches THEN Common(ev) \cup Fails("accepted", ~ev.out.ok)
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE CASE ev.fn = "curve" ->
         Common(ev) \cup Shows(ev)
         \cup (IF Len(ev.lines) # 1 THEN {"curve drawn"}
               ELSE CurveLook(ev) \cup Fails("curve", CurveOk(ev, ev.lines[1])) \cup Fails("fill", ev.fills = (IF ev.fill THEN 1 ELSE 0))
                    \cup Fails("frequency limits", Close(R(ev.xlim[1]), R(ev.range.lo), R("1e-9"), Zero) /\ Close(R(ev.xlim[2]), R(ev.range.hi), R("1e-9"), Zero)))
         \cup Fails("figure", IF ev.own THEN ev.newfigs = 1 ELSE ev.same = 1 /\ ev.newfigs = 0)
         \cup Fails("no points", ev.px = <<>>) \cup Fails("silent", ev.msgs = <<>>)
    [] ev.fn = "direct" ->
         LET sel == Sel(ev, LAMBDA i : RLt(R(ev.cutoff), R(ev.snr[i]))) IN
         Common(ev) \cup CurvePart(ev) \cup Points(ev, sel)
         \cup (IF sel = <<>> THEN Fails("error message", Len(ev.msgs) = 1 /\ ev.msgs[1].level = "ERROR") \cup Fails("shown", ev.shows = 0)
               ELSE Shows(ev) \cup Fails("silent", ev.msgs = <<>>))
    [] ev.fn = "source" ->
         IF ev.snr = <<>> THEN Common(ev) \cup Fails("error message", Len(ev.msgs) = 1 /\ ev.msgs[1].level = "ERROR")
                               \cup Fails("drawn without SNR", ev.px = <<>> /\ ev.lines = <<>> /\ ev.newfigs = 0) \cup Fails("returned", ev.same = 2) \cup Fails("shown", ev.shows = 0)
         ELSE LET det(i) == RLt(R(ev.cutoff), R(ev.snr[i])) /\ ev.merged[i] = 0
                  st == TLCEval([i \in 1..Len(ev.f) |-> Stat(ev, i)])
                  sel == Sel(ev, LAMBDA i : det(i) /\ st[i])
                  ce == Card(ev, LAMBDA i : det(i) /\ ~st[i] /\ RLe(R(ev.e[i]), R(ev.et)))
                  ee == Card(ev, LAMBDA i : det(i) /\ ~st[i] /\ RLt(R(ev.et), R(ev.e[i])))
                  want == (IF ce > 0 THEN {<<"WARNING", ce, 1, 0>>} ELSE {}) \cup (IF ee > 0 THEN {<<"WARNING", ee, 0, 1>>} ELSE {})
                  got == {<<ev.msgs[k].level, ev.msgs[k].number, ev.msgs[k].circ, ev.msgs[k].ecc>> : k \in DOMAIN ev.msgs}
              IN  Common(ev)
                  \cup Fails("announcements", got = want /\ Len(ev.msgs) = Cardinality(want))
                  \cup (IF sel = <<>> THEN Fails("selection", ev.px = <<>>) \cup Fails("returned", (ev.own /\ ~ev.half) => ev.same = 2) \cup Fails("vertical limits", ev.ylim = 1) \cup Fails("shown", ev.shows = 0)
                        ELSE CurvePart(ev) \cup Points(ev, sel) \cup Shows(ev))
=============================================================================
