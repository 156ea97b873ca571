-------------------------------- MODULE C26 --------------------------------
(* Construction of a collection (Source.__init__, utils.ensure_array): which  *)
(* combinations of arguments are refused and with what, and the normal form   *)
(* of those that are accepted.                                                *)
EXTENDS Sky, CheckCore

Styles == <<"array", "array", "list", "scalar">>
Dims_ == [ fn |-> <<"new", "new", "new", "new", "new", "new", "ensure">>,
           cls |-> <<"Source", "Source", "Stationary", "Evolving">>,
           n |-> <<"one", "few", "few", "many">>,
           \* style of each argument: numpy array, list, or scalar (only for one source)
           s1 |-> Styles, s2 |-> Styles, s3 |-> Styles, s4 |-> Styles, s5 |-> Styles, s6 |-> Styles, s7 |-> Styles, s8 |-> Styles,
           orbit |-> <<"f", "f", "a", "both">>,
           ecc |-> <<"zero", "zero", "some", "some", "last", "int">>,
           weights |-> <<"none", "given", "int">>,
           frame |-> <<"none", "none", "icrs", "galactic", "barycentrictrueecliptic", "fk5", "barycentricmeanecliptic">>,
           pol |-> <<"none", "given">>,
           inc |-> <<"none", "given">>,
           \* what is wrong with the call (most have nothing wrong besides what the choices above imply)
           wrong |-> <<"none", "none", "none", "orbit", "angle", "short", "long", "onlyone", "unitless", "unitless">>,
           arg |-> <<"m_1", "m_2", "dist", "f_orb", "a", "ecc", "weights", "inclination", "polarisation", "position">>,
           munit |-> <<"Msun", "kg", "Mjup">>,
           funit |-> <<"Hz", "mHz", "1/yr">>,
           dunit |-> <<"kpc", "Mpc", "pc">>,
           aunit |-> <<"rad", "deg">>,
           opts |-> <<"default", "given">> ]
ValidCase_(c) == TRUE

(* laws of the acceptance rule, over abstract calls *)
Lens == {0, 1, 2, 3}       \* 0: absent
\* a call: lengths of the per-source arguments (0: absent), presence of f and a, whether there is any eccentricity, which of them lack units
Refusal(k) ==
  IF ~k.f /\ ~k.a THEN {"ValueError"}
  ELSE IF ~k.pos /\ (k.inc \/ k.pol) THEN {"ValueError"}
  ELSE IF k.pos /\ k.eccentric THEN {"ValueError"}
  ELSE (IF k.unitless THEN {"AssertionError"} ELSE {}) \cup (IF k.differ THEN {"ValueError"} ELSE {})
LawPoints_ == [f : BOOLEAN, a : BOOLEAN, pos : BOOLEAN, inc : BOOLEAN, pol : BOOLEAN, eccentric : BOOLEAN, unitless : BOOLEAN, differ : BOOLEAN]
Law_(k) ==
  /\ (Refusal(k) = {} <=> (k.f \/ k.a) /\ (k.pos \/ (~k.inc /\ ~k.pol)) /\ ~(k.pos /\ k.eccentric) /\ ~k.unitless /\ ~k.differ)
  /\ Refusal(k) \subseteq {"ValueError", "AssertionError"}
  /\ (~k.unitless => "AssertionError" \notin Refusal(k))

T12 == R("1e-12")
Same(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : v[i] = w[i]
Given(ev, name) == ev.args[name]
Near(v, w, tol) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Close(R(v[i]), R(w[i]), tol, Zero)
AllIn(v, lo, hi) == \A i \in DOMAIN v : IsFinite(R(v[i])) /\ RLe(lo, R(v[i])) /\ RLe(R(v[i]), hi)
New(ev) ==
  LET ref == Refusal(ev.call)  g == ev.args  o == ev.obj  n == ev.n IN
  IF ref # {} THEN (IF ev.out.ok THEN {"accepted"} ELSE Fails("kind of error", ev.out.err \in ref))
  ELSE IF ~ev.out.ok THEN {"refused"}
  ELSE Fails("arguments changed", ev.kept = 1)
       \cup Fails("source count", o.n = n /\ o.len = n)
       \cup (IF \E k \in {"m_1", "m_2", "dist", "f_orb", "ecc"} : o[k].shape # <<n>> THEN {"shape"}
             ELSE UNION {Fails(k, Same(o[k].v, g[k].v) /\ o[k].unit = g[k].unit) : k \in {"m_1", "m_2", "dist", "ecc"}}
                  \cup Fails("f_orb", IF ev.call.f THEN Same(o.f_orb.v, g.f_orb.v) /\ o.f_orb.unit = g.f_orb.unit
                                      ELSE \A i \in 1..n : Close(R(o.f_orb.v[i]), KeplerF(R(g.a.v[IF Len(g.a.v) = 1 THEN 1 ELSE i]), R(g.m_1.v[i]), R(g.m_2.v[i])), R("1e-10"), Zero))
                  \cup Fails("weights", IF g.weights.v = <<>> THEN o.weights.v = <<"none">> ELSE o.weights.shape = <<n>> /\ Same(o.weights.v, g.weights.v)))
       \cup Fails("random angles repeated", ev.drawn)
       \cup (IF ~ev.call.pos THEN Fails("no position", o.position = "none" /\ o.inclination.v = <<"none">> /\ o.polarisation.v = <<"none">>)
             ELSE Fails("frame", o.position = "barycentrictrueecliptic")
                  \cup (IF Len(o.lon) # n \/ Len(o.lat) # n \/ o.inclination.shape # <<n>> \/ o.polarisation.shape # <<n>> THEN {"sky alignment"}
                        ELSE Fails("direction", /\ \A i \in 1..n : RLe(R(ev.sep[i]), R("1e-9"))
                                                /\ \A i \in 1..n : LET q == ev.given[IF Len(ev.given) = 1 THEN 1 ELSE i]
                                                                   IN  RLe(Apart(Vec(R(o.lon[i]), R(o.lat[i])), ToEcl(ev.from, Vec(R(q[1]), R(q[2])))), R("3e-4")))
                             \cup (IF ev.call.inc THEN Fails("inclination", Same(o.inclination.v, g.inclination.v) /\ o.inclination.unit = g.inclination.unit)
                                   ELSE Fails("random inclination", AllIn(o.inclination.v, Zero, (Pi // Two) ++ T12) /\ (n > 1 => \E i \in 2..n : o.inclination.v[i] # o.inclination.v[1])))
                             \cup (IF ev.call.pol THEN Fails("polarisation", Same(o.polarisation.v, g.polarisation.v) /\ o.polarisation.unit = g.polarisation.unit)
                                   ELSE Fails("random polarisation", AllIn(o.polarisation.v, Zero, Pi ++ T12) /\ (n > 1 => \E i \in 2..n : o.polarisation.v[i] # o.polarisation.v[1])))
                             \cup Fails("angles have units", o.inclination.unit \in {"rad", "deg"} /\ o.polarisation.unit \in {"rad", "deg"})))
       \cup Fails("nothing computed yet", o.merged = [i \in 1..n |-> 0] /\ o.snr = "none" /\ o.t_merge = "none" /\ o.msh = "none")
       \cup Fails("options", o.opts = ev.opts)
\* ensure_array: arguments in order, one dimension each, None kept, whether any was neither a list, an array nor None
Ensure(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE Fails("count", Len(ev.res) = Len(ev.given))
       \cup (IF Len(ev.res) # Len(ev.given) THEN {}
             ELSE Fails("value", \A i \in DOMAIN ev.res : LET x == ev.given[i]  y == ev.res[i]
                                                          IN  IF x.style = "none" THEN y.v = <<"none">> ELSE y.v = x.v /\ y.shape = <<Len(x.v)>> /\ y.unit = x.unit))
       \cup Fails("flag", ev.flag = (\E i \in DOMAIN ev.given : ev.given[i].style = "scalar"))
       \cup Fails("arguments changed", ev.kept = 1)
Judge_(ev) == IF ev.fn = "ensure" THEN Ensure(ev) ELSE New(ev)
=============================================================================
