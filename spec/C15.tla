-------------------------------- MODULE C15 --------------------------------
(* Mass and orbit conversions (utils.py).                                     *)
EXTENDS Physics, CheckCore

Dims_ == [ fn |-> <<"chirp_mass", "get_a_from_f_orb", "get_f_orb_from_a", "beta", "c_0", "get_a_from_ecc", "chirp_mass", "roundtrip_f", "roundtrip_a", "roundtrip_c0">>,
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           shape |-> <<"scalar", "one", "vec", "vec", "mat", "cube", "bcast", "empty">>,
           mass |-> <<"Msun", "kg", "g", "earthMass", "none">>,
           length |-> <<"AU", "m", "R_sun", "km", "pc", "none">>,
           freq |-> <<"Hz", "mHz", "1/yr", "1/day">>,
           range |-> <<"stellar", "massive", "extreme-ratio", "equal">>,
           ecc |-> <<"mid", "tiny", "high", "mixed">> ]
\* plain numbers are documented for the chirp mass and c_0 only
ValidCase_(c) ==
  /\ c.mass = "none" => c.fn \in {"chirp_mass", "c_0", "roundtrip_c0", "get_a_from_ecc"}
  /\ c.length = "none" => c.fn \in {"chirp_mass", "c_0", "roundtrip_c0", "get_a_from_ecc", "beta", "get_a_from_f_orb"}

TwoBody(f, m1, m2) == (G ** (m1 ++ m2)) // Sq(Two ** Pi ** f)

(* the laws: the formulae of the specification invert one another and are symmetric *)
LawPoints_ == {"1", "3", "17", "260"} \X {"1", "4", "190"} \X {"1e-5", "3e-3", "0.7"} \X {"0.0001", "0.2", "0.95"}
Law_(p) ==
  LET m1 == R(p[1]) ** Msun  m2 == R(p[2]) ** Msun  f == R(p[3])  e == R(p[4])
      a == KeplerA(f, m1, m2)
      near(x, y) == Close(x, y, R("1e-11"), Zero)
  IN  /\ near(KeplerF(a, m1, m2), f)
      /\ near(ChirpMass(m1, m2), ChirpMass(m2, m1)) /\ near(Beta(m1, m2), Beta(m2, m1))
      /\ near(AFromEcc(e, C0(a, e)), a)
      /\ RLe(ChirpMass(m1, m2), RSqrt(m1 ** m2))
      /\ near(TwoBody(f, m1, m2), PowI(a, 3))

UnitOf(fn, plain) ==
  IF plain THEN "none"
  ELSE CASE fn = "chirp_mass" -> "Msun" [] fn = "get_a_from_f_orb" -> "AU" [] fn = "get_f_orb_from_a" -> "Hz"
         [] fn = "beta" -> "m4/s" [] fn = "c_0" -> "AU" [] fn = "get_a_from_ecc" -> "AU"
         [] fn = "roundtrip_f" -> "Hz" [] fn = "roundtrip_a" -> "AU" [] fn = "roundtrip_c0" -> "AU"
Formula(fn, x) ==
  CASE fn = "chirp_mass" -> ChirpMass(x[1], x[2])
    [] fn = "get_a_from_f_orb" -> KeplerA(x[1], x[2], x[3])
    [] fn = "get_f_orb_from_a" -> KeplerF(x[1], x[2], x[3])
    [] fn = "beta" -> Beta(x[1], x[2])
    [] fn = "c_0" -> C0(x[1], x[2])
    [] fn = "get_a_from_ecc" -> AFromEcc(x[1], x[2])
    [] fn \in {"roundtrip_f", "roundtrip_a", "roundtrip_c0"} -> x[1]
Judge_(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE LET in == [k \in 1..Len(ev.in) |-> RV(ev.in[k])]
           n == Len(ev.out.v)
       IN  Fails("shape", ev.out.shape = ev.shape /\ (\A k \in 1..Len(ev.in) : Len(ev.in[k]) = n))
           \cup Fails("unit", ev.out.unit = UnitOf(ev.fn, ev.plain))
           \cup Fails("arguments changed", ev.kept = 1)
           \cup (IF \E k \in 1..Len(ev.in) : Len(ev.in[k]) # n THEN {}
                 ELSE Fails("value", LET v == Vals(ev.out) IN \A i \in 1..n : Close(v[i], Formula(ev.fn, [k \in 1..Len(in) |-> in[k][i]]), Rtol, Zero)))
=============================================================================
