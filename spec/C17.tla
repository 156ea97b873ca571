-------------------------------- MODULE C17 --------------------------------
(* Strain amplitudes of every source, time step and harmonic (strain.py and   *)
(* the strain methods of a collection).                                       *)
EXTENDS Physics, CheckCore

Dims_ == [ fn |-> <<"h_0_n", "h_c_n", "h_0_n", "h_c_n", "get_h_0_n", "get_h_c_n", "reject">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           src |-> <<"scalar", "one", "few", "few", "several">>,
           steps |-> <<"flat", "flat", "one", "many">>,
           harm |-> <<"int", "npint", "list", "array", "array32", "one-array", "unordered">>,
           hmax |-> <<"low", "mid", "high">>,
           ecc |-> <<"zero", "low", "mid", "high", "mixed">>,
           g |-> <<"exact", "exact", "table">>,
           pos |-> <<"none", "none", "given">>,
           mass |-> <<"Msun", "kg">>,
           dist |-> <<"kpc", "Mpc", "m">>,
           freq |-> <<"Hz", "mHz">>,
           which |-> <<"omit", "omit", "mask", "none-of-them", "one-of-them">>,
           merged |-> <<"no", "no", "some">> ]
ValidCase_(c) == TRUE

\* laws: circular strain only at n = 2, h ~ 1/D, hc^2 = (fn^2/fn_dot) h0^2, half the averaged response for zero modulation
LawPoints_ == {"0.6", "20", "900"} \X {"1e-4", "7e-3"} \X {"0", "0.3", "0.8"} \X (1..7)
Law_(p) ==
  LET mc == R(p[1]) ** Msun  f == R(p[2])  e == R(p[3])  n == p[4]  d == R("3e20")
      h == H0(mc, f, e, n, d)  hc == Hc(mc, f, e, n, d)
      near(x, y) == Close(x, y, R("1e-10"), R("1e-40"))
  IN  /\ near(H0(mc, f, e, n, Two ** d), Half ** h)
      /\ near(Sq(hc), (Sq(RI(n) ** f) // FnDot(mc, f, e, n)) ** Sq(h))
      /\ (p[3] = "0" /\ n # 2) => REq(h, Zero)

ChirpOr(ev, i) == IF Len(ev.mc[i]) = 1 THEN R(ev.mc[i][1]) ELSE ChirpMass(R(ev.mc[i][1]), R(ev.mc[i][2]))
Entry(ev, i, j, k) ==
  LET e == ev.e[i][j]  n == ev.n[k]  f == ev.f[i][j]
      er == R(e)  fr == R(f)  mc == ChirpOr(ev, i)  d == R(ev.d[i])
      g == IF ev.g = "exact" THEN PetersG(n, er) ELSE UserG(n, er)
      mod == IF ev.sky = <<>> THEN One ELSE RSqrt(Modulation(R(ev.sky[i][1]), R(ev.sky[i][2]), R(ev.sky[i][3]), R(ev.sky[i][4])))
  IN  mod ** (IF ev.kind = "h0" THEN H0g(mc, fr, n, d, g) ELSE Hcg(mc, fr, er, n, d, g))

Judge_(ev) ==
  IF \E k \in 1..Len(ev.n) : ev.n[k] < 1 THEN Fails("harmonic below one accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE IF ev.fn \in {"get_h_0_n", "get_h_c_n"}
  THEN \* rows of the requested sources only, in order; merged sources are silent
       LET rows == SelectSeq([i \in 1..Len(ev.mc) |-> i], LAMBDA i : ev.which[i] = 1)
           nh == Len(ev.n)
       IN  IF ev.out.shape # <<Len(rows), nh>> THEN {"shape"}
           ELSE LET v == Vals(ev.out)
                IN  Fails("value", \A q \in 1..Len(rows) : \A k \in 1..nh :
                      LET x == v[((q - 1) * nh) + k]
                      IN  IF ev.merged[rows[q]] = 1 THEN REq(x, Zero) ELSE Close(x, Entry(ev, rows[q], 1, k), R("1e-7"), R("1e-38")))
                    \cup Fails("source changed", ev.kept = 1)
  ELSE LET ns == Len(ev.mc)  ny == Len(ev.f[1])  nh == Len(ev.n)
       IN  IF ev.out.shape # <<ns, ny, nh>> THEN {"shape"}
           ELSE LET v == Vals(ev.out)
                IN  Fails("value", \A i \in 1..ns : \A j \in 1..ny : \A k \in 1..nh :
                      Close(v[((i - 1) * ny * nh) + ((j - 1) * nh) + k], Entry(ev, i, j, k), R("1e-7"), R("1e-38")))
                    \cup Fails("unit", ev.out.kind = "f")
                    \cup Fails("arguments changed", ev.kept = 1)
=============================================================================
