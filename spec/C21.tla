-------------------------------- MODULE C21 --------------------------------
(* Stationary/evolving and circular/eccentric classification                 *)
(* (evol.determine_stationarity, evol.evolve_f_orb_circ, Source.get_source_mask). *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"freq", "freq", "stat", "stat", "mask", "mask", "mask", "reject">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           src |-> <<"one", "few", "few", "several">>,
           ecc |-> <<"zero", "low", "mid", "high", "mixed", "mixed">>,
           horizon |-> <<"none", "tiny", "part", "part", "near", "beyond", "mixed", "mixed">>,
           time |-> <<"one", "one", "each">>,
           eccarg |-> <<"array", "array", "omit", "scalar">>,
           mergef |-> <<"omit", "omit", "given">>,
           mass |-> <<"mc", "mc", "m", "both">>,
           tol |-> <<"omit", "omit", "given", "edge", "zero", "huge">>,
           cls |-> <<"Source", "Source", "Source", "Stationary", "Evolving">>,
           inst |-> <<"LISA", "TianQin", "DECIGO", "custom">>,
           st |-> <<"auto", "omit", "given">>,          \* observation time among the settings
           t |-> <<"omit", "omit", "given", "auto">>,   \* observation time of the question
           pre |-> <<"none", "none", "update", "evolve", "index", "lum", "freq">>,
           sel |-> <<"all", "all", "invalid">>,
           munit |-> <<"Msun", "kg">>,
           funit |-> <<"Hz", "mHz", "1/yr">>,
           tunit |-> <<"yr", "s", "Myr">> ]
ValidCase_(c) == (c.fn \in {"freq", "reject"} => c.tol = "omit") /\ (c.fn = "mask" => c.horizon # "none")

DefaultStatTol == R("1e-2")
(* laws: the chirp starts at f, is the circular Peters evolution for e = 0, grows with time, eccentricity and mass, and reaches the merger at t_c(e)/F *)
LawPoints_ == {"0", "0.2", "0.7"} \X {"0.0001", "0.2", "0.9", "0.999"} \X {"0.3", "30"} \X {"1e-5", "1e-2"}
Law_(p) ==
  LET e == R(p[1])  mc == R(p[3]) ** Msun  f == R(p[4])
      m == mc ** (Two ^^ R("1/5"))                     \* equal masses of that chirp mass
      a == KeplerA(f, m, m)  b == Beta(m, m)
      life == TCirc(b, a) // PetersF(e)
      t == R(p[2]) ** life
      g == ChirpF(f, mc, t, e, R("7"))
  IN  /\ Close(ChirpF(f, mc, Zero, e, R("7")), f, R("1e-12"), Zero)
      /\ RLt(f, g)
      /\ Close(g, FCircAt(a, b, m, m, t ** PetersF(e)), R("1e-8"), Zero)
      /\ REq(ChirpF(f, mc, life ** R("1.001"), e, R("7")), R("7"))
      /\ RLt(FracChange(f, mc, t, e), FracChange(f, mc, t ** R("1.0005"), e))
      /\ RLt(FracChange(f, mc, t, e), FracChange(f, mc, t, e ++ R("0.0001")) ++ R("1e-13"))
      /\ (Stationary(f, mc, t, e, R("0.01")) => Stationary(f, mc, t, e, R("0.02")))
      /\ ~Stationary(f, mc, life ** R("1.001"), e, R("1e3"))          \* a merger is never stationary

At(s, i) == R(s[IF Len(s) = 1 THEN 1 ELSE i])
McOf(ev, i) == IF ev.mc = <<>> THEN ChirpMass(R(ev.m1[i]), R(ev.m2[i])) ELSE R(ev.mc[i])
TimeOf(ev, i) == IF ev.t = <<"auto">> THEN AutoT(ev.inst) ELSE At(ev.t, i)
FreqOk(v, f, mc, t, e, mf) ==
  LET l == Left(f, mc, t, e)  good == Close(v, f ** (l ^^ R("-3/8")), R("1e-9") ++ (R("1e-12") // l), Zero)
  IN  IF RLe(Eps, l) THEN good ELSE IF RLe(l, Neg(Eps)) THEN Close(v, mf, R("1e-12"), Zero) ELSE TRUE
Judge_(ev) ==
  IF ev.fn = "reject" THEN Fails("accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET n == Len(ev.f) IN
  CASE ev.fn = "freq" ->
         IF ev.out.shape # <<n>> THEN {"shape"}
         ELSE LET v == Vals(ev.out)
              IN  Fails("value", \A i \in 1..n : FreqOk(v[i], R(ev.f[i]), McOf(ev, i), TimeOf(ev, i), At(ev.e, i), R(ev.mergef)))
                  \cup Fails("unit", ev.out.kind = "q") \cup Fails("arguments changed", ev.kept = 1)
    [] ev.fn = "stat" ->
         IF ev.out.shape # <<n>> \/ ev.out.kind # "b" THEN {"shape"}
         ELSE Fails("value", \A i \in 1..n : StatOk(ev.out.v[i], R(ev.f[i]), McOf(ev, i), TimeOf(ev, i), At(ev.e, i), IF ev.tol = "" THEN DefaultStatTol ELSE R(ev.tol)))
              \cup Fails("arguments changed", ev.kept = 1)
    [] ev.fn = "mask" ->
         LET p == ev.out.parts
             tol == IF ev.tol = "" THEN DefaultStatTol ELSE R(ev.tol)
             V(k) == p[k].v
         IN  IF \E k \in 1..9 : p[k].shape # <<n>> \/ p[k].kind # "b" THEN {"shape"}
             \* parts: (any, circular, eccentric) x (any, stationary, evolving)
             ELSE Fails("unrestricted", \A i \in 1..n : V(1)[i] = 1)
                  \cup Fails("circular", \A i \in 1..n : /\ (V(4)[i] = 1 <=> RLe(R(ev.e[i]), R(ev.et))) /\ (V(7)[i] = 1 <=> V(4)[i] = 0))
                  \cup Fails("stationary", \A i \in 1..n : /\ StatOk(V(2)[i], R(ev.f[i]), McOf(ev, i), TimeOf(ev, i), R(ev.e[i]), tol) /\ (V(3)[i] = 1 <=> V(2)[i] = 0))
                  \cup Fails("conjunction", \A i \in 1..n : \A c \in 1..2, s \in 1..2 : V((3 * c) + 1 + s)[i] = V((3 * c) + 1)[i] * V(1 + s)[i])
                  \cup Fails("partition", \A i \in 1..n : V(5)[i] + V(6)[i] + V(8)[i] + V(9)[i] = 1)
                  \cup Fails("source changed", ev.kept = 1)
=============================================================================
