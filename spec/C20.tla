-------------------------------- MODULE C20 --------------------------------
(* Eccentric evolution: Peters' de/dt as a time identity, a(e) along the orbit. *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"evol", "evol", "evol", "evol", "evol", "evol", "rate", "reject">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           src |-> <<"scalar", "one", "few", "several">>,
           ecc |-> <<"low", "mid", "high", "extreme", "mixed", "mixed">>,
           orbit |-> <<"a", "f", "both">>,
           mass |-> <<"m", "m", "beta", "both">>,
           steps |-> <<"none", "scalar", "array", "shared", "own", "own">>,
           horizon |-> <<"short", "part", "part", "merger", "beyond", "mixed">>,
           nstep |-> <<"few", "few", "one", "two">>,
           outs |-> <<"omit", "str", "list", "list", "all", "tuple">>,
           avoid |-> <<"omit", "yes", "no">>,
           before |-> <<"none", "small", "small", "part", "more">>,
           given |-> <<"no", "no", "own">>,          \* merger times supplied
           exact |-> <<"omit", "yes", "no">>,
           nproc |-> <<1, 1, 1, 2, 3>>,
           lunit |-> <<"AU", "m">>,
           munit |-> <<"Msun", "kg">>,
           funit |-> <<"Hz", "mHz">>,
           tunit |-> <<"yr", "s", "Myr">> ]
ValidCase_(c) ==
  /\ c.mass = "beta" => c.orbit = "a"
  /\ c.avoid = "no" => c.horizon \in {"short", "part"} /\ c.steps # "none"     \* integrating through the merger is documented as unsupported

(* laws: time identity, its inverse, and that its derivative is Peters' de/dt *)
LawPoints_ == {"0.01", "0.2", "0.6", "0.9", "0.98"} \X {"0.001", "0.1", "0.5", "0.9", "0.99"} \X {"0.01", "1"}
DeDt(e, beta, c0) ==
  Neg(((R("19/12") ** beta) // PowI(c0, 4)) ** (e ^^ R("-29/19")) ** (((One -- Sq(e)) ^^ R("3/2")) // ((One ++ (Q121 ** Sq(e))) ^^ R("1181/2299"))))
\* Peters (1964) Eq. 5.7, in terms of a and e
DeDtAE(e, beta, a) == Neg((R("19/12") ** (beta // PowI(a, 4)) ** e) // ((One -- Sq(e)) ^^ R("5/2"))) ** (One ++ (Q121 ** Sq(e)))
DaDt(e, beta, a) == Neg((beta // PowI(a, 3)) // ((One -- Sq(e)) ^^ R("7/2"))) ** (One ++ (R("73/24") ** Sq(e)) ++ (R("37/96") ** PowI(e, 4)))
Law_(p) ==
  LET m == R("1.4") ** Msun  a == R(p[3]) ** AU  b == Beta(m, m)  e0 == R(p[1])
      K == PetersK(b, a, e0)  T == TPeters(b, a, e0)  t == R(p[2]) ** T
      e1 == EccAt(e0, K, t)
      c0 == C0(a, e0)
      a1 == AFromEcc(e1, c0)
  IN  /\ RLt(e1, e0) /\ RLt(Zero, e1)
      /\ Close(TimeBetween(K, e0, e1), t, R("1e-7"), T ** R("1e-9"))
      /\ Close(TPeters(b, a1, e1), T -- t, R("1e-6"), Zero)                    \* remaining life along the orbit
      /\ Close(DeDt(e1, b, c0), DeDtAE(e1, b, a1), R("1e-9"), Zero)
      /\ LET h == T ** R("1e-6")
             e2 == EccAt(e0, K, t ++ h)
         IN  /\ Close((e2 -- e1) // h, DeDt(e1, b, c0), R("2e-3"), Zero)
             /\ Close((AFromEcc(e2, c0) -- a1) // h, DaDt(e1, b, a1), R("2e-3"), Zero)

NSteps(ev) == IF ev.mode = "given" THEN Len(ev.ts[1]) ELSE ev.nstep
UnitOf(v) == CASE v = "timesteps" -> "yr" [] v = "a" -> "AU" [] v = "ecc" -> "none" [] OTHER -> "Hz"

BetaOf(ev, i) == IF ev.beta = <<>> THEN Beta(R(ev.m1[i]), R(ev.m2[i])) ELSE R(ev.beta[i])
AOf(ev, i) == IF ev.a = <<>> THEN KeplerA(R(ev.f[i]), R(ev.m1[i]), R(ev.m2[i])) ELSE R(ev.a[i])

Uncert == R("2e-6")
(* the row of one source: requested times, guarded times, whether the guard is ambiguous, then the values *)
RowOk(ev, parts, i, m) ==
  LET b == BetaOf(ev, i)  a0 == AOf(ev, i)  e0 == R(ev.e[i])
      tfull == TMerge(b, a0, e0, SmallE, LargeE, TRUE)     \* times default to the exact merger time
      asked(k) == IF ev.mode = "given" THEN R(ev.ts[IF Len(ev.ts) = 1 THEN 1 ELSE i][k])
                  ELSE IF ev.nstep = 1 THEN Zero
                  ELSE ((IF ev.mode = "none" THEN tfull ELSE R(ev.tevol[IF Len(ev.tevol) = 1 THEN 1 ELSE i])) ** RI(k - 1)) // RI(ev.nstep - 1)
      tm == IF ev.tmerge # <<>> THEN R(ev.tmerge[i]) ELSE TMerge(b, a0, e0, SmallE, LargeE, ev.exact)
      lim == tm -- R(ev.tbefore)
      slack == (Uncert ** tm) ++ (R("1e-9") ** R(ev.tbefore))
      ts == TLCEval([k \in 1..m |-> asked(k)])
      unsure == \E k \in 1..m : k > 1 /\ RLt(RAbs(ts[k] -- lim), slack)
      safe == TLCEval([k \in 1..m |-> ~ev.avoid \/ k = 1 \/ RLt(ts[k], lim)])
      eff == TLCEval([k \in 1..m |-> IF safe[k] THEN ts[k] ELSE MaxV([j \in 1..m |-> IF safe[j] THEN ts[j] ELSE Zero])])
      K == PetersK(b, a0, e0)  c0 == C0(a0, e0)  I0 == PetersInt(Zero, e0)
      \* the eccentricity, reported or recovered from the separation or frequency, is checked by the time it takes
      EOk(e, t) ==
        /\ RLe(e, e0 ++ R("1e-9")) /\ RLe(Zero, e)
        /\ IF REq(t, Zero) THEN Close(e, e0, R("1e-12"), Zero)
           \* accuracy: a few integrator tolerances (1.5e-8) in the eccentricity, taken at both ends
           ELSE LET dI(x) == (x ^^ R("29/19")) // ((One -- Sq(x)) ^^ R("3/2"))
                IN  RLe(RAbs(((K ** PetersInt(e, e0)) -- t) // K), (R("2e-6") ** I0) ++ (R("1e-6") ** dI(e0)) ++ (R("2e-6") ** dI(e)))
      ok(v, x, k) ==
        CASE v = "timesteps" -> Close(x, eff[k], R("1e-6"), R("1e-3"))
          [] v = "ecc" -> EOk(x, eff[k])
          [] OTHER -> TRUE
      cols == TLCEval([q \in DOMAIN parts |-> Vals(parts[q])])
      at(q, k) == cols[q][((i - 1) * m) + k]
      eq == {q \in DOMAIN parts : ev.vars[q] = "ecc"}
      ea(k) == EccAt(e0, K, eff[k])
  IN  unsure \/
      (\A k \in 1..m : \A q \in DOMAIN parts :
         /\ ok(ev.vars[q], at(q, k), k)
         /\ ev.vars[q] \in {"a", "f_orb", "f_GW"} =>
              \* with the eccentricity at hand the relation is exact, otherwise through the solution of the time identity
              LET e == IF eq # {} THEN at(CHOOSE z \in eq : TRUE, k) ELSE ea(k)
                  aa == AFromEcc(e, c0)
                  x == at(q, k)
                  exp == CASE ev.vars[q] = "a" -> aa
                           [] ev.vars[q] = "f_orb" -> KeplerF(aa, R(ev.m1[i]), R(ev.m2[i]))
                           [] ev.vars[q] = "f_GW" -> Two ** KeplerF(aa, R(ev.m1[i]), R(ev.m2[i]))
              IN  IF REq(e, Zero) \/ RLt((K ** I0) -- eff[k], R("0.02") ** K ** I0) THEN TRUE     \* (the integrator's own accuracy at the merger)
                  ELSE IF eq # {} THEN Close(x, exp, R("1e-8"), Zero)
                  ELSE Close(x, exp, (R("1e-5") ** I0) // RMax(PetersInt(Zero, e), R("1e-300")) ++ R("2e-5") ++ (R("3e-6") // e), Zero))

\* alone: the same source evolved alone must give the same row (only when this was recorded)
AloneOk(ev, parts, m) ==
  \A q \in DOMAIN parts :
    ev.alone[q] = <<>> \/
      (Len(ev.alone[q]) = m /\ \A k \in 1..m : Close(R(ev.alone[q][k]), R(parts[q].v[((ev.which - 1) * m) + k]), R("1e-9"), R("1e-300")))

Judge_(ev) ==
  IF ev.fn = "reject" THEN Fails("underdetermined accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE IF ev.fn = "rate" THEN Fails("rate", Close(R(ev.out.v[1]), DeDt(R(ev.e[1]), R(ev.beta[1]), R(ev.c0[1])), R("1e-10"), Zero))
  ELSE LET n == Len(ev.m1)  m == NSteps(ev)
           shape == IF ev.flat THEN <<m>> ELSE <<n, m>>
           parts == IF Len(ev.vars) = 1 THEN <<ev.out>> ELSE ev.out.parts
       IN  IF Len(ev.vars) # 1 /\ (ev.out.kind # "parts" \/ ev.out.n # Len(ev.vars)) THEN {"number of outputs"}
           ELSE Fails("shape", \A q \in DOMAIN parts : parts[q].shape = shape)
                \cup Fails("unit", \A q \in DOMAIN parts : parts[q].unit = UnitOf(ev.vars[q]))
                \cup Fails("arguments changed", ev.kept = 1)
                \cup (IF \E q \in DOMAIN parts : parts[q].shape # shape THEN {}
                      ELSE Fails("value", \A i \in 1..n : RowOk(ev, parts, i, m))
                           \cup Fails("alone differs", AloneOk(ev, parts, m))
                           \cup Fails("grows", \A q \in DOMAIN parts : ev.vars[q] # "ecc" \/
                                  \A i \in 1..n : \A k \in 2..m : RLe(R(parts[q].v[((i - 1) * m) + k]), R(parts[q].v[((i - 1) * m) + k - 1]) ++ R("1e-7"))))
=============================================================================
