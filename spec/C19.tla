-------------------------------- MODULE C19 --------------------------------
(* Circular evolution: a(t)^4 = a0^4 - 4 beta t at every requested time.      *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"evol", "evol", "evol", "evol", "reject", "grid">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           mix |-> <<"no", "no", "yes">>,       \* masses (lengths) of one call in different units
           src |-> <<"scalar", "one", "few", "several">>,
           orbit |-> <<"a", "f", "both">>,
           mass |-> <<"m", "m", "beta", "both">>,
           steps |-> <<"none", "scalar", "array", "shared", "own">>,
           horizon |-> <<"short", "part", "merger", "beyond", "mixed">>,
           nstep |-> <<"omit", "few", "one", "two">>,
           outs |-> <<"omit", "str", "str", "list", "list", "tuple", "array">>,
           lunit |-> <<"AU", "R_sun", "m">>,
           munit |-> <<"Msun", "kg">>,
           funit |-> <<"Hz", "mHz">>,
           tunit |-> <<"yr", "s", "Myr">> ]
ValidCase_(c) == c.mass = "beta" => c.orbit = "a"

LawPoints_ == {"0.1", "1", "30"} \X {"0.001", "0.02", "1"} \X {"0", "0.3", "0.9", "1", "1.5"}
Law_(p) ==
  LET m == R(p[1]) ** Msun  a == R(p[2]) ** AU  b == Beta(m, m)  t == TCirc(b, a)
      a1 == ACircAt(a, b, R(p[3]) ** t)
  IN  /\ RLe(a1, a)
      /\ REq(R(p[3]), Zero) => REq(a1, a)
      /\ RLt(R(p[3]), One) => Close(TCirc(b, a1), t ** (One -- R(p[3])), R("1e-9"), Zero)     \* the remaining life
      /\ RLt(One, R(p[3])) => REq(a1, Zero)
      \* the rate: d(a^4)/dt = -4 beta, so da/dt = -beta/a^3
      /\ LET h == t ** R("1e-5") IN
           Close((ACircAt(a, b, h) -- a) // h, Neg(b // PowI(a, 3)), R("1e-4"), Zero)

(* requested times of source i *)
NSteps(ev) == IF ev.mode = "given" THEN Len(ev.ts[1]) ELSE ev.nstep
RowLen(ev) == NSteps(ev)
EndOf(ev, i, b, a) == IF ev.mode = "none" THEN TCirc(b, a) ELSE R(ev.tevol[IF Len(ev.tevol) = 1 THEN 1 ELSE i])
TimeAt(ev, i, k, b, a) ==
  IF ev.mode = "given" THEN R(ev.ts[IF Len(ev.ts) = 1 THEN 1 ELSE i][k])
  ELSE IF ev.nstep = 1 THEN Zero ELSE (EndOf(ev, i, b, a) ** RI(k - 1)) // RI(ev.nstep - 1)

UnitOf(v) == CASE v = "timesteps" -> "yr" [] v = "a" -> "AU" [] v = "ecc" -> "none" [] OTHER -> "Hz"
\* the separation that a reported value stands for
AFromOut(v, x, m1, m2) == CASE v = "a" -> x [] v = "f_orb" -> KeplerA(x, m1, m2) [] v = "f_GW" -> KeplerA(x // Two, m1, m2)
Merged(v, x) == CASE v = "a" -> REq(x, Zero) [] v = "f_orb" -> REq(x, MergedF) [] v = "f_GW" -> REq(x, Two ** MergedF)

Tol4 == R("3e-12")
ValueOk(ev, v, x, i, k) ==
  LET m1 == R(ev.m1[i])  m2 == R(ev.m2[i])
      b == IF ev.beta = <<>> THEN Beta(m1, m2) ELSE R(ev.beta[i])
      a0 == IF ev.a = <<>> THEN KeplerA(R(ev.f[i]), m1, m2) ELSE R(ev.a[i])
      t == TimeAt(ev, i, k, b, a0)
      d == PowI(a0, 4) -- (R("4") ** b ** t)              \* a(t)^4
      slack == Tol4 ** (PowI(a0, 4) ++ (R("4") ** b ** t))
  IN  IF v = "timesteps" THEN Close(x, t, R("1e-9"), R("1e-6"))
      ELSE IF RLt(slack, d) THEN ~Merged(v, x) /\ RLt(RAbs(PowI(AFromOut(v, x, m1, m2), 4) -- d), slack ++ (R("1e-11") ** d))
      ELSE IF RLt(d, Neg(slack)) THEN Merged(v, x)
      ELSE Merged(v, x) \/ RLt(PowI(AFromOut(v, x, m1, m2), 4), Two ** slack)

Judge_(ev) ==
  IF ev.fn = "reject" THEN Fails("underdetermined accepted", IsErr(ev.out, "ValueError"))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET n == Len(ev.m1)  m == RowLen(ev)
           shape == IF ev.flat THEN <<m>> ELSE <<n, m>>
           parts == IF Len(ev.vars) = 1 THEN <<ev.out>> ELSE ev.out.parts
       IN  IF Len(ev.vars) # 1 /\ (ev.out.kind # "parts" \/ ev.out.n # Len(ev.vars)) THEN {"number of outputs"}
           ELSE Fails("shape", \A q \in DOMAIN parts : parts[q].shape = shape)
                \cup Fails("unit", \A q \in DOMAIN parts : parts[q].unit = UnitOf(ev.vars[q]))
                \cup Fails("arguments changed", ev.kept = 1)
                \cup (IF \E q \in DOMAIN parts : parts[q].shape # shape THEN {}
                      ELSE Fails("value", \A q \in DOMAIN parts :
                             LET v == Vals(parts[q]) IN
                             \A i \in 1..n : \A k \in 1..m : ValueOk(ev, ev.vars[q], v[(i - 1) * m + k], i, k))
                           \cup Fails("start", \A q \in DOMAIN parts : ev.vars[q] # "timesteps"
                                       \/ \A i \in 1..n : REq(R(parts[q].v[(i - 1) * m + 1]), Zero)))
=============================================================================
