----------------------------- MODULE StoreJudge -----------------------------
(* Judges recorded operations on real collections (harness/d_store.py) against *)
(* StoreOps (what an operation does) and Snr/Evolution (the physics).          *)
(* Event: fn, op (as executed), a/b: state of op.o before/after, c: the new    *)
(* collection, out: outcome, chg: other collections that changed, files...     *)
EXTENDS StoreOps, Snr, CheckCore
CONSTANTS Profile
Dims_ == [x |-> <<1>>]
ValidCase_(c) == TRUE
LawPoints_ == {}
Law_(q) == TRUE

(* ---------------- helpers ---------------- *)
TlEq(x, y) == x = y \/ (x # "auto" /\ y # "auto" /\ Close(R(x), R(y), R("1e-12"), Zero))
PEq(p, q) == p.instrument = q.instrument /\ p.psd = q.psd /\ p.approx = q.approx /\ p.noise = q.noise /\ TlEq(p.t, q.t) /\ TlEq(p.L, q.L)
A(ev) == ev.a[1]
B(ev) == ev.b[1]
C1(ev) == ev.c[1]
Snaps(ev) == ev.b \o ev.c
ErrOk(exp, out) == CASE exp = "" -> out.ok [] exp = "any" -> ~out.ok [] OTHER -> IsErr(out, exp)
CloseL(xs, ys, t) == Len(xs) = Len(ys) /\ CloseV(RV(xs), RV(ys), t, R("1e-300"))
IsParam(ev) == ev.fn \in ParamOps
Stale(ev) == IsParam(ev) /\ ev.op.via = "stale"
\* the parameters and error class a parameter operation should give
POut(ev) == IF Stale(ev) THEN [err |-> ApplyParams(ev.op, A(ev).p, FALSE).err, p |-> A(ev).p]
            ELSE LET r == ApplyParams(ev.op, A(ev).p, A(ev).ip) IN [err |-> r.err, p |-> r.p]
NewP(op) == IF op.cls = "VB" THEN Defaults ELSE WithAll(Defaults, op.ch)
NewErr(op) == IF op.cls = "VB" THEN "" ELSE IF Unknown(op.ch) THEN "KeyError" ELSE IF op.interp /\ ~Plottable(WithAll(Defaults, op.ch)) THEN "any" ELSE ""
SnrP(ev) == Explicit(A(ev).p, ev.op.ch)
SnrErr(ev) == IF Plottable(SnrP(ev)) THEN "" ELSE "any"
\* (with every source merged or excluded nothing is calculated and invalid settings need not be noticed)
Key(op) == FileKey(op.name)

(* ---------------- C01: curve ---------------- *)
ProbeF == RV(<<"5e-8", "3e-7", "1.3e-5", "2e-4", "9e-4", "1.7e-3", "6e-3", "2.3e-2", "0.11", "0.47", "1.3", "3.0">>)
PointOk(p, i, v) ==
  LET f == ProbeF[i]
      x == IF RLt(f, GridLo) \/ RLt(Two, f) THEN Infinity ELSE Psd(f, p)
  IN  IF REq(x, Infinity) THEN RLe(R("1e29"), v) ELSE Close(v, x, IF RLt(R("0.3"), f) THEN R("2e-2") ELSE R("1e-3"), Zero)
CurveOk(s) ==
  IF s.curve = <<>> THEN ~s.ip \/ (s.p.instrument = "custom" /\ s.p.psd = "none")
  ELSE s.ip /\ Plottable(s.p) /\ LET v == RV(s.curve[1]) IN \A i \in 1..12 : PointOk(s.p, i, v[i])
\* the same curve asked for in another unit and shape
UnitOk(s) == s.curve = <<>> \/ LET v == RV(s.curve[1])  w == RV(s.curvem[1]) IN \A i \in 1..12 : v[i] = w[i] \/ Close(v[i], w[i], R("1e-9"), Zero)
SameCurve(s, t) == PEq(s.p, t.p) /\ s.curve = t.curve /\ s.ip = t.ip
C01_(ev) ==
  Fails("curve does not match the parameters", \A s \in {Snaps(ev)[i] : i \in DOMAIN Snaps(ev)} : CurveOk(s))
  \cup Fails("curve in another unit", \A i \in DOMAIN Snaps(ev) : UnitOk(Snaps(ev)[i]))
  \cup (IF IsParam(ev) THEN Fails("outcome of a parameter change", ErrOk(POut(ev).err, ev.out)) ELSE {})
  \cup (IF ev.fn = "new" THEN Fails("outcome of a creation", ErrOk(NewErr(ev.op), ev.out)) ELSE {})
  \cup (IF ~ev.out.ok /\ ev.b # <<>> /\ (ev.fn # "snr" \/ A(ev).ip) THEN Fails("rejected but changed", SameCurve(A(ev), B(ev))) ELSE {})
  \cup (IF ev.fn \in {"switchsc"} THEN Fails("switching the interpolation", ErrOk(IF ev.op.on /\ ~Plottable(A(ev).p) THEN "any" ELSE "", ev.out)) ELSE {})
  \cup (IF Stale(ev) THEN Fails("replaced parameters still act", SameCurve(A(ev), B(ev))) ELSE {})

(* ---------------- C02: parameters ---------------- *)
SortedKeys == {Keys[i] : i \in 1..6}
KeysOk(s) == {s.keys[i] : i \in DOMAIN s.keys} = SortedKeys /\ Len(s.keys) = 6
ExpP(ev) == CASE IsParam(ev) -> POut(ev).p [] OTHER -> A(ev).p
MaxBig(ev) ==
  CASE ev.fn \in {"new", "load", "switchsc"} -> 1
    [] Stale(ev) -> 1
    [] IsParam(ev) -> IF POut(ev).err = "" /\ PEq(POut(ev).p, A(ev).p) THEN 0 ELSE IF A(ev).ip THEN 1 ELSE 0
    [] ev.fn = "snr" -> IF ~A(ev).ip THEN 1000000 ELSE IF PEq(SnrP(ev), A(ev).p) THEN 0 ELSE 1
    [] ev.fn = "evolve" -> IF ev.op.to # 0 THEN 1 ELSE 0
    [] OTHER -> 0
C02_(ev) ==
  Fails("keys", \A i \in DOMAIN Snaps(ev) : KeysOk(Snaps(ev)[i]))
  \cup (IF IsParam(ev) THEN Fails("outcome of a parameter change", ErrOk(POut(ev).err, ev.out)) ELSE {})
  \cup (IF ev.b # <<>> /\ ev.fn # "snr" THEN Fails("parameters after", PEq(B(ev).p, ExpP(ev))) ELSE {})
  \cup (IF ev.c # <<>> THEN
          Fails("parameters of the new collection",
                PEq(C1(ev).p, CASE ev.fn = "new" -> NewP(ev.op) [] ev.fn = "load" -> StoredParams(ev.src[1].p) [] OTHER -> A(ev).p)) ELSE {})
  \cup Fails("needless re-interpolation", ev.big <= MaxBig(ev))
  \cup Fails("caller's dictionary modified", ev.dictkept)

(* ---------------- C03: tolerance ---------------- *)
\* the grid of the harmonics table (harness/lib.py)
GridN == 160
NodeTab == [i \in 0..(GridN - 1) |-> One -- (R("10") ^^ ((RI(i) // RI(GridN - 1)) ** RLog10(R("0.005"))))]
NodeE(i) == NodeTab[i]
NodeLo(e) == CHOOSE i \in 0..(GridN - 2) : RLe(NodeE(i), e ++ R("1e-13")) /\ (i = GridN - 2 \/ RLt(e ++ R("1e-13"), NodeE(i + 1)))
ProbeE == RV(<<"0", "0.02", "0.05", "0.1", "0.2", "0.3", "0.45", "0.6", "0.7", "0.8", "0.9", "0.97">>)
NP == Len(ProbeE)
PartG(e, n) == Sum([k \in 1..n |-> PetersG(k, e)])
\* partial sums at multiples of 64, so that they are not made again for every tolerance
RECURSIVE Chk(_, _, _, _)
Chk(e, j, top, acc) == IF j > top THEN acc
  ELSE Chk(e, j + 1, top, TLCEval(Append(acc, acc[j] ++ Sum([k \in 1..64 |-> PetersG((64 * (j - 1)) + k, e)]))))
ChkTo(e, n) == Chk(e, 1, n, <<Zero>>)
ChkTab == IF Profile # "C03" THEN <<>> ELSE [k \in 1..NP |-> <<ChkTo(NodeE(NodeLo(ProbeE[k])), 15), ChkTo(NodeE(NodeLo(ProbeE[k]) + 1), 15)>>]
TopTab == IF Profile # "C03" THEN <<>> ELSE ChkTo(NodeE(GridN - 1), 94)
PartBy(tab, e, n) == LET m == n \div 64  j == IF m < Len(tab) - 1 THEN m ELSE Len(tab) - 1 IN tab[j + 1] ++ Sum([k \in 1..(n - (64 * j)) |-> PetersG((64 * j) + k, e)])
\* enough(e, n): the first n harmonics reach the tolerance
EnoughBy(tab, e, n, tol, slack) == RLe((One -- (tol ++ slack)) ** PetersF(e), PartBy(tab, e, n))
\* the smallest number (at least 2) of harmonics that reach the tolerance at a node; 0: beyond the table of partial sums
RECURSIVE FirstIn(_, _, _, _, _)
FirstIn(e, n, have, goal, top) == IF RLe(goal, have) \/ n >= top THEN n ELSE FirstIn(e, n + 1, TLCEvalR(have ++ PetersG(n + 1, e)), goal, top)
NeedBy(tab, e, tol) ==
  LET goal == (One -- tol) ** PetersF(e)
      js == {j \in 2..Len(tab) : RLe(goal, tab[j])}
  IN  IF js = {} THEN 0
      ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y  n == FirstIn(e, 64 * (j - 2), tab[j - 1], goal, 64 * (j - 1)) IN IF n < 2 THEN 2 ELSE n
\* between the nodes the count is interpolated and rounded up
UpOk(k, h, tol) ==
  LET a == NodeLo(ProbeE[k])  lo == NodeE(a)  hi == NodeE(a + 1)
      w == (ProbeE[k] -- lo) // (hi -- lo)
      nl(s) == IF a = 0 THEN 2 ELSE NeedBy(ChkTab[k][1], lo, tol ++ s)
      nh(s) == NeedBy(ChkTab[k][2], hi, tol ++ s)
      at(s) == (RI(nl(s)) ** (One -- w)) ++ (RI(nh(s)) ** w)
  IN  nl(R("-1e-9")) = 0 \/ nh(R("-1e-9")) = 0
      \/ (RLe(at(R("1e-9")) -- R("1e-6"), RI(h)) /\ RLt(RI(h), at(R("-1e-9")) ++ R("1.000001")))
HarmOk(k, h, tol) ==
  LET lo == NodeE(NodeLo(ProbeE[k]))  hi == NodeE(NodeLo(ProbeE[k]) + 1)
  IN  /\ h >= 2
      /\ EnoughBy(ChkTab[k][1], lo, h, tol, R("1e-9")) \/ h = 6000
      /\ h = 2 \/ ~EnoughBy(ChkTab[k][2], hi, h - 1, tol, R("-1e-9"))
TopE == NodeE(GridN - 1)
TopOk(h, tol) == /\ EnoughBy(TopTab, TopE, h, tol, R("1e-9")) \/ h = 6000
                 /\ ~EnoughBy(TopTab, TopE, h - 1, tol, R("-1e-9"))
Dom(e) == IF REq(e, Zero) THEN 2 ELSE ArgMax(TLCEval([n \in 1..600 |-> PetersG(n, e)]))
DomTab == IF Profile # "C03" THEN <<>> ELSE [k \in 1..NP |-> <<Dom(NodeE(NodeLo(ProbeE[k]))), Dom(NodeE(NodeLo(ProbeE[k]) + 1))>>]
CircFails(e, tol) == RLt(PetersG(2, e), (One -- tol) ** PetersF(e))
EtOk(et, tol) == /\ CircFails(et ++ R("1e-9"), tol)
                 /\ ~CircFails(et -- (IF RLt(R("0.2"), et) THEN R("1e-4") ELSE R("2.1e-5")), tol)
TupleOk(t) ==
  LET tol == R(t[1]) IN
  Fails("eccentricity threshold", EtOk(R(t[2]), tol))
  \cup Fails("harmonics required", (\A k \in 1..NP : HarmOk(k, t[3][k], tol)) /\ TopOk(t[3][NP + 1], tol) /\ \A k \in 1..NP : t[3][k] <= t[3][k + 1])
  \cup Fails("rounded up", \A k \in 1..NP : UpOk(k, t[3][k], tol))
  \cup Fails("dominant strain harmonic", \A k \in 1..NP : DomTab[k][1] <= t[4][k] /\ t[4][k] <= DomTab[k][2])
Tuple(s) == <<s.tol, s.et, s.hr, s.ms>>
\* every combination that occurs in the trace, judged once
Tuples == IF Profile # "C03" THEN {} ELSE UNION {IF Trace[i].fn \in {"crash", "skip"} THEN {} ELSE {Tuple(Snaps(Trace[i])[k]) : k \in DOMAIN Snaps(Trace[i])} : i \in DOMAIN Trace}
BadTuples == [t \in Tuples |-> TupleOk(t)]
C03_(ev) ==
  UNION {BadTuples[Tuple(Snaps(ev)[k])] : k \in DOMAIN Snaps(ev)}
  \cup (IF ev.fn = "settol" THEN Fails("tolerance assigned", ev.out.ok /\ B(ev).tol = ev.op.tol) ELSE {})
  \cup (IF ev.fn \notin {"settol", "new"} /\ ev.b # <<>> THEN Fails("tolerance changed", B(ev).tol = A(ev).tol) ELSE {})
  \cup (IF ev.c # <<>> /\ ev.fn \in {"index", "evolve"} THEN Fails("tolerance lost", C1(ev).tol = A(ev).tol) ELSE {})
  \cup (IF ev.fn = "load" /\ ev.c # <<>> THEN Fails("tolerance lost", C1(ev).tol = ev.src[1].tol) ELSE {})
  \cup (IF ev.fn = "new" /\ ev.c # <<>> /\ ev.op.cls # "VB" THEN Fails("tolerance not set", C1(ev).tol = ev.op.tol) ELSE {})
  \cup (IF ev.fn = "forbidden" /\ ev.op.attr = "ecc_tol" THEN Fails("threshold assignable", IsErr(ev.out, "AttributeError") /\ B(ev).et = A(ev).et) ELSE {})

(* ---------------- C04: derived quantities ---------------- *)
T9 == R("1e-9")
DerivedOk(s) ==
  /\ s.n = Len(s.m1) /\ s.nsrc = s.n /\ \A x \in {s.m2, s.dist, s.f, s.ecc, s.mc, s.a} : Len(x) = s.n /\ Len(s.merged) = s.n
  /\ LET m1 == RV(s.m1)  m2 == RV(s.m2)  f == RV(s.f)  mc == RV(s.mc)  a == RV(s.a)
     IN  \A i \in 1..s.n : Close(mc[i], ChirpMass(m1[i], m2[i]), T9, Zero) /\ Close(a[i], KeplerA(f[i], m1[i], m2[i]), T9, Zero)
C04_(ev) ==
  Fails("derived values", \A i \in DOMAIN Snaps(ev) : DerivedOk(Snaps(ev)[i]))
  \cup (IF ev.fn = "setattr" THEN
          LET b == B(ev)  a == A(ev) IN
          CASE ev.op.attr = "a" -> Fails("separation assigned", ev.out.ok /\ b.m1 = a.m1 /\ b.m2 = a.m2 /\ CloseL(b.a, ev.val, T9))
            [] ev.op.attr \in {"m_1", "m_2", "f_orb", "dist"} ->
                 Fails("value assigned", ev.out.ok /\ CloseL(CASE ev.op.attr = "m_1" -> b.m1 [] ev.op.attr = "m_2" -> b.m2 [] ev.op.attr = "f_orb" -> b.f [] OTHER -> b.dist, ev.val, T9))
            [] OTHER -> {}
        ELSE {})
  \cup (IF ev.fn = "forbidden" THEN
          Fails("assignable", IsErr(ev.out, IF ev.op.attr = "a" THEN "AssertionError" ELSE "AttributeError") /\ B(ev) = A(ev)) ELSE {})
  \cup (IF ev.fn = "new" /\ ev.c # <<>> /\ ev.op.cls # "VB" THEN
          LET c == C1(ev)  x == ev.inp[1] IN
          Fails("constructed from", /\ CloseL(c.m1, x.m1, T9) /\ CloseL(c.m2, x.m2, T9) /\ CloseL(c.dist, x.dist, T9) /\ CloseL(c.ecc, x.ecc, T9)
                                    /\ IF x.f # <<>> THEN CloseL(c.f, x.f, T9) ELSE CloseL(c.a, x.a, T9)) ELSE {})

(* ---------------- C05: indexing ---------------- *)
GatherOpt(s, pos2) == IF s = <<>> THEN <<>> ELSE <<Gather(s[1], pos2)>>
Approx(xs, ys) == Len(xs) = Len(ys) /\ CloseV(RV(xs), RV(ys), R("1e-12"), R("1e-15"))
\* every per-source attribute of t is that of s at the positions, everything else equal
Picked(s, t, q) ==
  Fails("masses", t.m1 = Gather(s.m1, q) /\ t.m2 = Gather(s.m2, q))
  \cup Fails("distance", t.dist = Gather(s.dist, q)) \cup Fails("frequency", t.f = Gather(s.f, q)) \cup Fails("eccentricity", t.ecc = Gather(s.ecc, q))
  \cup Fails("weights", t.w = GatherOpt(s.w, q)) \cup Fails("inclination", t.inc = GatherOpt(s.inc, q)) \cup Fails("polarisation", t.pol = GatherOpt(s.pol, q))
  \cup Fails("position", (t.pos = <<>>) = (s.pos = <<>>) /\ (s.pos = <<>> \/ (Approx(t.pos[1][1], Gather(s.pos[1][1], q)) /\ Approx(t.pos[1][2], Gather(s.pos[1][2], q)))))
  \cup Fails("merger time", t.tm = GatherOpt(s.tm, q)) \cup Fails("merged flag", t.merged = Gather(s.merged, q))
  \cup Fails("SNR", t.snr = GatherOpt(s.snr, q)) \cup Fails("dominant harmonic", t.msh = GatherOpt(s.msh, q))
  \cup Fails("units", t.units = s.units)
\* the distances of the positions (their own: they do not follow later changes of the distances)
PosDist(s, t, q) == Fails("distance of the position", (t.posd = <<>>) = (s.posd = <<>>) /\ (s.posd = <<>> \/ Approx(t.posd[1], Gather(s.posd[1], q))))
Settings(s, t) ==
  Fails("class", t.cls = s.cls)
  \cup Fails("tolerances", t.tol = s.tol /\ t.stol = s.stol /\ t.et = s.et /\ t.hr = s.hr /\ t.ms = s.ms)
  \cup Fails("processes", t.nproc = s.nproc) \cup Fails("g function", t.ig = s.ig /\ t.g = s.g) \cup Fails("observation parameters", t.p = s.p /\ t.keys = s.keys)
  \cup Fails("curve", t.ip = s.ip /\ t.curve = s.curve)
C05_(ev) ==
  IF ev.fn # "index" THEN {}
  ELSE IF A(ev).cls = "VerificationBinaries" THEN Fails("outcome", IsErr(ev.out, "NotImplementedError"))
  ELSE LET a == A(ev)  x == ev.op.idx  e == IndexErr(x, a.n)
       IN  IF e # "" THEN Fails("outcome", IsErr(ev.out, e))
           ELSE IF ~ev.out.ok THEN {"raises"}
           ELSE LET q == TLCEval(IndexPos(x, a.n))
                IN  Picked(a, C1(ev), q) \cup PosDist(a, C1(ev), q) \cup Settings(a, C1(ev)) \cup Fails("recomputed", ev.big = 0) \cup Fails("original changed", B(ev) = a)
                    \cup Fails("length", C1(ev).n = Len(q))

(* ---------------- C06: isolation ---------------- *)
\* the fields of the collection an operation is allowed to change
MayChange(ev) ==
  CASE Stale(ev) -> {}
    [] ev.fn \in ParamOps \ {"remove", "setdefault"} -> IF ev.out.ok THEN {"p", "curve"} ELSE {}
    [] ev.fn = "settol" -> {"tol", "et", "hr", "ms"}
    [] ev.fn = "setg" -> {"ig", "g"}
    [] ev.fn = "switchsc" -> {"ip", "curve"}
    [] ev.fn = "snr" -> {"p", "curve", "snr", "msh"}
    [] ev.fn = "mergertime" -> IF ev.op.save THEN {"tm"} ELSE {}
    [] ev.fn = "evolve" -> IF ev.op.to = 0 THEN {"f", "ecc", "merged", "tm", "a", "units"} ELSE {"tm"}
    [] ev.fn \in {"setattr", "poke"} ->
         CASE ev.op.attr = "m_1" -> {"m1", "mc", "a", "tm", "units"} [] ev.op.attr = "m_2" -> {"m2", "mc", "a", "tm", "units"}
           [] ev.op.attr \in {"f_orb", "a"} -> {"f", "a", "tm", "units"} [] ev.op.attr = "dist" -> {"dist", "posd", "units"} [] ev.op.attr = "ecc" -> {"ecc", "tm"}
           [] ev.op.attr = "weights" -> {"w"} [] ev.op.attr = "inclination" -> {"inc"} [] ev.op.attr = "polarisation" -> {"pol"}
           [] ev.op.attr = "snr" -> {"snr"} [] ev.op.attr = "t_merge" -> {"tm"} [] ev.op.attr = "max_snr_harmonic" -> {"msh"}
           [] ev.op.attr = "n_proc" -> {"nproc"} [] ev.op.attr = "stat_tol" -> {"stol"} [] OTHER -> {}
    [] OTHER -> {}
Untouched(ev) == \A k \in DOMAIN A(ev) \ MayChange(ev) : B(ev)[k] = A(ev)[k]
C06_(ev) ==
  Fails("another collection changed", ev.chg = <<>>)
  \cup Fails("two collections share an array", ev.shared = <<>>)
  \cup (IF ev.b # <<>> THEN Fails("changed more than documented", Untouched(ev)) ELSE {})
  \cup Fails("file changed", {ev.filechg[i] : i \in DOMAIN ev.filechg} \subseteq (IF ev.fn = "save" THEN {Key(ev.op)} ELSE {}))
  \cup Fails("caller's dictionary modified", ev.dictkept) \cup Fails("default argument modified", ev.defaultskept)
  \cup (IF ev.fn = "new" THEN Fails("creation", ErrOk(NewErr(ev.op), ev.out) /\ (ev.c # <<>> => PEq(C1(ev).p, NewP(ev.op)))) ELSE {})
  \cup (IF ev.fn \in {"drop", "index"} THEN {} ELSE IF ev.fn \in {"read", "settol", "setattr", "poke", "keep", "strain", "mergertime", "evolve"} \/ (ev.fn = "plot" /\ Plottable(A(ev).p)) THEN Fails("raises", ev.out.ok) ELSE {})

(* ---------------- C07, C08: files ---------------- *)
LoadErr(ev) == IF ev.src = <<>> THEN "FileNotFoundError"
               ELSE IF Loadable(ev.op, [p |-> ev.src[1].p, interp |-> ev.src[1].ip]) THEN "" ELSE "any"
ClassName(s) == IF s = "VerificationBinaries" THEN "Source" ELSE s
AllPos(s) == [i \in 1..s.n |-> i]
C07_(ev) ==
  IF ev.fn = "save" /\ ev.out.ok THEN Fails("saving changed the collection", B(ev) = A(ev))
  ELSE IF ev.fn # "load" \/ LoadErr(ev) # "" THEN {}
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET s == ev.src[1]  c == C1(ev)  sp == StoredParams(s.p)
       IN  Picked(s, c, AllPos(s))
           \cup Fails("tolerances", c.tol = s.tol /\ c.stol = s.stol /\ c.et = s.et /\ c.hr = s.hr /\ c.ms = s.ms)
           \cup Fails("processes", ev.op.np # 0 \/ c.nproc = s.nproc)
           \cup Fails("g function", ev.op.g # "stored" \/ (c.ig = s.ig /\ c.g = s.g))
           \cup Fails("interpolation choice", ev.op.sc # "stored" \/ c.ip = s.ip)
           \cup Fails("observation parameters", PEq(c.p, sp) /\ c.keys = s.keys)
           \cup Fails("curve", ~(s.ip /\ c.ip /\ PEq(sp, s.p)) \/ c.curve = s.curve \/ (Len(c.curve) = 1 /\ Len(s.curve) = 1 /\ \A i \in 1..12 : c.curve[1][i] = s.curve[1][i] \/ Close(R(c.curve[1][i]), R(s.curve[1][i]), T9, Zero)))
Said(ev, w) == w \in {ev.said[i] : i \in DOMAIN ev.said}
C08_(ev) ==
  CASE ev.fn = "save" ->
         LET had == Key(ev.op) \in {ev.hadfiles[i] : i \in DOMAIN ev.hadfiles}
             chg == {ev.filechg[i] : i \in DOMAIN ev.filechg}
         IN  IF had /\ ~ev.op.over THEN Fails("overwrites without permission", IsErr(ev.out, "FileExistsError") /\ chg = {})
             ELSE Fails("saving", ev.out.ok)
                  \cup Fails("file name", Key(ev.op) \in {ev.files[i] : i \in DOMAIN ev.files} /\ chg \subseteq {Key(ev.op)})
                  \cup Fails("no warning about a custom function", /\ (A(ev).p.psd # "none" => Said(ev, "custom_psd"))
                                                                   /\ (A(ev).p.noise \in CustomNoise => Said(ev, "confusion_noise")))
    [] ev.fn = "load" ->
         IF LoadErr(ev) # "" THEN Fails("outcome of loading", ErrOk(LoadErr(ev), ev.out))
         ELSE IF ~ev.out.ok THEN {"outcome of loading"}
         ELSE LET s == ev.src[1]  c == C1(ev)
              IN  Fails("class", c.cls = LoadedClass(ev.op.via, ClassName(s.cls)))
                  \cup Fails("override of the processes", ev.op.np = 0 \/ c.nproc = ev.op.np)
                  \cup Fails("override of the curve interpolation", c.ip = LoadedInterp(ev.op.sc, s.ip))
                  \cup Fails("override of the g interpolation", ev.op.g # "off" \/ ~c.ig)
                  \cup Fails("version warning", Said(ev, "version") = (ev.op.ver = "old"))
                  \cup Fails("custom functions replaced by the default", c.p.psd = "none" /\ c.p.noise \notin CustomNoise /\ PEq(c.p, StoredParams(s.p)))
                  \cup Fails("custom instrument announced", (s.p.instrument = "custom") => Said(ev, "custom_psd"))
                  \cup Fails("files changed", ev.filechg = <<>>)
    \* a loaded custom instrument takes its function afterwards
    [] IsParam(ev) -> Fails("outcome of a parameter change", ErrOk(POut(ev).err, ev.out))
    [] OTHER -> {}

(* ---------------- C09: evolution ---------------- *)
StdTm(s, i) == IF s.merged[i] = 1 THEN Zero ELSE TMergeStd(R(s.m1[i]), R(s.m2[i]), R(s.f[i]), R(s.ecc[i]), TRUE)
\* the merger time evolution goes by: recorded, or the exact one
TmOf(s, i) == IF s.tm = <<>> THEN StdTm(s, i) ELSE R(s.tm[1][i])
C09Src(ev, n, i) ==      \* n: the evolved collection
  LET a == A(ev)  tm == TmOf(a, i)  t == R(ev.val[i])
      near == RLt(RAbs(t -- tm), R("1e-6") ** RMax(tm, R("1e-300"))) /\ ~REq(tm, Zero)
      exact == ev.which[1] = i
      m1 == R(a.m1[i])  m2 == R(a.m2[i])  f0 == R(a.f[i])  e0 == R(a.ecc[i])
      f == R(n.f[i])  e == R(n.ecc[i])
      dead == n.merged[i] = 1
      b == Beta(m1, m2)  a0 == KeplerA(f0, m1, m2)
      K == PetersK(b, a0, e0)  I0 == PetersInt(Zero, e0)
      dI(x) == (x ^^ R("29/19")) // ((One -- Sq(x)) ^^ R("3/2"))
  IN  Fails("merged flag", IF exact THEN dead ELSE near \/ dead = RLe(tm, t))
      \cup Fails("merger is permanent", a.merged[i] = 1 => dead)
      \cup (IF n.tm = <<>> THEN {"merger time"} ELSE Fails("merger time", Close(R(n.tm[1][i]), RMax(Zero, tm -- t), R("1e-6"), R("2e-6") ** tm)))
      \cup (IF dead THEN Fails("merged orbit", REq(e, Zero) /\ REq(f, MergedF))
            ELSE IF REq(t, Zero) THEN Fails("zero time", Close(f, f0, T9, Zero) /\ Close(e, e0, T9, Zero))
            ELSE Fails("frequency falls", RLe(f0 ** R("0.999999999"), f)) \cup Fails("eccentricity grows", RLe(e, e0 ++ R("1e-9")))
                 \cup (IF REq(e0, Zero) THEN Fails("orbit", REq(e, Zero) /\ ((a.tm # <<>> /\ RLt(R("0.95") ** TCirc(b, a0), t)) \/ Close(f, FCircAt(a0, b, m1, m2, t), R("1e-7"), Zero)))
                       ELSE Fails("orbit", /\ RLt(Zero, e)
                                           \* the time this eccentricity takes, to the integrator's accuracy
                                           /\ RLe(RAbs(((K ** PetersInt(e, e0)) -- t) // K), (R("2e-6") ** I0) ++ (R("1e-6") ** dI(e0)) ++ (R("2e-6") ** dI(e)))
                                           /\ Close(f, KeplerF(AFromEcc(e, C0(a0, e0)), m1, m2), R("1e-7"), Zero))))
Carried(s, t) ==
  Fails("other attributes", t.m1 = s.m1 /\ t.m2 = s.m2 /\ t.dist = s.dist /\ t.w = s.w /\ t.inc = s.inc /\ t.pol = s.pol)
  \cup Fails("position", (t.pos = <<>>) = (s.pos = <<>>) /\ (s.pos = <<>> \/ (Approx(t.pos[1][1], s.pos[1][1]) /\ Approx(t.pos[1][2], s.pos[1][2]))))
  \cup Fails("settings", t.tol = s.tol /\ t.stol = s.stol /\ t.nproc = s.nproc /\ t.ig = s.ig /\ t.g = s.g /\ t.ip = s.ip /\ PEq(t.p, s.p) /\ t.curve = s.curve)
C09_(ev) ==
  IF ev.fn # "evolve" THEN {}
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET n == IF ev.op.to = 0 THEN B(ev) ELSE C1(ev)
       IN  UNION {C09Src(ev, n, i) : i \in 1..A(ev).n}
           \cup Carried(A(ev), n)
           \cup (IF ev.op.to = 0 THEN Fails("recorded SNR", n.snr = A(ev).snr /\ n.msh = A(ev).msh /\ n.cls = A(ev).cls)
                 ELSE Fails("class", n.cls \in {"Source", A(ev).cls})
                      \cup Fails("original evolved", \A k \in DOMAIN A(ev) \ {"tm"} : B(ev)[k] = A(ev)[k])
                      \cup Fails("original's merger time", A(ev).tm = <<>> \/ B(ev).tm = A(ev).tm))
           \cup Fails("evolution time changed", ev.dictkept)

(* ---------------- physics of one source ---------------- *)
Sky(s, i) == IF s.pos = <<>> \/ s.inc = <<>> \/ s.pol = <<>> THEN <<>> ELSE <<s.pos[1][1][i], s.pos[1][2][i], s.pol[1][i], s.inc[1][i]>>
GOf(s) == IF ~s.ig THEN "exact" ELSE IF Profile = "C28" THEN "exact" ELSE "table"
StrainOk(ev) ==
  LET s == A(ev)  v == Vals(ev.out)  hs == ev.which  w == Len(hs)
      x(i, n) == LET mc == R(s.mc[i])  f == R(s.f[i])  e == R(s.ecc[i])  d == R(s.dist[i])  g == Gof(GOf(s), n, e)
                 IN  RSqrt(SkyFactor2(Sky(s, i))) ** (IF ev.op.fn = "h_0" THEN H0g(mc, f, n, d, g) ELSE Hcg(mc, f, e, n, d, g))
      big(i) == LET mc == R(s.mc[i])  f == R(s.f[i])  e == R(s.ecc[i])  d == R(s.dist[i]) IN IF ev.op.fn = "h_0" THEN H0Part(mc, f, d) ELSE HcPart(mc, f, e, d)
      ok(i, n, y) == IF Profile = "C28" /\ s.ig THEN Close(Sq(y), Sq(x(i, n)), R("1e-3"), R("1e-5") ** Sq(big(i))) ELSE Close(y, x(i, n), R("1e-6"), R("1e-9") ** big(i))
  IN  ev.out.shape = <<Len(ev.sel), w>> /\
      \A k \in DOMAIN ev.sel : \A j \in 1..w :
         LET y == v[((k - 1) * w) + j]  i == ev.sel[k] IN IF s.merged[i] = 1 THEN REq(y, Zero) ELSE ok(i, hs[j], y)

(* ---------------- C11: SNR ---------------- *)
PowTen(h) == IF h <= 10 THEN 10 ELSE IF h <= 100 THEN 100 ELSE IF h <= 1000 THEN 1000 ELSE 10000
RECURSIVE NeedFrom(_, _, _, _)
NeedFrom(e, n, have, goal) == IF RLe(goal, have) \/ n > 1200 THEN n ELSE NeedFrom(e, n + 1, TLCEvalR(have ++ PetersG(n + 1, e)), goal)
Need(e, tol) == IF REq(e, Zero) THEN 2 ELSE NeedFrom(e, 2, PetersG(1, e) ++ PetersG(2, e), (One -- tol) ** PetersF(e))
NeedLo(e, tol) == Need(NodeE(NodeLo(e)), tol ++ R("1e-9"))
NeedHi(e, tol) == Need(NodeE(NodeLo(e) + 1), tol -- R("1e-9"))

SP(ev) == LET p == SnrP(ev) IN [instrument |-> p.instrument, psd |-> p.psd, t |-> p.t, L |-> p.L, approx |-> p.approx, noise |-> p.noise,
                                sc |-> IF A(ev).ip THEN "grid" ELSE "none"]
\* "stationary" "evolving" or "either" (too close to the tolerance to tell)
RegimeOf(ev, i) ==
  LET s == A(ev) IN
  IF ev.op.fn = "get_snr_stationary" \/ (ev.op.fn = "get_snr" /\ s.cls = "Stationary") THEN "stationary"
  ELSE IF ev.op.fn = "get_snr_evolving" \/ (ev.op.fn = "get_snr" /\ s.cls = "Evolving") THEN "evolving"
  ELSE LET mc == R(s.mc[i])  f == R(s.f[i])  e == R(s.ecc[i])  T == EffT(SnrP(ev))  tol == R(s.stol)
           x == FracChange(f, mc, T, e)
       IN  IF Close(x, tol, R("1e-6"), R("1e-12")) THEN "either" ELSE IF RLe(x, tol) THEN "stationary" ELSE "evolving"
Rt(ev, f) == IF ~A(ev).ip THEN R("1e-5") ELSE IF RLt(f, R("0.3")) THEN R("3e-3") ELSE R("3e-2")
\* frequencies at which the curve is not smooth enough to say
Awkward(ev, f) ==
  LET p == SP(ev) IN
  \/ p.sc = "grid" /\ p.instrument = "DECIGO" /\ RLe(R("0.997e-3"), f) /\ RLe(f, R("1.003e-3"))
  \/ p.sc = "grid" /\ RLt(R("1.99"), f) /\ RLt(f, R("2.01"))
  \/ p.instrument = "LISA" /\ RLt(R("1.999"), f) /\ RLt(f, R("2.001"))
  \/ p.instrument = "DECIGO" /\ RLt(R("99.9"), f) /\ RLt(f, R("100.1"))
  \/ p.instrument # "DECIGO" /\ p.instrument # "custom" /\ EffNoise(p) = "huang20" /\ p.sc = "grid" /\ RLt(RAbs(f -- R("1e-4")), R("4e-7"))
Circ(ev, i) == RLe(R(A(ev).ecc[i]), R(A(ev).et))
\* number of harmonics: fewest and most that are right
Nmin(ev, i) == IF Circ(ev, i) THEN 2 ELSE NeedLo(R(A(ev).ecc[i]), R(A(ev).tol))
Nmax(ev, i) == IF Circ(ev, i) THEN 2 ELSE PowTen(NeedHi(R(A(ev).ecc[i]), R(A(ev).tol)) + 1)

\* per-harmonic terms (1..N) in the given regime; <<>> when it cannot be said
TermsStat(ev, i, N) ==
  LET s == A(ev)  p == SP(ev)  mc == R(s.mc[i])  f == R(s.f[i])  e == R(s.ecc[i])  d == R(s.dist[i])  T == EffT(SnrP(ev))  g == GOf(s)
  IN  IF \E n \in 1..N : Awkward(ev, RI(n) ** f) THEN <<>>
      ELSE IF Circ(ev, i) THEN <<Zero, CircStat2(mc, f, d, T, p, g, Sky(s, i))>>
      ELSE EccStatTerms(mc, f, e, d, N, T, p, g)
TermsEvol(ev, i, N) ==
  LET s == A(ev)  p == SP(ev)  m1 == R(s.m1[i])  m2 == R(s.m2[i])  f == R(s.f[i])  e == R(s.ecc[i])  d == R(s.dist[i])  T == EffT(SnrP(ev))  g == GOf(s)
      steps == ev.op.nstep
  IN  IF Circ(ev, i) THEN
        LET tm == IF s.tm = <<>> THEN TCirc(Beta(m1, m2), KeplerA(f, m1, m2)) ELSE R(s.tm[1][i])
        IN  IF s.tm # <<>> /\ RLt(tm, T ** R("1.0001")) THEN <<>>
            ELSE IF \E k \in 1..steps : Awkward(ev, Two ** CircTrackF(m1, m2, f, RMin(tm -- GuardCirc, T), steps)[k]) THEN <<>>
            ELSE <<Zero, CircEvol2(m1, m2, f, d, T, tm, steps, p, g)>>
      ELSE LET tm == TMergeStd(m1, m2, f, e, TRUE)
           IN  IF RLt(tm, GuardEcc ** R("1.001")) THEN <<>>
               ELSE IF RLe(tm -- GuardEcc, T ** R("1.001")) THEN <<>>      \* (the last sample is guard-bounded: C23)
               ELSE LET tr == EccTrack(m1, m2, f, e, T, steps)
                    IN  IF \E n \in 1..N : \E k \in 1..steps : Awkward(ev, RI(n) ** tr[k][2]) THEN <<>>
                        ELSE EccEvolTerms(tr, ChirpMass(m1, m2), d, N, p, g)
\* verdict on source i: value v (and dominant harmonic h, 0 when unknown)
SnrOne(ev, i, v, h) ==
  LET r == RegimeOf(ev, i)  N1 == Nmin(ev, i)  N2 == Nmax(ev, i)
      ts == IF r = "either" THEN <<>> ELSE TLCEval(IF r = "stationary" THEN TermsStat(ev, i, N2) ELSE TermsEvol(ev, i, N2))
      rt == LET s == A(ev) IN (IF r = "evolving" /\ ~Circ(ev, i) THEN R("1e-3") ELSE Zero) ++ Rt(ev, RI(IF Circ(ev, i) THEN 2 ELSE N2) ** R(s.f[i]))
      lo == Sum([n \in 1..N1 |-> ts[n]])  hi == Sum(ts)
  IN  IF ts = <<>> \/ N2 > 1000 THEN {}
      ELSE Fails("value", RLe(RSqrt(lo) ** (One -- rt), v ++ R("1e-200")) /\ RLe(v, RSqrt(hi) ** (One ++ rt) ++ R("1e-200")))
           \* nothing in band: any harmonic is as good
           \cup (IF h = 0 \/ RLt(hi, R("1e-30")) THEN {} ELSE Fails("dominant harmonic", h \in 1..N2 /\ RLe(MaxV([n \in 1..N1 |-> ts[n]]) ** (One -- (Two ** rt)), ts[h])))
Wanted(ev) == {ev.which[k] : k \in DOMAIN ev.which}
\* returned value of source i
RetOf(ev, i) == R(ev.out.v[CHOOSE k \in DOMAIN ev.sel : ev.sel[k] = i])
SnrShape(ev) == ev.out.kind = "f" /\ ev.out.shape = <<Len(ev.sel)>>
Recorded(ev) ==      \* what the collection remembers
  LET a == A(ev)  b == B(ev)  n == a.n
      full == ev.op.fn = "get_snr"
      old(i) == IF a.snr = <<>> THEN Zero ELSE R(a.snr[1][i])
  IN  /\ b.snr # <<>> /\ (b.msh # <<>> \/ \A i \in Wanted(ev) : a.merged[i] = 1)
      /\ \A i \in 1..n :
           LET calc == i \in Wanted(ev) /\ a.merged[i] = 0
           IN  /\ REq(R(b.snr[1][i]), IF calc THEN RetOf(ev, i) ELSE IF full THEN Zero ELSE old(i))
               /\ calc \/ b.msh = <<>> \/ b.msh[1][i] \in {0, IF a.msh = <<>> THEN 0 ELSE a.msh[1][i]}      \* others keep theirs
AlsoOk(ev) ==
  \A k \in DOMAIN ev.also.pos : (ev.also.pos[k] \in Wanted(ev)) => Close(R(ev.also.v[k]), RetOf(ev, ev.also.pos[k]), R("1e-7"), R("1e-200"))
SnrNoneLeft(ev) == \A i \in Wanted(ev) : A(ev).merged[i] = 1
SnrValid(ev) == SnrErr(ev) = ""
C11_(ev) ==
  IF ev.fn # "snr" THEN {}
  ELSE IF ~SnrValid(ev) THEN Fails("invalid settings accepted", ~ev.out.ok \/ SnrNoneLeft(ev))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE IF ~SnrShape(ev) THEN {"shape"}
  ELSE LET a == A(ev)
           h(i) == IF B(ev).msh = <<>> THEN 0 ELSE B(ev).msh[1][i]
       IN  UNION {IF a.merged[i] = 1 THEN Fails("merged", REq(RetOf(ev, i), Zero)) ELSE SnrOne(ev, i, RetOf(ev, i), h(i)) : i \in Wanted(ev)}
           \cup Fails("not requested", \A k \in DOMAIN ev.sel : ev.sel[k] \in Wanted(ev) \/ REq(R(ev.out.v[k]), Zero))
           \cup Fails("recorded SNR", Recorded(ev))
           \cup Fails("depends on " \o ev.also.kind, AlsoOk(ev))

(* ---------------- C10: merged sources ---------------- *)
C10_(ev) ==
  (IF ~(ev.fn \in {"evolve", "snr", "strain", "mergertime"}) THEN {} ELSE IF ev.fn = "snr" /\ ~SnrValid(ev) THEN {} ELSE Fails("raises", ev.out.ok))
  \cup (IF ev.fn = "snr" /\ ev.out.ok THEN
          IF ~SnrShape(ev) THEN {"shape"}
          ELSE Fails("SNR of a merged source", \A k \in DOMAIN ev.sel : A(ev).merged[ev.sel[k]] = 1 => REq(R(ev.out.v[k]), Zero))
               \cup Fails("recorded SNR of a merged source", ev.op.fn # "get_snr" \/ A(ev).cls # "Source" \/ \A i \in 1..A(ev).n : A(ev).merged[i] = 1 => REq(R(B(ev).snr[1][i]), Zero))
               \cup Fails("merged sources matter", AlsoOk(ev))
               \cup Fails("recorded SNR", Recorded(ev) \/ A(ev).cls # "Source")
        ELSE {})
  \cup (IF ev.fn = "strain" /\ ev.out.ok THEN Fails("strain", StrainOk(ev)) ELSE {})
  \cup (IF ev.fn = "mergertime" /\ ev.out.ok THEN
          Fails("merger time", /\ ev.out.shape = <<Len(ev.sel)>>
                               /\ \A k \in DOMAIN ev.sel : LET i == ev.sel[k]  s == A(ev) IN
                                    IF s.merged[i] = 1 THEN REq(R(ev.out.v[k]), Zero)
                                    ELSE Close(R(ev.out.v[k]), TMergeStd(R(s.m1[i]), R(s.m2[i]), R(s.f[i]), R(s.ecc[i]), ev.op.exact), R("1e-5"), Zero)
                               /\ ev.op.save => B(ev).tm # <<>> /\ CloseL(B(ev).tm[1], ev.out.v, T9))
        ELSE {})
  \cup (IF ev.fn = "evolve" /\ ev.out.ok THEN
          LET n == IF ev.op.to = 0 THEN B(ev) ELSE C1(ev)
          IN  Fails("merged source revived", \A i \in 1..A(ev).n : A(ev).merged[i] = 1 => n.merged[i] = 1)
              \cup Fails("merger time of a merged source", n.tm = <<>> \/ \A i \in 1..A(ev).n : n.merged[i] = 1 => REq(R(n.tm[1][i]), Zero))
        ELSE {})

(* ---------------- C12: explicit settings ---------------- *)
C12_(ev) ==
  IF ev.fn # "snr" THEN {}
  ELSE IF ~SnrValid(ev) THEN Fails("invalid settings accepted", ~ev.out.ok \/ SnrNoneLeft(ev))
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET p == SnrP(ev)  q == B(ev).p
       IN  Fails("explicit setting not remembered", \A i \in DOMAIN ev.op.ch : LET f == FieldOf(ev.op.ch[i].k) IN IF f \in {"t", "L"} THEN TlEq(q[f], p[f]) ELSE q[f] = p[f])
           \cup Fails("another setting changed", PEq(p, q))
           \cup Fails("curve", CurveOk(B(ev)))
           \cup Fails("differs from a fresh collection", SnrShape(ev) /\ AlsoOk(ev))
           \cup Fails("settings modified", ev.dictkept)
           \cup (IF ~SnrShape(ev) THEN {} ELSE UNION {IF A(ev).merged[i] = 1 THEN {} ELSE SnrOne(ev, i, RetOf(ev, i), 0) : i \in Wanted(ev)})

(* ---------------- C28: the g function ---------------- *)
ProbeG == <<PetersG(1, R("0.1")), PetersG(2, R("0.3")), PetersG(3, R("0.5"))>>
GOk(s) == s.ig = (s.g # <<>>) /\ (s.g = <<>> \/ \A k \in 1..3 : Close(R(s.g[1][k]), ProbeG[k], R("1e-4"), R("1e-6")))
SnrLoose(ev, i, v) ==      \* interpolated g
  LET r == RegimeOf(ev, i)  N1 == Nmin(ev, i)  N2 == Nmax(ev, i)
      ts == IF r = "either" THEN <<>> ELSE TLCEval(IF r = "stationary" THEN TermsStat(ev, i, N2) ELSE TermsEvol(ev, i, N2))
      rt == R("5e-3") ++ Rt(ev, RI(IF Circ(ev, i) THEN 2 ELSE N2) ** R(A(ev).f[i]))
  IN  ts = <<>> \/ N2 > 1000 \/ (RLe(RSqrt(Sum([n \in 1..N1 |-> ts[n]])) ** (One -- rt), v ++ R("1e-200")) /\ RLe(v, RSqrt(Sum(ts)) ** (One ++ rt) ++ R("1e-200")))
C28_(ev) ==
  Fails("g function", \A k \in DOMAIN Snaps(ev) : GOk(Snaps(ev)[k]))
  \cup (IF ev.fn = "setg" THEN Fails("switching", ev.out.ok /\ B(ev).ig = (ev.op.g = "table")) ELSE {})
  \cup (IF ev.fn = "new" /\ ev.c # <<>> THEN Fails("chosen", C1(ev).ig = (ev.op.cls # "VB" /\ ev.op.g = "table")) ELSE {})
  \cup (IF ev.fn \notin {"setg", "new"} /\ ev.b # <<>> THEN Fails("kept", B(ev).ig = A(ev).ig) ELSE {})
  \cup (IF ev.fn \in {"index", "evolve"} /\ ev.c # <<>> THEN Fails("carried over", C1(ev).ig = A(ev).ig /\ C1(ev).g = A(ev).g) ELSE {})
  \cup (IF ev.fn = "load" /\ ev.c # <<>> THEN Fails("restored", C1(ev).ig = (ev.src[1].ig /\ ev.op.g # "off")) ELSE {})
  \cup (IF ev.fn = "strain" THEN (IF ~ev.out.ok THEN {"raises"} ELSE Fails("strain", StrainOk(ev))) ELSE {})
  \cup (IF ev.fn = "snr" /\ SnrValid(ev) THEN
          IF ~ev.out.ok THEN {"raises"} ELSE IF ~SnrShape(ev) THEN {"shape"}
          ELSE Fails("SNR", \A i \in Wanted(ev) : A(ev).merged[i] = 1 \/ (A(ev).ig /\ SnrLoose(ev, i, RetOf(ev, i))) \/ (~A(ev).ig /\ SnrOne(ev, i, RetOf(ev, i), 0) = {}))
        ELSE {})

Judge_(ev) ==
  CASE Profile = "C01" -> C01_(ev) [] Profile = "C02" -> C02_(ev) [] Profile = "C03" -> C03_(ev) [] Profile = "C04" -> C04_(ev) [] Profile = "C05" -> C05_(ev)
    [] Profile = "C06" -> C06_(ev) [] Profile = "C07" -> C07_(ev) [] Profile = "C08" -> C08_(ev) [] Profile = "C09" -> C09_(ev) [] Profile = "C10" -> C10_(ev)
    [] Profile = "C11" -> C11_(ev) [] Profile = "C12" -> C12_(ev) [] Profile = "C28" -> C28_(ev)
=============================================================================
