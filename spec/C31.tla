-------------------------------- MODULE C31 --------------------------------
(* What collections and calculations announce about themselves: the counts   *)
(* of a verbose SNR calculation, the printed form, the announcements of the   *)
(* constructor and of evolution close to the merger.                          *)
EXTENDS Evolution, CheckCore

Dims_ == [ fn |-> <<"snr", "snr", "snr", "part", "part", "repr", "new", "steps", "steps">>,
           src |-> <<"one", "few", "several", "several">>,
           ecc |-> <<"zero", "low", "mid", "mixed", "mixed">>,
           horizon |-> <<"tiny", "mixed", "mixed", "beyond", "near">>,
           cls |-> <<"Source", "Source", "Source", "Stationary", "Evolving">>,
           inst |-> <<"LISA", "TianQin", "DECIGO", "custom">>,
           st |-> <<"auto", "given">>,                 \* observation time among the settings
           t |-> <<"omit", "omit", "given", "auto">>,  \* observation time of the call
           merged |-> <<"none", "some", "some", "all">>,
           sel |-> <<"omit", "some", "some", "none", "all">>,
           again |-> <<"no", "no", "yes">>,            \* a calculation before this one
           pre |-> <<"none", "index", "tol", "stat">>,
           interp |-> <<TRUE, FALSE>>,
           \* construction
           size |-> <<"small", "small", "1000", "1001", "big">>,
           g |-> <<"table", "exact">>,
           pos |-> <<"none", "given", "given">>,
           inc |-> <<"given", "fill">>, pol |-> <<"given", "fill">>,
           \* evolution
           past |-> <<"none", "none", "one", "all">>,  \* steps beyond the merger
           near |-> <<"none", "one", "all">>,          \* steps within the guard time
           avoid |-> <<"omit", "yes", "no">>,
           given |-> <<"own", "own", "calc">>,
           steps |-> <<"shared", "each", "evol">> ]
ValidCase_(c) == c.fn = "part" => c.cls = "Source"

(* ------------------------------------------------------------------ counts *)
DefaultStatTol == R("1e-2")
TimeOf(ev) == IF ev.t = "auto" THEN AutoT(ev.inst) ELSE R(ev.t)
McAt(ev, i) == ChirpMass(R(ev.m1[i]), R(ev.m2[i]))
MayBe(ev, flag, i) == StatOk(flag, R(ev.f[i]), McAt(ev, i), TimeOf(ev), R(ev.e[i]), R(ev.tol))
Asked(ev) == {i \in 1..Len(ev.f) : ev.sel[i] = 1}
Live(ev) == {i \in Asked(ev) : ev.merged[i] = 0}
Circ(ev, i) == RLe(R(ev.e[i]), R(ev.et))
Between(x, lo, hi) == x >= Cardinality(lo) /\ x <= Cardinality(hi)
\* the sources of one class: certainly lo, at most hi
Counted(ev, x, flag, P(_)) ==
  LET hi == {i \in Live(ev) : MayBe(ev, flag, i) /\ P(i)}
      lo == {i \in hi : ~MayBe(ev, 1 - flag, i)}
  IN  Between(x, lo, hi)
Every(i) == TRUE
\* v: asked, merged, stationary, evolving, then circular and eccentric of the stationary and of the evolving ones
SnrCounts(ev) ==
  LET v == ev.out.v
      IsC(i) == Circ(ev, i)
      IsE(i) == ~Circ(ev, i)
  IN  Fails("number of sources", v[1] = Cardinality(Asked(ev)))
      \cup Fails("number of merged sources", v[2] = Cardinality({i \in 1..Len(ev.f) : ev.merged[i] = 1}))
      \cup Fails("number of stationary sources", Counted(ev, v[3], 1, Every))
      \cup Fails("number of evolving sources", Counted(ev, v[4], 0, Every))
      \cup Fails("number of stationary and circular sources", Counted(ev, v[5], 1, IsC))
      \cup Fails("number of stationary and eccentric sources", Counted(ev, v[6], 1, IsE))
      \cup Fails("number of evolving and circular sources", Counted(ev, v[7], 0, IsC))
      \cup Fails("number of evolving and eccentric sources", Counted(ev, v[8], 0, IsE))
      \cup Fails("every source in one class", v[3] + v[4] = Cardinality(Live(ev)) /\ v[5] + v[6] = v[3] /\ v[7] + v[8] = v[4])
\* one regime for all: circular and eccentric ones
PartCounts(ev) ==
  LET v == ev.out.v
      k == IF ev.regime = "stationary" THEN 5 ELSE 7
  IN  Fails("number of circular sources", v[k] = Cardinality({i \in Live(ev) : Circ(ev, i)}))
      \cup Fails("number of eccentric sources", v[k + 1] = Cardinality({i \in Live(ev) : ~Circ(ev, i)}))
      \cup Fails("other counts", \A j \in (1..8) \ {k, k + 1} : v[j] = 0)

(* --------------------------------------------------------------- evolution *)
StepsOf(ev, i) ==
  IF ev.ts # <<>> THEN RV(ev.ts[IF Len(ev.ts) = 1 THEN 1 ELSE i])
  ELSE LET t == R(ev.tevol[IF Len(ev.tevol) = 1 THEN 1 ELSE i]) IN [k \in 1..ev.nstep |-> (t ** RI(k - 1)) // RI(ev.nstep - 1)]
TmOf(ev, i) == IF ev.tmerge # <<>> THEN R(ev.tmerge[i]) ELSE TMergeStd(R(ev.m1[i]), R(ev.m2[i]), R(ev.f[i]), R(ev.e[i]), FALSE)
\* how far the merger is from what the code uses (the fit is 1%, printed digits otherwise)
Slack(ev) == IF ev.tmerge # <<>> THEN R("1e-9") ELSE R("0.02")
\* TRUE, FALSE, or neither can be told
PastAt(ev, i, k, sign) == RLt(TmOf(ev, i) ** (One ++ (sign ** Slack(ev))), StepsOf(ev, i)[k])
NearAt(ev, i, k, sign) == RLe((TmOf(ev, i) -- R(ev.tbefore)) ++ (sign ** Slack(ev) ** TmOf(ev, i)), StepsOf(ev, i)[k])
StepVerdict(ev) ==
  LET n == Len(ev.f)
      S(i) == 1..Len(StepsOf(ev, i))
      v == ev.out.v
      surelyPast == ev.avoid /\ \E i \in 1..n : \E k \in S(i) : PastAt(ev, i, k, One)
      maybePast == ev.avoid /\ \E i \in 1..n : \E k \in S(i) : PastAt(ev, i, k, Neg(One))
      surelyAll == ev.avoid /\ \A i \in 1..n : \A k \in S(i) \ {1} : NearAt(ev, i, k, One)
      maybeAll == ev.avoid /\ \A i \in 1..n : \A k \in S(i) \ {1} : NearAt(ev, i, k, Neg(One))
  IN  Fails("warning about steps past the merger", (surelyPast => v[1] = 1) /\ (~maybePast => v[1] = 0) /\ v[1] \in {0, 1})
      \cup Fails("warning about steps too close to the merger", (surelyAll => v[2] = 1) /\ (~maybeAll => v[2] = 0) /\ v[2] \in {0, 1})
      \cup Fails("unexpected announcement", v[3] = 0)

Text(cls, n) ==
  CASE cls = "Source" -> "<Source: " \o ToString(n) \o " sources>"
    [] cls = "Stationary" -> "<Stationary: " \o ToString(n) \o " stationary sources>"
    [] cls = "Evolving" -> "<Evolving: " \o ToString(n) \o " evolving sources>"
    [] OTHER -> "<VerificationBinaries | Kupfer+2018>"
NewVerdict(ev) ==
  LET v == ev.out.v IN
  Fails("announcement of random inclinations", v[1] = IF ev.pos /\ ~ev.inc THEN 1 ELSE 0)
  \cup Fails("announcement of random polarisations", v[2] = IF ev.pos /\ ~ev.pol THEN 1 ELSE 0)
  \cup Fails("warning about a small collection", v[3] = IF ev.g /\ ev.n <= 1000 THEN 1 ELSE 0)
  \cup Fails("unexpected announcement", v[4] = 0)

(* laws: the classes of the announcement are those of the classification, whatever the slack; text of small numbers *)
LawPoints_ == (0..12) \X {"Source", "Stationary", "Evolving"}
Law_(p) ==
  /\ \A q \in 0..12 : (Text(p[2], p[1]) = Text(p[2], q)) <=> p[1] = q
  /\ Text("Source", 3) = "<Source: 3 sources>"
  /\ \A c \in {"Source", "Stationary", "Evolving"} : (c = p[2]) <=> (Text(c, p[1]) = Text(p[2], p[1]))

Judge_(ev) ==
  IF ~ev.out.ok THEN {"raises"}
  ELSE CASE ev.fn = "snr" -> SnrCounts(ev) \cup Fails("different without verbose", ev.same = 1) \cup Fails("speaks unasked", ev.quiet = 1)
         [] ev.fn = "part" -> PartCounts(ev) \cup Fails("different without verbose", ev.same = 1) \cup Fails("speaks unasked", ev.quiet = 1)
         [] ev.fn = "steps" -> StepVerdict(ev)
         [] ev.fn = "new" -> NewVerdict(ev)
         [] ev.fn = "repr" -> Fails("text", ev.out.v = <<Text(ev.cls, ev.n)>>)
=============================================================================
