---------------------------- MODULE SourceStore ----------------------------
(* The life of collections of sources: creation, parameter changes, indexing,  *)
(* copying, evolution, SNR and merger-time calculations, saving and loading.   *)
(* Two uses:                                                                   *)
(*  - Init/NextAll: TLC explores every history of a bounded instance and checks *)
(*    the invariants and action properties below;                              *)
(*  - Init/NextRnd (simulation): TLC generates long random histories, which the *)
(*    driver replays on the real classes (StoreJudge judges what happened).     *)
EXTENDS StoreOps, Json

CONSTANTS MaxObjs, MaxN, Depth,
          KindSeq,             \* sequence of operation kinds (repetition = weight)
          Classes, GKinds,     \* classes and g-functions of new collections
          Instruments_, Psds, Times, Arms, Noises, BadNoises,   \* alphabets of the parameter values
          Tols, Full           \* Full: rich argument classes (simulation)

VARIABLES objs,     \* slot -> [live: FALSE] or a collection
          files,    \* file -> <<>> or <<the collection saved in it>>
          hist      \* the operations so far
vars == <<objs, files, hist>>

Slots == 1..MaxObjs
Dead == [live |-> FALSE]
Live == {i \in Slots : objs[i].live}
Free == {i \in Slots : ~objs[i].live}
MinFree == CHOOSE i \in Free : \A j \in Free : i <= j

Vals(k) == CASE k = "instrument" -> Instruments_ [] k = "custom_psd" -> Psds [] k = "t_obs" -> Times [] k = "L" -> Arms
             [] k = "approximate_R" -> BOOLEAN [] k = "confusion_noise" -> Noises \cup BadNoises
One1(k) == {[k |-> k, v |-> v] : v \in Vals(k)}
Singles == UNION {{<<x>> : x \in One1(k)} : k \in KeySet}
BadKey == <<[k |-> "t_ob", v |-> "auto"]>>
\* changes of several keys; a custom instrument usually comes with its function
Pairs == UNION {{<<x, y>> : x \in One1(k1), y \in One1(k2)} : k1 \in {"instrument", "t_obs"}, k2 \in {"custom_psd", "confusion_noise", "L"}}
Changes == {<<>>} \cup Singles \cup Pairs \cup {BadKey, <<[k |-> "t_obs", v |-> "auto"], [k |-> "t_ob", v |-> "auto"]>>}

Pick(S) == IF Full THEN {RandomElement(S)} ELSE S
\* larger random change sets for the simulation: a value for a random subset of the keys
RndChange(step) ==      \* (the parameter keeps TLC from evaluating this once and for all)
  LET ks == RandomElement(SUBSET KeySet)
      pick(k) == [k |-> k, v |-> RandomElement(Vals(k))]
      seqOf == SelectSeq(Keys, LAMBDA k : k \in ks)
  IN  [i \in DOMAIN seqOf |-> pick(seqOf[i])]
ChangesR(step) == IF Full THEN {CASE RandomElement(1..6) <= 2 -> RndChange(step) [] OTHER -> RandomElement(Changes)} ELSE Changes

\* the parameters a collection already has, or some of them (those omitted have their defaults, when the whole set is assigned)
SameAs(p, ks, whole) == LET s == SelectSeq(Keys, LAMBDA k : k \in ks \/ (whole /\ p[FieldOf(k)] # Defaults[FieldOf(k)])) IN [i \in DOMAIN s |-> [k |-> s[i], v |-> p[FieldOf(s[i])]]]
ChangesS(step, i, whole) == IF Full /\ RandomElement(1..5) = 1 THEN {SameAs(objs[i].p, RandomElement(SUBSET KeySet), whole)} ELSE ChangesR(step)

NewChanges(step) == IF Full THEN ChangesR(step)
              ELSE {<<>>, BadKey, <<[k |-> "instrument", v |-> "Hubble"]>>, <<[k |-> "instrument", v |-> "custom"], [k |-> "custom_psd", v |-> "psdA"]>>}

(* ---------------- a collection ---------------- *)
\* life: remaining lifetime of each source in abstract units (0: merged)
Coll(cls, life, p, interp, tol, g, pos) ==
  [live |-> TRUE, cls |-> cls, life |-> life, merged |-> [i \in DOMAIN life |-> FALSE], p |-> p, interp |-> interp, curve |-> CurveOf(interp, p),
   tol |-> tol, htol |-> tol, g |-> g, pos |-> pos, tm |-> <<>>, snr |-> <<>>, ids |-> [i \in DOMAIN life |-> i], handle |-> "none", stale |-> <<>>]
N(o) == Len(o.life)
Put(i, o) == [objs EXCEPT ![i] = o]
\* give a collection new parameters; the curve follows
WithParams(o, p) == [o EXCEPT !.p = p, !.curve = CurveOf(o.interp, p)]

(* ---------------- operation arguments ---------------- *)
Names == {"A", "A.h5", "B.hdf5"}
FileKeys == {FileKey(x) : x \in Names}
HaveFiles == {x \in Names : files[FileKey(x)] # <<>>}
Loaders == {"Source", "Stationary", "Evolving"}
IdxKinds == {"int", "npint", "list", "array", "mask", "masklist", "slice", "copy", "float", "string", "floats", "badmask", "none"}
Ints(n) == (-n - 1)..n
IdxOf(kind, n) ==
  CASE kind \in {"int", "npint"} -> {[kind |-> kind, v |-> <<x>>] : x \in Ints(n)}
    [] kind \in {"list", "array"} -> {[kind |-> kind, v |-> s] : s \in UNION {[1..m -> Ints(n)] : m \in 1..(IF Full THEN 3 ELSE 2)}}
    [] kind \in {"mask", "masklist"} -> {[kind |-> kind, m |-> s] : s \in [1..n -> BOOLEAN]}
    [] kind = "badmask" -> {[kind |-> "mask", m |-> s] : s \in [1..(n + 1) -> BOOLEAN]} \cup (IF n > 1 THEN {[kind |-> "mask", m |-> s] : s \in [1..(n - 1) -> BOOLEAN]} ELSE {})
    [] kind = "slice" -> {[kind |-> "slice", a |-> a, b |-> b, s |-> s] : a \in {<<>>} \cup {<<x>> : x \in Ints(n)}, b \in {<<>>} \cup {<<x>> : x \in Ints(n)}, s \in {-2, -1, 1, 2}}
    [] OTHER -> {[kind |-> kind]}

OpsOf(kind) ==
  CASE kind = "new" ->
         IF Free = {} THEN {}
         ELSE {[op |-> "new", o |-> MinFree, cls |-> c, n |-> n, ch |-> ch, interp |-> ip, tol |-> tol, g |-> g, pos |-> pos,
                wts |-> w, from |-> fr, ecc |-> e] :
                 c \in Pick(Classes), n \in (IF Full THEN Pick(1..MaxN) ELSE {MaxN}), ch \in NewChanges(Len(hist)), ip \in Pick(BOOLEAN), tol \in (IF Full THEN Pick(Tols) ELSE {CHOOSE t \in Tols : TRUE}),
                 g \in Pick(GKinds), pos \in Pick(IF Full THEN BOOLEAN ELSE {FALSE}), w \in Pick(IF Full THEN BOOLEAN ELSE {TRUE}),
                 fr \in Pick(IF Full THEN {"f", "a", "both"} ELSE {"f"}), e \in Pick(IF Full THEN {"zero", "mixed", "ecc"} ELSE {"mixed"})}
    [] kind \in {"set", "setdefault"} -> {[op |-> kind, o |-> i, ch |-> ch, via |-> v] : i \in Pick(Live), ch \in Pick(Singles \cup {BadKey}), v \in Pick(IF Full /\ kind = "set" THEN {"obj", "aug", "handle"} ELSE {"obj", "handle"})}
    [] kind \in {"update", "ior"} -> UNION {{[op |-> kind, o |-> i, ch |-> ch, via |-> v] : ch \in ChangesS(Len(hist), i, FALSE), v \in Pick({"obj", "handle"})} : i \in Pick(Live)}
    [] kind = "assign" -> UNION {{[op |-> kind, o |-> i, ch |-> ch, via |-> "obj"] : ch \in ChangesS(Len(hist), i, TRUE)} : i \in Pick(Live)}
    [] kind = "plot" -> {[op |-> "plot", o |-> i, what |-> w, again |-> b] : i \in Pick(Live), w \in Pick({"onsc", "one", "two", "curve"}), b \in Pick(BOOLEAN)}
    [] kind = "remove" -> {[op |-> kind, o |-> i, how |-> h, via |-> v] : i \in Pick(Live), h \in Pick({"pop", "popdef", "popitem", "clear", "del"}), v \in Pick({"obj", "handle"})}
    [] kind = "keep" -> {[op |-> "keep", o |-> i] : i \in Pick(Live)}
    [] kind = "read" -> {[op |-> "read", o |-> i, what |-> w] : i \in Pick(Live), w \in Pick({"params", "paramscopy", "curve", "derived", "repr", "mask", "harmonics"})}
    [] kind = "settol" -> {[op |-> "settol", o |-> i, tol |-> t] : i \in Pick(Live), t \in Pick(Tols)}
    [] kind = "setattr" -> {[op |-> "setattr", o |-> i, attr |-> a] : i \in Pick(Live), a \in Pick({"m_1", "m_2", "dist", "f_orb", "weights", "a", "n_proc", "stat_tol"})}
    [] kind = "forbidden" -> {[op |-> "forbidden", o |-> i, attr |-> a] : i \in Pick(Live), a \in Pick({"m_c", "n_sources", "ecc_tol", "a"})}
    [] kind = "poke" -> {[op |-> "poke", o |-> i, attr |-> a] : i \in Pick(Live), a \in Pick({"m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "snr", "t_merge", "max_snr_harmonic"})}
    [] kind = "index" -> IF Free = {} THEN {} ELSE {[op |-> "index", o |-> i, to |-> MinFree, idx |-> x] : i \in Pick(Live), x \in {}}
    [] kind = "drop" -> {[op |-> "drop", o |-> i] : i \in Pick(Live)}
    [] kind = "switchsc" -> {[op |-> "switchsc", o |-> i, on |-> b] : i \in Pick(Live), b \in Pick(BOOLEAN)}
    [] kind = "setg" -> {[op |-> "setg", o |-> i, g |-> b] : i \in Pick(Live), b \in Pick({"exact", "table"})}
    [] kind = "save" -> {[op |-> "save", o |-> i, name |-> f, over |-> v] : i \in Pick(Live), f \in Pick(Names), v \in Pick(BOOLEAN)}
    [] kind = "load" -> IF Free = {} THEN {} ELSE {[op |-> "load", o |-> MinFree, name |-> f, sc |-> b, np |-> np, via |-> k, g |-> gg, ver |-> v] :
            f \in Pick(IF Full /\ HaveFiles # {} /\ RandomElement(1..8) > 1 THEN HaveFiles ELSE Names), b \in Pick({"stored", "on", "off"}), np \in Pick(IF Full THEN {0, 2} ELSE {0}),
            k \in Pick(IF Full THEN Loaders ELSE {"Source", "Evolving"}), gg \in Pick({"stored", "off"}), v \in Pick(IF Full THEN {"same", "old"} ELSE {"same"})}
    [] kind = "mergertime" -> {[op |-> "mergertime", o |-> i, save |-> s, which |-> w, exact |-> x] : i \in Pick(Live), s \in Pick(BOOLEAN), w \in Pick(IF Full THEN {"omit", "some"} ELSE {"omit"}), x \in Pick(IF Full THEN BOOLEAN ELSE {TRUE})}
    [] kind = "evolve" -> {[op |-> "evolve", o |-> i, to |-> to, t |-> t] : i \in Pick(Live), to \in Pick({0} \cup (IF Free = {} THEN {} ELSE {MinFree})), t \in Pick(IF Full THEN {"zero", "part", "some", "each", "eachpart", "exact", "all"} ELSE {"zero", "some", "each", "all"})}
    [] kind = "snr" -> {[op |-> "snr", o |-> i, fn |-> f, ch |-> ch, which |-> w, also |-> al] : i \in Pick(Live), f \in Pick({"get_snr", "get_snr_stationary", "get_snr_evolving"}),
            ch \in {c \in ChangesR(Len(hist)) : ~Unknown(c)}, w \in Pick(IF Full THEN {"omit", "some"} ELSE {"omit"}), al \in Pick(IF Full THEN {"fresh", "alone", "permuted", "tiled", "procs"} ELSE {"no"})}
    [] kind = "strain" -> {[op |-> "strain", o |-> i, fn |-> f, which |-> w] : i \in Pick(Live), f \in Pick({"h_0", "h_c"}), w \in Pick(IF Full THEN {"omit", "some"} ELSE {"omit"})}
    [] kind = "smask" -> {[op |-> "smask", o |-> i, t |-> t] : i \in Pick(Live), t \in Pick({"omit", "given", "auto"})}
    [] OTHER -> {}
\* indexing needs the size of the chosen collection
AllOps(kind) ==
  IF kind = "index" THEN
    IF Free = {} \/ Live = {} THEN {} ELSE UNION {{[op |-> "index", o |-> i, to |-> MinFree, idx |-> x] : x \in Pick(IdxOf(CHOOSE k \in Pick(IF N(objs[i]) > 8 THEN {"int", "copy"} ELSE IdxKinds) : TRUE, N(objs[i])))} : i \in Pick(Live)}
  ELSE IF kind = "indexall" THEN
    IF Free = {} THEN {} ELSE UNION {{[op |-> "index", o |-> i, to |-> MinFree, idx |-> x] : x \in UNION {IdxOf(k, N(objs[i])) : k \in {"int", "list", "mask", "badmask", "copy", "slice"}}} : i \in Live}
  ELSE IF Live = {} /\ kind \notin {"new", "load"} THEN {} ELSE OpsOf(kind)

(* ---------------- effects ---------------- *)
LifeOf(i) == <<2, 3, 1>>[1 + (i - (3 * (i \div 3)))]
Dec(x, t) == IF x > t THEN x - t ELSE 0
EvolveBy(o, t, i) == CASE t = "all" -> 99 [] t \in {"some", "exact"} -> 1 [] t = "each" -> LifeOf(i + 1) - 1 [] OTHER -> 0
Evolved(o, t) ==
  LET life == [i \in DOMAIN o.life |-> Dec(o.life[i], EvolveBy(o, t, i))]
  IN  [o EXCEPT !.life = life, !.merged = [i \in DOMAIN life |-> life[i] = 0], !.tm = life]
Subset(o, pos) ==
  [o EXCEPT !.life = Gather(@, pos), !.merged = Gather(@, pos), !.ids = Gather(@, pos), !.tm = IF @ = <<>> THEN <<>> ELSE Gather(@, pos),
            !.snr = IF @ = <<>> THEN <<>> ELSE Gather(@, pos), !.handle = "none", !.stale = <<>>]
Loaded(o, op) ==
  LET ip == LoadedInterp(op.sc, o.interp)
  IN  [WithParams([o EXCEPT !.interp = ip], StoredParams(o.p)) EXCEPT
         !.cls = LoadedClass(op.via, @), !.g = IF op.g = "off" THEN "exact" ELSE @, !.handle = "none", !.stale = <<>>]
\* the effect on the slots, as a new value of objs; rejected operations change nothing
Effect(op) ==
  LET o == objs[op.o]
  IN  CASE op.op = "new" ->
             LET r == ApplyParams([op |-> "assign", ch |-> op.ch], Defaults, FALSE)
             IN  IF r.err # "" \/ (op.interp /\ ~Plottable(r.p)) THEN objs
                 ELSE Put(op.o, Coll(op.cls, [i \in 1..(IF op.cls = "VB" THEN 16 ELSE op.n) |-> LifeOf(i)], IF op.cls = "VB" THEN Defaults ELSE r.p,
                                     op.interp \/ op.cls = "VB", op.tol, op.g, op.pos))
        [] op.op \in ParamOps ->
             IF op.via = "handle" /\ o.handle = "none" THEN objs
             ELSE IF op.via = "handle" /\ o.handle = "stale" THEN Put(op.o, [o EXCEPT !.stale = ApplyParams(op, @, FALSE).p])
             ELSE LET r == ApplyParams(op, o.p, o.interp)
                  IN  IF r.err # "" THEN objs
                      ELSE Put(op.o, [WithParams(o, r.p) EXCEPT
                             !.handle = IF op.op = "assign" /\ @ # "none" THEN "stale" ELSE @,
                             !.stale = IF op.op = "assign" /\ o.handle = "current" THEN o.p ELSE @])
        [] op.op = "keep" -> Put(op.o, [o EXCEPT !.handle = "current"])
        [] op.op = "settol" -> Put(op.o, [o EXCEPT !.tol = op.tol, !.htol = op.tol])
        [] op.op = "setg" -> Put(op.o, [o EXCEPT !.g = op.g])
        [] op.op = "switchsc" -> IF op.on /\ ~Plottable(o.p) THEN objs ELSE Put(op.o, [o EXCEPT !.interp = op.on, !.curve = CurveOf(op.on, o.p)])
        [] op.op = "index" -> IF o.cls = "VB" \/ IndexErr(op.idx, N(o)) # "" THEN objs ELSE Put(op.to, Subset(o, IndexPos(op.idx, N(o))))
        [] op.op = "load" -> IF files[FileKey(op.name)] = <<>> \/ ~Loadable(op, files[FileKey(op.name)][1]) THEN objs ELSE Put(op.o, Loaded(files[FileKey(op.name)][1], op))
        [] op.op = "drop" -> Put(op.o, Dead)
        [] op.op = "mergertime" -> IF op.save THEN Put(op.o, [o EXCEPT !.tm = o.life]) ELSE objs
        [] op.op = "evolve" ->
             LET before == [o EXCEPT !.tm = IF @ = <<>> THEN o.life ELSE @]
             IN  IF op.to = 0 THEN Put(op.o, Evolved(before, op.t))
                 ELSE [objs EXCEPT ![op.o] = before, ![op.to] = [Evolved(before, op.t) EXCEPT !.cls = "Source", !.snr = <<>>, !.handle = "none", !.stale = <<>>]]
        [] op.op = "snr" ->
             LET p == Explicit(o.p, op.ch)
                 r == ChangeTo(o.p, p, o.interp)
             IN  IF r.err # "" \/ ~Plottable(p) THEN objs
                 ELSE Put(op.o, [WithParams(o, p) EXCEPT !.snr = [i \in DOMAIN o.life |-> IF o.merged[i] THEN 0 ELSE o.ids[i]]])
        [] OTHER -> objs

\* overwriting has to be allowed
FileEffect(op) ==
  IF op.op # "save" THEN files
  ELSE IF files[FileKey(op.name)] # <<>> /\ ~op.over THEN files ELSE [files EXCEPT ![FileKey(op.name)] = <<objs[op.o]>>]

Init == objs = [i \in Slots |-> Dead] /\ files = [k \in FileKeys |-> <<>>] /\ hist = <<>>
Do(op) == objs' = Effect(op) /\ files' = FileEffect(op) /\ hist' = Append(hist, op)
Kinds == {KindSeq[i] : i \in DOMAIN KindSeq}
NextAll == Len(hist) < Depth /\ \E kind \in Kinds : \E op \in AllOps(kind) : Do(op)
NextRnd ==
  /\ Len(hist) < Depth
  /\ \E kind \in {IF Live = {} THEN "new" ELSE KindSeq[RandomElement(DOMAIN KindSeq)]} :
       LET ops == TLCEval(AllOps(kind)) IN \E op \in (IF ops = {} THEN AllOps(IF Free = {} THEN "drop" ELSE "new") ELSE ops) : Do(op)
Finished == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))

(* ---------------- properties of the machine ---------------- *)
TypeOk == \A i \in Live : LET o == objs[i] IN DOMAIN o.p = {FieldOf(k) : k \in KeySet} /\ Len(o.merged) = N(o) /\ Len(o.ids) = N(o)
CurveMatches == \A i \in Live : LET o == objs[i] IN (o.curve = <<>>) = (~o.interp \/ ~Plottable(o.p)) /\ (o.curve # <<>> => o.curve[1] = o.p)
\* only a loaded collection whose custom function is missing can be without a curve
CurveMissing == \A i \in Live : LET o == objs[i] IN (o.interp /\ o.curve = <<>>) => (o.p.instrument = "custom" /\ o.p.psd = "none")
TolMatches == \A i \in Live : objs[i].tol = objs[i].htol
MergedSpent == \A i \in Live : LET o == objs[i] IN \A k \in 1..N(o) : o.merged[k] => o.life[k] = 0
Aligned == \A i \in Live : LET o == objs[i] IN (o.tm # <<>> => Len(o.tm) = N(o)) /\ (o.snr # <<>> => Len(o.snr) = N(o))
SnrOwn == \A i \in Live : LET o == objs[i] IN o.snr = <<>> \/ \A k \in 1..N(o) : o.snr[k] \in {0, o.ids[k]}
\* merged is permanent; nothing but the objects an operation names changes
LastOp == hist'[Len(hist')]
MergedForever == [][\A i \in Slots : objs[i].live /\ objs'[i].live /\ LastOp.op # "new" => \A k \in 1..N(objs[i]) : objs[i].merged[k] => objs'[i].merged[k]]_vars
OthersUntouched == [][\A i \in Slots : objs'[i] # objs[i] => i = LastOp.o \/ ("to" \in DOMAIN LastOp /\ i = LastOp.to)]_vars
StaleHarmless == [][(LastOp.op \in ParamOps /\ LastOp.via = "handle" /\ objs[LastOp.o].handle = "stale") =>
                      /\ objs'[LastOp.o].p = objs[LastOp.o].p /\ objs'[LastOp.o].curve = objs[LastOp.o].curve]_vars
\* a change of some parameters leaves the others alone, a rejected one leaves everything alone
KeysOf(ch) == {ch[i].k : i \in DOMAIN ch}
Did == objs' # objs
ChangeLocal == [][(LastOp.op \in {"set", "update", "ior"} /\ LastOp.via # "handle") =>
                    \/ objs' = objs
                    \/ ~Unknown(LastOp.ch) /\ \A k \in KeySet \ KeysOf(LastOp.ch) : objs'[LastOp.o].p[FieldOf(k)] = objs[LastOp.o].p[FieldOf(k)]]_vars
NeverRemoved == [][LastOp.op = "remove" => objs' = objs]_vars
\* explicit settings of an SNR calculation persist, the others stay; a second identical calculation changes nothing
SnrPersists == [][(LastOp.op = "snr" /\ objs' # objs) =>
                    LET o == objs'[LastOp.o] IN o.p = Explicit(objs[LastOp.o].p, LastOp.ch) /\ o.p = Explicit(o.p, LastOp.ch)]_vars
SubsetFaithful == [][(LastOp.op = "index" /\ objs' # objs) =>
                    LET o == objs[LastOp.o] IN objs'[LastOp.to].ids = Gather(o.ids, IndexPos(LastOp.idx, N(o))) /\ objs'[LastOp.to].curve = o.curve /\ objs'[LastOp.to].tol = o.tol]_vars
FilesKept == [][\A k \in FileKeys : files'[k] # files[k] => LastOp.op = "save" /\ FileKey(LastOp.name) = k /\ (LastOp.over \/ files[k] = <<>>)]_vars
LoadFaithful == [][(LastOp.op = "load" /\ objs' # objs) =>
                    LET o == objs'[LastOp.o]  w == files[FileKey(LastOp.name)][1]
                    IN  o.life = w.life /\ o.merged = w.merged /\ o.tm = w.tm /\ o.snr = w.snr /\ o.tol = w.tol /\ o.p = StoredParams(w.p)]_vars
EvolveSpends == [][(LastOp.op = "evolve") =>
                    LET b == objs[LastOp.o]  o == objs'[IF LastOp.to = 0 THEN LastOp.o ELSE LastOp.to]
                    IN  \A k \in 1..N(b) : o.life[k] <= b.life[k] /\ (o.merged[k] <=> o.life[k] = 0) /\ (LastOp.to # 0 => objs'[LastOp.o].life = b.life)]_vars
View == <<objs, files, Len(hist)>>
=============================================================================
