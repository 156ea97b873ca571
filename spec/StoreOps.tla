------------------------------ MODULE StoreOps ------------------------------
(* The operations on collections of sources (source.py): what each one does   *)
(* to the observation parameters, the interpolated curve, the cached          *)
(* functions, the per-source bookkeeping, and when it is rejected.            *)
(* Shared by the state machine (SourceStore) and the trace judge (StoreJudge).*)
EXTENDS Noise, FiniteSets, TLC

(* ---------------- observation parameters ---------------- *)
Keys == <<"instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise">>
KeySet == {Keys[i] : i \in 1..6}
Defaults == [instrument |-> "LISA", psd |-> "none", t |-> "auto", L |-> "auto", approx |-> FALSE, noise |-> "auto"]
FieldOf(k) == CASE k = "instrument" -> "instrument" [] k = "custom_psd" -> "psd" [] k = "t_obs" -> "t" [] k = "L" -> "L"
                [] k = "approximate_R" -> "approx" [] k = "confusion_noise" -> "noise"
\* ch: sequence of [k |-> key, v |-> value]; later entries win, as in a dictionary
Unknown(ch) == \E i \in DOMAIN ch : ch[i].k \notin KeySet
RECURSIVE WithAll(_, _)
WithAll(p, ch) == IF ch = <<>> THEN p ELSE WithAll([p EXCEPT ![FieldOf(Head(ch).k)] = Head(ch).v], Tail(ch))

\* whether a curve can be made for the parameters
Plottable(p) == SettingsAllowed(p)
\* the curve of a collection with parameters p: <<the parameters it is made for>> or <<>>
CurveOf(interp, p) == IF interp /\ Plottable(p) THEN <<p>> ELSE <<>>

\* outcome of changing the parameters of a collection: error class ("" accepted, "any" some error) and the parameters after
ChangeTo(p, p2, interp) ==
  IF interp /\ p2 # p /\ ~Plottable(p2) THEN [err |-> "any", p |-> p] ELSE [err |-> "", p |-> p2]
ApplyParams(op, p, interp) ==
  CASE op.op \in {"set", "update", "ior"} -> IF Unknown(op.ch) THEN [err |-> "KeyError", p |-> p] ELSE ChangeTo(p, WithAll(p, op.ch), interp)
    [] op.op = "assign" -> IF Unknown(op.ch) THEN [err |-> "KeyError", p |-> p] ELSE ChangeTo(p, WithAll(Defaults, op.ch), interp)
    [] op.op = "setdefault" -> IF Unknown(op.ch) THEN [err |-> "KeyError", p |-> p] ELSE [err |-> "", p |-> p]
    [] op.op = "remove" -> [err |-> "TypeError", p |-> p]
ParamOps == {"set", "update", "ior", "assign", "setdefault", "remove"}
\* explicit settings of an SNR calculation are remembered, the others stay as stored
Explicit(p, ch) == WithAll(p, ch)

(* ---------------- indexing ---------------- *)
\* idx: [kind, v...]; the positions (1-based) that numpy indexing selects from n entries, or an error class
Norm(i, n) == IF i < 0 THEN i + n ELSE i
RECURSIVE SliceFrom(_, _, _)
SliceFrom(i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>> ELSE <<i + 1>> \o SliceFrom(i + step, stop, step)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* a and b: <<>> when omitted
SliceIdx(a, b, s, n) ==
  IF s > 0 THEN SliceFrom(IF a = <<>> THEN 0 ELSE Clip(Norm(a[1], n), 0, n), IF b = <<>> THEN n ELSE Clip(Norm(b[1], n), 0, n), s)
  ELSE SliceFrom(IF a = <<>> THEN n - 1 ELSE Clip(Norm(a[1], n), -1, n - 1), IF b = <<>> THEN -1 ELSE Clip(Norm(b[1], n), -1, n - 1), s)
RECURSIVE Where(_, _)
Where(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] THEN <<i>> ELSE <<>>) \o Where(m, i + 1)
IndexErr(x, n) ==
  CASE x.kind \in {"int", "npint"} -> IF x.v[1] < -n \/ x.v[1] >= n THEN "IndexError" ELSE ""
    [] x.kind \in {"list", "array", "tuple"} -> IF \E i \in DOMAIN x.v : x.v[i] < -n \/ x.v[i] >= n THEN "IndexError" ELSE ""
    [] x.kind \in {"mask", "masklist"} -> IF Len(x.m) # n \/ (x.kind = "masklist" /\ n = 0) THEN "ValueError" ELSE ""   \* (an empty list selects nothing)
    [] x.kind \in {"float", "string", "floats", "none"} -> "ValueError"
    [] OTHER -> ""
IndexPos(x, n) ==
  CASE x.kind \in {"int", "npint"} -> <<Norm(x.v[1], n) + 1>>
    [] x.kind \in {"list", "array", "tuple"} -> [i \in DOMAIN x.v |-> Norm(x.v[i], n) + 1]
    [] x.kind \in {"mask", "masklist"} -> Where(x.m, 1)
    [] x.kind = "slice" -> SliceIdx(x.a, x.b, x.s, n)
    [] x.kind = "copy" -> [i \in 1..n |-> i]
Gather(s, pos) == [k \in DOMAIN pos |-> s[pos[k]]]

(* ---------------- files ---------------- *)
\* .h5 is appended when there is no HDF5 extension
FileKey(name) == IF name \in {"A.h5", "B.hdf5"} THEN name ELSE name \o ".h5"
\* what a file keeps of the parameters: custom functions become the default
CustomNoise == {"cnA", "cnB"}
StoredParams(p) == [p EXCEPT !.psd = "none", !.noise = IF @ \in CustomNoise THEN "auto" ELSE @]
\* a curve that is asked for has to be possible (a custom instrument may get its function later)
LoadedInterp(sc, saved) == CASE sc = "on" -> TRUE [] sc = "off" -> FALSE [] OTHER -> saved
LoadPossible(p, interp) == ~interp \/ Plottable(p) \/ (p.instrument = "custom" /\ p.psd = "none")
Loadable(op, o) == LoadPossible(StoredParams(o.p), LoadedInterp(op.sc, o.interp))
\* the base class restores the saved class when it has the same constructor, another class is the one called on
LoadedClass(via, saved) == IF via # "Source" THEN via ELSE IF saved \in {"Stationary", "Evolving"} THEN saved ELSE "Source"
=============================================================================
