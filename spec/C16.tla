-------------------------------- MODULE C16 --------------------------------
(* Peters & Mathews (1963): relative power per harmonic, enhancement factor,  *)
(* rate of change of the harmonic frequencies.                                *)
EXTENDS Physics, CheckCore

Dims_ == [ fn |-> <<"peters_g", "peters_g", "peters_g", "gsum", "peters_f", "fn_dot", "fn_dot">>,
           tie |-> <<"no", "no", "no", "f", "e", "m", "d", "pair", "all">>,       \* which quantity is equal for all sources
           shape |-> <<"scalar", "one", "vec", "outer", "outer3", "mat">>,
           ecc |-> <<"zero", "tiny", "low", "mid", "high", "mixed">>,
           harm |-> <<"one", "two", "few", "tens", "hundreds", "thousands">>,
           dtype |-> <<"int", "int64", "int32", "float", "int8", "int16", "uint8", "uint16", "uint32", "uint64">>,
           bad |-> <<"no", "no", "no", "zero", "negative", "fraction">>,
           mass |-> <<"Msun", "kg">>,
           freq |-> <<"Hz", "mHz", "1/yr">> ]
ValidCase_(c) ==
  /\ (c.bad = "fraction" => c.dtype = "float")
  /\ c.bad = "negative" => c.dtype \notin {"uint8", "uint16", "uint32", "uint64"}
  /\ c.fn = "gsum" => c.dtype \notin {"int8", "uint8"}     \* too few harmonics for the sum
  /\ c.fn = "gsum" => c.ecc \notin {"high", "mixed"}

(* laws: at e = 0 only the second harmonic radiates; the harmonics sum to F(e) *)
LawPoints_ == {<<"e0", n>> : n \in 1..12} \cup {<<"sum", e>> : e \in {"0", "0.001", "0.1", "0.3", "0.5", "0.7"}}
Law_(p) ==
  IF p[1] = "e0" THEN Close(PetersG(p[2], Zero), IF p[2] = 2 THEN One ELSE Zero, R("1e-12"), R("1e-15"))
  ELSE LET e == R(p[2])  s == Sum([n \in 1..220 |-> PetersG(n, e)]) IN Close(s, PetersF(e), R("1e-9"), Zero)

GTol == R("1e-7")
Judge_(ev) ==
  LET in == [k \in 1..Len(ev.in) |-> RV(ev.in[k])]
      n == Len(ev.in[1])
      good(F(_)) == LET v == Vals(ev.out) IN \A i \in 1..n : Close(v[i], F(i), IF ev.fn = "peters_g" THEN GTol ELSE Rtol, IF ev.fn = "peters_g" THEN R("1e-22") ELSE Zero)
  IN  IF ev.fn = "fn_dot" /\ (\E i \in 1..n : RLt(in[4][i], One)) THEN Fails("harmonic below one accepted", IsErr(ev.out, "ValueError"))
      ELSE IF ~ev.out.ok THEN {"raises"}
      ELSE Fails("shape", ev.out.shape = ev.shape /\ (ev.fn # "gsum" => Len(ev.out.v) = n))
           \cup Fails("arguments changed", ev.kept = 1)
           \cup Fails("unit", ev.out.unit = IF ev.fn = "fn_dot" THEN "Hz/yr" ELSE "none")
           \cup (IF ev.out.shape # ev.shape THEN {}
                 ELSE CASE ev.fn = "peters_g" -> Fails("value", good(LAMBDA i : PetersG(RInt(in[1][i]), in[2][i])))
                                                  \cup Fails("negative", \A i \in 1..n : RLe(Zero, Vals(ev.out)[i]))
                        [] ev.fn = "peters_f" -> Fails("value", good(LAMBDA i : PetersF(in[1][i])))
                        \* out: the values for harmonics 1..N at one eccentricity
                        [] ev.fn = "gsum" -> Fails("sum", Close(Sum(Vals(ev.out)), PetersF(in[1][1]), R("1e-8"), Zero))
                        [] ev.fn = "fn_dot" -> Fails("value", LET v == Vals(ev.out) IN \A i \in 1..n :
                                                 Close(v[i], (((R("48") ** in[4][i]) // (R("5") ** Pi)) ** ((G ** in[1][i]) ^^ R("5/3"))
                                                      ** ((Two ** Pi ** in[2][i]) ^^ R("11/3")) ** PetersF(in[3][i])) // PowI(C, 5), Rtol, Zero)))
=============================================================================
