-------------------------------- MODULE C30 --------------------------------
(* The verification binaries (source.py): the published catalogue as a          *)
(* collection.                                                                  *)
EXTENDS Sky, CheckCore

\* Kupfer+18, tables 1 and 2: label, f_GW [mHz], galactic longitude and latitude [deg], masses [Msun], inclination [deg], distance [pc], SNR
Catalogue == <<
  <<"HM Cnc", "6.22", "206.9246", "23.3952", "0.55", "0.27", "38.0", "5000.0", "211.1">>,
  <<"V407 Vul", "3.51", "57.7281", "6.4006", "0.8", "0.177", "60.0", "1786.0", "169.7">>,
  <<"ES Cet", "3.22", "168.9684", "-65.8632", "0.8", "0.161", "60.0", "1584.0", "154.3">>,
  <<"SDSS J135154.46?064309.0", "2.12", "328.5021", "53.124", "0.8", "0.1", "60.0", "1317.0", "21.8">>,
  <<"AM CVn", "1.94", "140.2343", "78.9382", "0.68", "0.125", "43.0", "299.0", "101.2">>,
  <<"SDSS J190817.07+394036.4", "1.84", "70.6664", "13.9349", "0.8", "0.085", "10.0", "1044.0", "20.3">>,
  <<"HP Lib", "1.81", "325.0561", "32.5467", "0.49", "0.048", "26.0", "276.0", "43.7">>,
  <<"PTF1 J191905.19+481506.2", "1.48", "79.5945", "15.5977", "0.8", "0.066", "60.0", "1338.0", "4.0">>,
  <<"CXOGBS J175107.6?294037", "1.45", "359.9849", "-1.4108", "0.8", "0.064", "60.0", "971.0", "4.5">>,
  <<"CR Boo", "1.36", "340.9671", "66.4884", "0.67", "0.044", "30.0", "337.0", "21.9">>,
  <<"V803 Cen", "1.25", "309.3671", "20.7262", "0.78", "0.059", "12.0", "347.0", "26.2">>,
  <<"SDSS J065133.34+284423.4", "2.61", "186.9277", "12.6886", "0.247", "0.49", "86.9", "933.0", "90.1">>,
  <<"SDSS J093506.92+441107.0", "1.68", "176.0796", "47.3376", "0.312", "0.75", "60.0", "645.0", "44.9">>,
  <<"SDSS J163030.58+423305.7", "0.84", "67.076", "43.3604", "0.298", "0.76", "60.0", "1019.0", "4.6">>,
  <<"SDSS J092345.59+302805.0", "0.51", "195.8199", "44.7754", "0.275", "0.76", "60.0", "299.0", "5.6">>,
  <<"CD?30 11223", "0.47", "322.4875", "28.9379", "0.54", "0.79", "82.9", "337.0", "4.9">> >>
Num(i, k) == R(Catalogue[i][k])
Deg == Pi // R("180")
Parsec == R("3.0856775814913674e16")
NVB == Len(Catalogue)

\* what happened to an earlier instance, and what is asked of this one
Dims_ == [ pre |-> <<"none", "change", "scale", "labels", "evolve", "snr", "settings", "merge">>,
           ask |-> <<"fields", "snr", "snr", "strain", "merger", "mask", "evolve", "save", "plot">>,
           inst |-> <<"omit", "LISA", "TianQin", "DECIGO">>,
           t |-> <<"omit", "given">>,
           noise |-> <<"omit", "none", "robson19", "huang20">>,
           harm |-> <<"one", "few">>,
           which |-> <<"all", "mask">> ]
ValidCase_(c) == TRUE
(* laws: the catalogue is a set of circular detached or accreting binaries in the LISA band, every direction is a unit vector *)
LawPoints_ == 1..NVB
Law_(i) ==
  /\ RLt(Num(i, 2), R("10")) /\ RLt(Zero, Num(i, 2)) /\ RLe(Num(i, 5) ++ Num(i, 6), R("1.4"))
  /\ Close(Apart(ToEcl("galactic", Vec(Num(i, 3) ** Deg, Num(i, 4) ** Deg)), <<Zero, Zero, Zero>>), One, R("1e-9"), Zero)
  /\ \A k \in 1..NVB : k # i => Catalogue[k][1] # Catalogue[i][1]

T_ == R("1e-9")
Judge_(ev) ==
  IF ev.fn = "calc"
  THEN Fails("differs from an ordinary collection",
             /\ ev.out.ok = ev.ref.ok
             /\ ev.out.ok => /\ ev.out.shape = ev.ref.shape /\ ev.out.unit = ev.ref.unit
                             /\ \A k \in DOMAIN ev.out.v : IF ev.out.kind \in {"b", "i"} THEN ev.out.v[k] = ev.ref.v[k] ELSE Close(R(ev.out.v[k]), R(ev.ref.v[k]), T_, Zero))
       \cup Fails("raises", ev.out.ok)
  ELSE IF ~ev.out.ok THEN {"raises"}
  ELSE LET o == ev.o
           val(x, k, fac) == Len(x) = NVB /\ \A i \in 1..NVB : Close(R(x[i]), Num(i, k) ** fac, T_, Zero)
       IN  Fails("number of sources", o.n = NVB /\ o.len = NVB)
           \cup Fails("labels", o.labels = [i \in 1..NVB |-> Catalogue[i][1]])
           \cup Fails("published SNR", val(o.true, 9, One))
           \cup Fails("masses", val(o.m1, 5, Msun) /\ val(o.m2, 6, Msun))
           \cup Fails("distance", val(o.dist, 8, Parsec))
           \cup Fails("orbital frequency", val(o.f, 2, R("0.0005")))
           \cup Fails("inclination", val(o.inc, 7, Deg))
           \cup Fails("circular", o.ecc = [i \in 1..NVB |-> "0.0"])
           \cup Fails("polarisation", Len(o.pol) = NVB /\ \A i \in 1..NVB : RLe(Zero, R(o.pol[i])) /\ RLe(R(o.pol[i]), Pi ++ T_) /\ o.pol[i] # o.other[i])
           \cup (IF Len(o.lon) # NVB \/ Len(o.lat) # NVB THEN {"direction"}
                 ELSE Fails("direction", o.frame = "barycentrictrueecliptic" /\ \A i \in 1..NVB :
                        RLe(Apart(Vec(R(o.lon[i]), R(o.lat[i])), ToEcl("galactic", Vec(Num(i, 3) ** Deg, Num(i, 4) ** Deg))), R("3e-4"))))
           \cup Fails("dominant harmonic", o.msh = [i \in 1..NVB |-> 2])
           \cup Fails("nothing computed yet", o.merged = [i \in 1..NVB |-> 0] /\ o.snr = "none" /\ o.t_merge = "none" /\ o.weights = "none")
           \cup Fails("default settings", o.settings = <<"LISA", "none", "auto", "auto", "False", "auto">>)
=============================================================================
