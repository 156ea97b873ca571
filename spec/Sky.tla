-------------------------------- MODULE Sky --------------------------------
(* Directions in the coordinate frames a sky position can be given in. *)
EXTENDS Physics

\* rotation of a direction into the ecliptic (J2000; astropy's true ecliptic differs by the nutation, some 1e-4 rad)
Vec(lon, lat) == <<RCos(lat) ** RCos(lon), RCos(lat) ** RSin(lon), RSin(lat)>>
Obl == R("0.40909280422232897")
FromEq(v) == <<v[1], (RCos(Obl) ** v[2]) ++ (RSin(Obl) ** v[3]), (RCos(Obl) ** v[3]) -- (RSin(Obl) ** v[2])>>
GalM == <<RV(<<"-0.0548755604", "0.4941094279", "-0.8676661490">>), RV(<<"-0.8734370902", "-0.4448296300", "-0.1980763734">>), RV(<<"-0.4838350155", "0.7469822445", "0.4559837762">>)>>
FromGal(v) == FromEq([i \in 1..3 |-> Sum([k \in 1..3 |-> GalM[i][k] ** v[k]])])
ToEcl(frame, v) == CASE frame \in {"icrs", "fk5"} -> FromEq(v) [] frame = "galactic" -> FromGal(v) [] OTHER -> v
Apart(u, v) == RSqrt(Sum([k \in 1..3 |-> Sq(u[k] -- v[k])]))
=============================================================================
