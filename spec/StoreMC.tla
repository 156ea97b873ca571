------------------------------ MODULE StoreMC ------------------------------
(* Instances of SourceStore: one mix of operations per property (Profile).     *)
EXTENDS SourceStore
CONSTANT Profile
R2(k) == <<k, k>>
R3(k) == <<k, k, k>>
Params == <<"set", "update", "ior", "assign">>
KindSeq_ ==
  CASE Profile = "C01" -> <<"new", "drop", "settol", "mergertime", "remove">> \o R3("set") \o R3("update") \o R2("ior") \o R3("assign") \o R2("keep") \o R2("index") \o R2("snr")
                            \o R2("evolve") \o <<"save", "load", "load", "switchsc", "read", "poke">>
    [] Profile = "C02" -> <<"new", "drop", "index", "evolve", "save", "load", "snr", "switchsc">> \o R3("set") \o R3("update") \o R2("ior") \o R3("assign") \o R2("setdefault") \o R3("remove") \o R3("read") \o <<"keep">>
    [] Profile = "C03" -> <<"new", "new", "drop", "index", "index", "evolve", "evolve", "save", "load", "load", "forbidden", "read", "snr">> \o R3("settol") \o R3("settol")
    [] Profile = "C04" -> <<"new", "new", "new", "drop", "drop", "index", "evolve", "save", "load", "poke", "mergertime">> \o R3("setattr") \o R3("setattr") \o R3("forbidden")
    [] Profile = "C05" -> <<"new", "new", "drop", "drop", "drop", "drop", "drop", "evolve", "snr", "snr", "mergertime", "setattr", "set", "settol">> \o R3("index") \o R3("index") \o R3("index")
    [] Profile = "C06" -> <<"new", "new", "drop", "drop", "set", "update", "assign", "keep", "settol", "setattr", "save", "load", "load", "snr", "snr", "mergertime", "strain", "read", "evolve", "evolve", "evolve", "plot", "plot">>
                            \o R3("index") \o R3("index") \o R3("poke") \o R3("poke") \o R3("poke")
    [] Profile = "C07" -> <<"new", "new", "drop", "drop", "drop", "set", "update", "assign", "settol", "setattr", "snr", "snr", "mergertime", "evolve", "evolve", "index", "switchsc">> \o R3("save") \o R3("save") \o R3("load") \o R3("load")
    [] Profile = "C08" -> <<"new", "new", "drop", "drop", "drop", "set", "assign", "snr", "evolve">> \o R3("save") \o R3("save") \o R3("load") \o R3("load")
    [] Profile = "C09" -> <<"new", "new", "drop", "drop", "index", "mergertime", "mergertime", "snr", "settol", "setattr", "load", "save">> \o R3("evolve") \o R3("evolve") \o R3("evolve")
    [] Profile = "C10" -> <<"new", "new", "drop", "drop", "index", "index", "save", "load">> \o R3("evolve") \o R3("evolve") \o R3("snr") \o R3("strain") \o R3("mergertime")
    [] Profile = "C11" -> <<"new", "new", "new", "drop", "drop", "index", "evolve", "evolve", "evolve", "set", "settol", "setattr", "mergertime", "load", "save">> \o R3("snr") \o R3("snr") \o R3("snr") \o R3("snr")
    [] Profile = "C12" -> <<"new", "new", "drop", "drop", "index", "set", "assign", "switchsc", "keep", "update", "load", "save">> \o R3("snr") \o R3("snr") \o R3("snr") \o R3("snr")
    [] Profile = "C28" -> <<"new", "new", "drop", "drop", "index", "index", "evolve", "save", "load", "load", "set">> \o R3("setg") \o R3("strain") \o R3("snr") \o R2("strain")
\* the same kinds, exhaustively: every index instead of one kind of index
KindSeqAll == [i \in DOMAIN KindSeq_ |-> IF KindSeq_[i] = "index" THEN "indexall" ELSE KindSeq_[i]]
=============================================================================
