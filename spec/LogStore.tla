------------------------------ MODULE LogStore ------------------------------
(* Histories of imports, user configuration and messages.                     *)
EXTENDS LogOps, TLC, Json
CONSTANTS Depth, Levels, MaxUser, Own
VARIABLES s, hist, tty
vars == <<s, hist, tty>>
Imported == \E i \in DOMAIN hist : hist[i].op = "import"
O(op) == [op |-> op, v |-> 0, how |-> "none"]
Ops ==
  (IF Imported THEN {O("again"), O("reload")} \cup (IF s.lw + s.us > 0 THEN {O("reloadall")} ELSE {}) \cup {[op |-> "own", v |-> 0, how |-> w] : w \in Own} ELSE {O("import")})
  \cup {[op |-> "msg", v |-> l, how |-> w] : l \in Levels, w \in {"plain", "args"}}
  \cup {[op |-> "level", v |-> l, how |-> w] : l \in Levels \cup {0}, w \in (IF Imported THEN {"legwork", "logging"} ELSE {"logging"})}
  \cup {[op |-> "root", v |-> l, how |-> "none"] : l \in Levels}
  \cup {[op |-> "disable", v |-> l, how |-> "none"] : l \in {0, 20, 30, 40}}
  \cup (IF s.us < MaxUser THEN {O("user")} ELSE {})
  \cup {O("clear"), O("switch")}
Init == tty \in BOOLEAN /\ s = Fresh(tty) /\ hist = <<>>
Do(o) == s' = Step(s, o) /\ hist' = Append(hist, o) /\ UNCHANGED tty
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o)
Kinds == <<"msg", "msg", "msg", "msg", "own", "own", "import", "again", "reload", "reloadall", "level", "level", "level", "root", "user", "user", "disable", "clear", "switch">>
NextRnd == Len(hist) < Depth /\ \E k \in {Kinds[RandomElement(DOMAIN Kinds)]} :
             LET c == TLCEval({o \in Ops : o.op = k}) IN \E o \in {RandomElement(IF c = {} THEN Ops ELSE c)} : Do(o)
Finished == Len(hist) = Depth => PrintT(ToJson([h |-> hist, tty |-> tty]))
(* ---- properties of the machine ---- *)
AtMostOne == s.lw <= 1
Cleared == \E i \in DOMAIN hist : hist[i].op = "clear"
Visible == (Imported /\ ~Cleared) => s.lw + s.us >= 1
\* a message is never shown twice on stdout, and with the package's own handler never reaches the root logger
NeverTwice == \A l \in Levels : OnStdout(s, l) <= 1
Attached == s.lw = 1
RootFree == Attached => \A l \in Levels : OnRoot(s, l) = 0
Suppressed == \A l \in Levels : (l < Eff(s) \/ l <= s.off) => OnStdout(s, l) + OnUser(s, l) + OnRoot(s, l) = 0
Folded == s = After(Fresh(tty), hist, Len(hist))
LastOp == hist'[Len(hist')]
ImportIdle == [][LastOp.op \in {"again", "reload", "reloadall"} /\ s.lw + s.us > 0 => s' = s]_vars
UserKept == [][LastOp.op \in {"import", "again", "reload", "reloadall"} => s'.us = s.us /\ (s.us > 0 => s' = s)]_vars
View == <<s, Imported, Cleared, Len(hist)>>
=============================================================================
