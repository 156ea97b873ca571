------------------------------- MODULE LogOps -------------------------------
(* The message system: the logger named LEGWORK, what each operation does to  *)
(* it and where a message appears.                                            *)
EXTENDS Integers, Sequences
\* lw: handlers the package has attached, us: handlers the user has attached, root: the root logger has a handler
Fresh(tty) == [lw |-> 0, us |-> 0, level |-> 0, prop |-> TRUE, root |-> 0, rlevel |-> 30, off |-> 0, tty |-> tty]
\* importing (again): a handler is attached only when there is none
Attach(s) == IF s.lw + s.us = 0 THEN [s EXCEPT !.lw = 1, !.level = 20, !.prop = FALSE] ELSE s
Step(s, o) ==
  CASE o.op \in {"import", "again", "reload", "reloadall"} -> Attach(s)
    [] o.op = "user" -> [s EXCEPT !.us = @ + 1]
    [] o.op = "clear" -> [s EXCEPT !.lw = 0, !.us = 0]
    [] o.op = "level" -> [s EXCEPT !.level = o.v]
    [] o.op = "root" -> [s EXCEPT !.root = 1, !.rlevel = o.v]
    [] o.op = "switch" -> [s EXCEPT !.tty = ~@]          \* standard output redirected: terminal to file or back
    [] o.op = "disable" -> [s EXCEPT !.off = o.v]
    [] OTHER -> s
RECURSIVE After(_, _, _)
After(s, h, k) == IF k = 0 THEN s ELSE Step(After(s, h, k - 1), h[k])
Eff(s) == IF s.level = 0 THEN s.rlevel ELSE s.level
Shown(s, v) == v >= Eff(s) /\ v > s.off
OnStdout(s, v) == IF Shown(s, v) THEN s.lw ELSE 0
OnUser(s, v) == IF Shown(s, v) THEN s.us ELSE 0
OnRoot(s, v) == IF Shown(s, v) /\ s.prop THEN s.root ELSE 0
\* without any handler python itself shows warnings on stderr
Stranded(s, v) == Shown(s, v) /\ v >= 30 /\ s.lw + s.us = 0 /\ ~(s.prop /\ s.root = 1)
LevelName(v) == CASE v = 10 -> "debug" [] v = 20 -> "info" [] v = 30 -> "warning" [] v = 40 -> "error" [] v = 50 -> "critical" [] v = 25 -> "level 25" [] v = 35 -> "level 35"
\* "^[" is the escape character
Style(v) == "^[[1m" \o (CASE v = 30 -> "^[[33m" [] v \in {40, 50} -> "^[[31m" [] OTHER -> "")
Prefix(s, v) == IF s.tty THEN Style(v) \o "LEGWORK " \o LevelName(v) \o "^[[0m" ELSE "LEGWORK " \o LevelName(v)
Line(s, v, text) == Prefix(s, v) \o ": " \o text
=============================================================================
