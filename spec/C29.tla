-------------------------------- MODULE C29 --------------------------------
(* Judges recorded histories of the real package's message system.            *)
(* Event: fn = "step", h: operations so far, tty, out lines by destination     *)
EXTENDS LogOps, CheckCore
Dims_ == [x |-> <<1>>]
ValidCase_(c) == TRUE
LawPoints_ == {}
Law_(q) == TRUE
\* the package's own messages: level and number
OwnLevel(how) == CASE how \in {"past", "near"} -> 30 [] how = "random" -> 20 [] how = "smallg" -> 30 [] OTHER -> 40
OwnCount(how) == IF how \in {"random", "near"} THEN 2 ELSE 1
Judge_(ev) ==
  LET k == Len(ev.h)  o == ev.h[k]
      s == After(Fresh(ev.tty), ev.h, k)
      own == o.op = "own"  said == o.op \in {"msg", "own"}
      v == IF own THEN OwnLevel(o.how) ELSE o.v
      times == IF ~said THEN 0 ELSE IF own THEN OwnCount(o.how) ELSE 1
      dup(n) == [i \in 1..(n * times) |-> IF own THEN Prefix(s, v) ELSE Line(s, v, ev.text)]
      udup(n) == [i \in 1..(n * times) |-> IF own THEN "U " \o LevelName(v) ELSE "U " \o LevelName(v) \o ": " \o ev.text]
      rdup(n) == [i \in 1..(n * times) |-> IF own THEN "R " \o LevelName(v) ELSE "R " \o LevelName(v) \o ": " \o ev.text]
  IN  Fails("raises", ev.out.ok)
      \cup Fails("standard output", ev.stdout = dup(IF said THEN OnStdout(s, v) ELSE 0))
      \cup Fails("the user's handler", ev.user = udup(IF said THEN OnUser(s, v) ELSE 0))
      \cup Fails("the root logger", ev.root = rdup(IF said THEN OnRoot(s, v) ELSE 0))
      \cup Fails("standard error", Len(ev.stderr) = (IF said /\ Stranded(s, v) THEN times ELSE 0))
      \cup Fails("handlers", ev.handlers = s.lw + s.us /\ ev.kept /\ ev.roothandlers = s.root)
      \cup Fails("level", ev.level = Eff(s))
      \cup Fails("package logger", ev.same)
=============================================================================
