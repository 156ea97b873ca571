----------------------------- MODULE CheckCore -----------------------------
(* Two uses of one specification module M (extending this one):              *)
(*  - GenInit/GenNext: TLC checks the laws of the specification on a grid of  *)
(*    points and emits the call cases that the driver then runs on the code;  *)
(*  - JudgeInit/JudgeNext: TLC consumes the recorded events, each judged by   *)
(*    M's total verdict (the set of clauses of the specification it breaks).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Reals64

CONSTANTS Seed, NCases, Shards,
          Dims,          \* record: dimension name -> sequence of its classes
          ValidCase(_),  \* which combinations make sense
          LawPoints,     \* finite set on which Law must hold
          Law(_),        \* the specification's own consistency
          Judge(_)       \* event -> set of names of broken clauses

VARIABLES phase, pos, item
vars == <<phase, pos, item>>

Picks == [d \in DOMAIN Dims |-> BalancedPick(NCases, Len(Dims[d]), Seed, d)]
CaseNo(i) == [d \in DOMAIN Dims |-> Dims[d][Picks[d][i]]]
GenInit ==
  \/ phase = "law" /\ pos = 0 /\ item \in LawPoints
  \/ phase = "case" /\ pos \in 1..NCases /\ item = CaseNo(pos)
GenNext ==
  /\ phase = "case"
  /\ phase' = IF ValidCase(item) THEN "emitted" ELSE "skipped"
  /\ ValidCase(item) => PrintT(ToJson([id |-> pos, c |-> item]))
  /\ UNCHANGED <<pos, item>>
Lawful == phase = "law" => Law(item)

Trace == ndJsonDeserialize(IOEnv.TRACE)
JudgeInit == phase = "judge" /\ pos \in 1..Shards /\ item = 0
JudgeNext ==
  /\ phase = "judge"
  /\ pos <= Len(Trace)
  /\ LET bad == IF Trace[pos].fn = "crash" THEN {"not an outcome of the specification"} ELSE IF Trace[pos].fn = "skip" THEN {} ELSE Judge(Trace[pos])
     IN  bad = {} \/ PrintT(ToJson([ev |-> pos, bad |-> bad]))
  /\ pos' = pos + Shards
  /\ UNCHANGED <<phase, item>>

(* ---------------- helpers shared by the judges ---------------- *)
Fails(name, ok) == IF ok THEN {} ELSE {name}
Rtol == R("1e-9")
\* output encodings: [ok |-> TRUE, v |-> literals (SI, flattened), shape |-> ints, unit |-> name] or [ok |-> FALSE, err |-> class]
IsErr(o, cls) == ~o.ok /\ o.err = cls
Vals(o) == RV(o.v)
=============================================================================
