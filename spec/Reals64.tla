------------------------------ MODULE Reals64 ------------------------------
(* Real arithmetic for TLC.  A real is an opaque value holding an IEEE double; *)
(* the operators below are primitive and are evaluated by java/Reals64.java.   *)
(* Every formula of the specification is TLA+ built from these primitives.     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R(s) == CHOOSE x : TRUE             \* literal: "1.5", "6.67e-11", "5/3", "inf", "nan"
RI(n) == CHOOSE x : TRUE            \* integer to real
RV(seq) == CHOOSE x : TRUE          \* sequence of literals to sequence of reals
RStr(x) == CHOOSE y : TRUE          \* decimal representation
RInt(x) == CHOOSE y : TRUE          \* nearest integer
a ++ b == CHOOSE x : TRUE
a -- b == CHOOSE x : TRUE
a ** b == CHOOSE x : TRUE
a // b == CHOOSE x : TRUE
a ^^ b == CHOOSE x : TRUE
Sq(a) == CHOOSE x : TRUE
PowI(a, n) == CHOOSE x : TRUE
Neg(a) == CHOOSE x : TRUE
RAbs(a) == CHOOSE x : TRUE
RSqrt(a) == CHOOSE x : TRUE
RExp(a) == CHOOSE x : TRUE
RLn(a) == CHOOSE x : TRUE
RLog10(a) == CHOOSE x : TRUE
RSin(a) == CHOOSE x : TRUE
RCos(a) == CHOOSE x : TRUE
RTanh(a) == CHOOSE x : TRUE
RMin(a, b) == CHOOSE x : TRUE
RMax(a, b) == CHOOSE x : TRUE
RCeil(a) == CHOOSE x : TRUE
RLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
REq(a, b) == CHOOSE x \in BOOLEAN : TRUE
IsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
IsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
Close(a, b, rtol, atol) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= atol + rtol max(|a|,|b|)
CloseV(a, b, rtol, atol) == CHOOSE x \in BOOLEAN : TRUE  \* same, elementwise, equal lengths
Sum(f) == CHOOSE x : TRUE           \* of a sequence of reals
ArgMax(f) == CHOOSE x : TRUE        \* first index of the maximum
MaxV(f) == CHOOSE x : TRUE
MinV(f) == CHOOSE x : TRUE
BesselJ(n, x) == CHOOSE y : TRUE    \* J_n(x), integer order
TableSpline(name, x) == CHOOSE y : TRUE   \* cubic spline through a table of data/
PickInts(n, m, seed) == CHOOSE y : TRUE   \* n distinct pseudo-random integers of 1..m

BalancedPick(n, m, seed, salt) == CHOOSE y : TRUE  \* n integers of 1..m, evenly used, shuffled

RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
Zero == R("0")
One == R("1")
Two == R("2")
Half == R("0.5")
Pi == R("3.141592653589793")
=============================================================================
