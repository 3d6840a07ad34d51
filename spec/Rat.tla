------------------------------- MODULE Rat -------------------------------
(***************************************************************************)
(* Exact extended rational arithmetic.                                     *)
(*                                                                         *)
(* A number is a pair <<n, d>>: the rational n/d in lowest terms with      *)
(* d > 0, or <<1, 0>>, <<-1, 0>> (infinities), or <<0, 0>> (NaN).          *)
(* Integers denote themselves.  IEEE doubles are dyadic rationals, so the  *)
(* values recorded from the implementation are numbers in this sense.      *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC evaluates  *)
(* them with big-integer Java code (java/vfx/RatOverrides.java), which     *)
(* also reads numerals "#n/d", "#mbe" (m * 2^e), "#nan", "#inf", "#-inf".  *)
(* spec/RatSelf.tla has TLC compare the Java code with the definitions on  *)
(* an exhaustive small domain.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)

NormR(n, d) ==
  IF d = 0 THEN <<Sgn(n), 0>>
  ELSE IF n = 0 THEN <<0, 1>>
  ELSE LET g == GcdR(Abs(n), Abs(d)) IN <<Sgn(d) * (n \div g), Abs(d) \div g>>

N(a) == IF a \in Int THEN <<a, 1>> ELSE a      \* coercion of an integer
NN(a) == a                                     \* coercion of all numerals inside a value
RIsNum(a) == TRUE
\* "num", "none" (the string "None"), "str", "bool", "rec", "seq" or "other"
RKind(a) == Assert(FALSE, "RKind: Java only")
RIsNaN(a) == N(a) = <<0, 0>>
RIsFin(a) == N(a)[2] # 0
RIsInt(a) == N(a)[2] = 1

RNeg(a) == <<-N(a)[1], N(a)[2]>>
RAbs(a) == <<Abs(N(a)[1]), N(a)[2]>>

RAdd(a, b) ==
  LET x == N(a) y == N(b) IN
  IF x = <<0, 0>> \/ y = <<0, 0>> THEN <<0, 0>>
  ELSE IF x[2] = 0 /\ y[2] = 0 THEN IF x = y THEN x ELSE <<0, 0>>
  ELSE IF x[2] = 0 THEN x
  ELSE IF y[2] = 0 THEN y
  ELSE NormR(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  LET x == N(a) y == N(b) IN
  IF x[2] = 0 \/ y[2] = 0 THEN <<Sgn(x[1]) * Sgn(y[1]), 0>>
  ELSE NormR(x[1] * y[1], x[2] * y[2])
\* division by zero gives a signed infinity or NaN; a finite number over infinity is 0
RDiv(a, b) ==
  LET x == N(a) y == N(b) IN
  IF x = <<0, 0>> \/ y = <<0, 0>> \/ (x[2] = 0 /\ y[2] = 0) THEN <<0, 0>>
  ELSE IF x[2] = 0 THEN <<IF y[1] >= 0 THEN x[1] ELSE -x[1], 0>>
  ELSE IF y[2] = 0 THEN <<0, 1>>
  ELSE NormR(x[1] * y[2], x[2] * y[1])
RQ(a, b) == RDiv(a, b)

LOCAL Cmp(x, y) ==   \* sign of x - y for numbers other than NaN
  IF x[2] = 0 \/ y[2] = 0
  THEN Sgn((IF x[2] = 0 THEN x[1] ELSE 0) - (IF y[2] = 0 THEN y[1] ELSE 0))
  ELSE Sgn(x[1] * y[2] - y[1] * x[2])
LOCAL Ord(x, y) == x # <<0, 0>> /\ y # <<0, 0>>
RLt(a, b) == Ord(N(a), N(b)) /\ Cmp(N(a), N(b)) < 0
RLe(a, b) == Ord(N(a), N(b)) /\ Cmp(N(a), N(b)) <= 0
REq(a, b) == Ord(N(a), N(b)) /\ Cmp(N(a), N(b)) = 0
RSame(a, b) == N(a) = N(b)                     \* as REq, but NaN is the same as NaN
RMin(a, b) == IF ~Ord(N(a), N(b)) THEN <<0, 0>> ELSE IF RLe(a, b) THEN N(a) ELSE N(b)
RMax(a, b) == IF ~Ord(N(a), N(b)) THEN <<0, 0>> ELSE IF RLe(b, a) THEN N(a) ELSE N(b)

\* |a - b| <= at + rt * max(|a|, |b|); equal infinities are close, NaN is close to NaN only
RClose(a, b, rt, at) ==
  LET x == N(a) y == N(b) IN
  IF ~Ord(x, y) THEN x = y
  ELSE IF x[2] = 0 \/ y[2] = 0 THEN x = y
  ELSE RLe(RAbs(RSub(x, y)), RAdd(at, RMul(rt, RMax(RAbs(x), RAbs(y)))))
RSeqClose(s, t, rt, at) ==
  Len(s) = Len(t) /\ \A i \in 1..Len(s) : RClose(s[i], t[i], rt, at)

RFloor(a) == N(a)[1] \div N(a)[2]              \* an integer
RRound(a) ==                                   \* nearest integer, halves to even
  LET f == RFloor(a) r == RSub(a, <<f, 1>>) h == <<1, 2>> IN
  IF RLt(r, h) \/ (REq(r, h) /\ f % 2 = 0) THEN f ELSE f + 1

RECURSIVE RSumTo(_, _)
RSumTo(s, k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(RSumTo(s, k - 1), s[k])
RSum(s) == RSumTo(s, Len(s))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])

\* Real functions: the double nearest (to about 1e-15, relative) to the named
\* real function of the argument.  Java only.
RRd(a) == N(a)                                 \* rounding to a double
RSqrt(a) == Assert(FALSE, "RSqrt: Java only")
RExp(a) == Assert(FALSE, "RExp: Java only")
RLn(a) == Assert(FALSE, "RLn: Java only")
RLog10(a) == Assert(FALSE, "RLog10: Java only")
RPow(a, b) == Assert(FALSE, "RPow: Java only")
RSin(a) == Assert(FALSE, "RSin: Java only")
RCos(a) == Assert(FALSE, "RCos: Java only")
RAtan2(y, x) == Assert(FALSE, "RAtan2: Java only")
RGammaP(a, x) == Assert(FALSE, "RGammaP: Java only")   \* regularised lower incomplete gamma function
RLnGamma(a) == Assert(FALSE, "RLnGamma: Java only")
RPi == Assert(FALSE, "RPi: Java only")
RStr(a) == ToString(a)
RShow(a) == ToString(a)

\* e; or f when TLC cannot evaluate e (a recorded value of an unexpected kind)
RTry(e, f) == e
===========================================================================
