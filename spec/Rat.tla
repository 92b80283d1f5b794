---------------------------------- MODULE Rat ----------------------------------
(* Exact rationals <<n, d>> with d > 0 and gcd(n, d) = 1.                        *)
(* <<1, 0>>, <<-1, 0>> are +infinity, -infinity; <<0, 0>> marks a number that    *)
(* the harness could not represent (never produced by the specification).        *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) ==
  IF n = 0 THEN <<0, 1>>
  ELSE LET s == IF d < 0 THEN -1 ELSE 1
           g == Gcd(Abs(n), Abs(d))
       IN <<(s * n) \div g, (s * d) \div g>>

R(n)      == <<n, 1>>
RZero     == <<0, 1>>
ROne      == <<1, 1>>
RInf      == <<1, 0>>
RNegInf   == <<-1, 0>>
RBad      == <<0, 0>>
IsInf(a)  == a[2] = 0
IsRat(a)  == a[2] > 0

RNeg(a)    == <<-a[1], a[2]>>
RAdd(a, b) == IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b
              ELSE LET g == Gcd(a[2], b[2])
                   IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RSgn(a)    == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RMul(a, b) == IF IsInf(a) \/ IsInf(b)
              THEN IF RSgn(a) = 0 \/ RSgn(b) = 0 THEN RBad ELSE <<RSgn(a) * RSgn(b), 0>>
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                   IN Norm((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
RInv(a)    == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b)  == IF a = b THEN FALSE
              ELSE IF a = RNegInf \/ b = RInf THEN TRUE
              ELSE IF a = RInf \/ b = RNegInf THEN FALSE
              ELSE a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a = b \/ RLt(a, b)
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
IsIntR(a)  == a[2] = 1
RAbs(a)    == <<Abs(a[1]), a[2]>>

\* closeness up to a relative or an absolute tolerance
Near(a, b, rel, abs) ==
  \/ a = b
  \/ ~RLt(RMax(RMul(rel, RMax(RAbs(a), RAbs(b))), abs), RAbs(RSub(a, b)))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(s[1], RSumSeq(Tail(s)))
================================================================================
