-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic used by every other module: integers, rationals <<n,d>>*)
(* in lowest terms with d > 0, natural numbers of any size as sequences of *)
(* base-10^4 limbs, integer matrices, and the comparison of an exact value *)
(* with a recorded floating point answer.                                  *)
(*                                                                         *)
(* A recorded answer v is the pair <<I,F>> with I = floor(v) and           *)
(* F = round((v-I) * 10^9), 0 <= F < 10^9.  TLC integers have 32 bits; all *)
(* components stay below 2^31.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Bit(x, i) == (x \div Pow(2, i)) % 2

----------------------------------------------------------------------------
(* Rationals *)
Rat(n, d) ==
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
RAdd(a, b) ==
  LET g == Gcd(a[2], b[2])
  IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(a[1]), b[2])
           h == Gcd(Abs(b[1]), a[2])
       IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RAbs(a) == <<Abs(a[1]), a[2]>>
RSum(s) == FoldLeft(RAdd, <<0, 1>>, s)
RLeq(a, b) == RSub(a, b)[1] <= 0

(* Rational vectors and matrices (sequences of rows) *)
VAdd(u, v) == [i \in DOMAIN u |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> RSub(u[i], v[i])]
VScale(c, u) == [i \in DOMAIN u |-> RMul(c, u[i])]
VDot(u, v) == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VZero(n) == [i \in 1..n |-> <<0, 1>>]
MVec(M, v) == [i \in 1..Len(M) |-> VDot(M[i], v)]
MTrans(M, cols) == [j \in 1..cols |-> [i \in 1..Len(M) |-> M[i][j]]]
MMul(A, B, cols) == [i \in 1..Len(A) |-> [j \in 1..cols |->
                       RSum([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])])]]
RMinor(M, i, j) ==
  LET n == Len(M)
  IN TLCEval([a \in 1..(n-1) |-> [b \in 1..(n-1) |->
        M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]])
RECURSIVE RDet(_)
RDet(M) ==
  IF Len(M) = 0 THEN <<1, 1>>
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE RSum([j \in 1..Len(M) |->
         LET t == IF M[1][j][1] = 0 THEN <<0, 1>>
                  ELSE RMul(M[1][j], RDet(RMinor(M, 1, j)))
         IN IF j % 2 = 1 THEN t ELSE RNeg(t)])
(* Inverse of a regular square matrix by cofactors *)
RInverse(M) ==
  LET n == Len(M)
      det == RDet(M)
  IN [i \in 1..n |-> [j \in 1..n |->
        LET c == RDet(RMinor(M, j, i))
        IN RDiv(IF (i + j) % 2 = 0 THEN c ELSE RNeg(c), det)]]
(* Gram matrix A A^T of the rows of A *)
Gram(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> VDot(A[i], A[j])]]

----------------------------------------------------------------------------
(* Integer determinants *)
IMinor(M, i, j) ==
  LET n == Len(M)
  IN TLCEval([a \in 1..(n-1) |-> [b \in 1..(n-1) |->
        M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]])
RECURSIVE IDet(_)
IDet(M) ==
  IF Len(M) = 0 THEN 1
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE SumSeq([j \in 1..Len(M) |->
         IF M[1][j] = 0 THEN 0
         ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * IDet(IMinor(M, 1, j))])
IDot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])

----------------------------------------------------------------------------
(* Natural numbers of any size: little endian sequences of limbs < 10^4,   *)
(* without a zero limb at the end; <<>> is zero.                           *)
BASE == 10000
RECURSIVE BigNat(_)
BigNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BigNat(n \div BASE)
RECURSIVE BigTrim(_)
BigTrim(s) == IF s = <<>> THEN s
              ELSE IF s[Len(s)] = 0 THEN BigTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Limb(a, i) == IF i <= Len(a) /\ i >= 1 THEN a[i] ELSE 0
(* propagate carries of a sequence of naturals < 2^31 - 2^18 *)
BigCarry(s) ==
  LET r == FoldLeft(LAMBDA acc, x :
                      LET t == x + acc[1] IN <<t \div BASE, Append(acc[2], t % BASE)>>,
                    <<0, <<>>>>, s)
  IN BigTrim(r[2] \o BigNat(r[1]))
BigAdd(a, b) == BigCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
BigMulSmall(a, k) == BigCarry([i \in 1..Len(a) |-> a[i] * k])      \* k < 2*10^5
BigMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BigCarry([k \in 1..(Len(a) + Len(b) - 1) |->
         LET lo == Max2(1, k + 1 - Len(b))
             hi == Min2(k, Len(a))
         IN SumSeq([i \in 1..(hi - lo + 1) |-> a[lo + i - 1] * b[k + 1 - (lo + i - 1)]])])
RECURSIVE BigCmpAt(_, _, _)
BigCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE BigCmpAt(a, b, i - 1)
BigCmp(a, b) ==
  IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE BigCmpAt(a, b, Len(a))
(* a - b for a >= b *)
BigSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET t == a[i] - Limb(b, i) - acc[1]
                      IN IF t < 0 THEN <<1, Append(acc[2], t + BASE)>>
                                  ELSE <<0, Append(acc[2], t)>>,
                    <<0, <<>>>>, [i \in 1..Len(a) |-> i])
  IN BigTrim(r[2])
BigDist(a, b) == IF BigCmp(a, b) >= 0 THEN BigSub(a, b) ELSE BigSub(b, a)
BigLeq(a, b) == BigCmp(a, b) <= 0
BigShift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a    \* times 10^(4k)

----------------------------------------------------------------------------
(* Comparison of exact values with recorded answers *)
GIGA == 1000000000
IsObs(o) == o \in Seq(Int) /\ Len(o) = 2 /\ o[2] >= 0 /\ o[2] < GIGA
(* first nine decimals of r/d, 0 <= r < d *)
Frac9(r, d) ==
  IF d < 2097000 THEN
    LET r1 == r * 1000   a == r1 \div d
        r2 == (r1 % d) * 1000  b == r2 \div d
        r3 == (r2 % d) * 1000  c == r3 \div d
    IN a * 1000000 + b * 1000 + c
  ELSE IF d < 21400000 THEN
    LET st(acc, i) == LET t == acc[2] * 100 IN <<acc[1] * 100 + t \div d, t % d>>
        q == FoldLeft(st, <<0, r>>, <<1, 2, 3, 4>>)
    IN q[1] * 10 + (q[2] * 10) \div d
  ELSE
    LET st(acc, i) == LET t == acc[2] * 10 IN <<acc[1] * 10 + t \div d, t % d>>
    IN FoldLeft(st, <<0, r>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)[1]
(* observed o equals the rational q up to tol * 10^-9 *)
Near(q, o, tol) ==
  LET i == q[1] \div q[2]
      f == Frac9(q[1] % q[2], q[2])
  IN \/ o[1] = i     /\ Abs(o[2] - f) <= tol
     \/ o[1] = i + 1 /\ (GIGA - f) + o[2] <= tol
     \/ o[1] = i - 1 /\ (GIGA - o[2]) + f <= tol
NearInt(n, o, tol) == Near(<<n, 1>>, o, tol)
NearVec(qs, os, tol) ==
  Len(os) = Len(qs) /\ \A k \in 1..Len(qs) : Near(qs[k], os[k], tol)
NearMat(qs, os, tol) ==
  Len(os) = Len(qs) /\ \A k \in 1..Len(qs) : NearVec(qs[k], os[k], tol)
(* the observed nonnegative value in units of 10^-9, exactly *)
ObsBig(o) == BigAdd(BigMul(BigNat(o[1]), BigNat(GIGA)), BigNat(o[2]))
(* o^2 = q up to the effect of tol * 10^-9 on o *)
NearSqrt(q, o, tol) ==
  /\ o[1] >= 0
  /\ LET V  == ObsBig(o)
         D  == BigNat(q[2])
         lhs == BigMul(BigMul(V, V), D)
         rhs == BigMul(BigMul(BigNat(q[1]), BigNat(GIGA)), BigNat(GIGA))
         err == BigMul(BigMul(BigAdd(BigMulSmall(V, 2), BigNat(tol)), BigNat(tol)), D)
     IN BigLeq(BigDist(lhs, rhs), err)
=============================================================================
