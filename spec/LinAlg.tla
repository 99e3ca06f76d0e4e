------------------------------- MODULE LinAlg ------------------------------
(* Exact integer linear algebra against recorded floating point answers. *)
EXTENDS Num

Lcm(a, b) == (a \div Gcd(a, b)) * b
(* least common denominator of a rational matrix, and the integer numerators *)
MatDen(J) == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA b, q : Lcm(b, q[2]), acc, row), 1, J)
MatNum(J, D) == TLCEval([i \in DOMAIN J |-> TLCEval([k \in DOMAIN J[i] |-> J[i][k][1] * (D \div J[i][k][2])])])

(* |sum of N_k * o_k - t| <= tol * 10^-9, for integers |N_k| < 200000, t; the observations have nine decimals *)
LinNear(N, o, t, tol) ==
  LET n == Len(N)
      s0 == SumSeq([k \in 1..n |-> N[k] * (o[k][2] % 1000)])
      s1 == SumSeq([k \in 1..n |-> N[k] * ((o[k][2] \div 1000) % 1000)]) + (s0 \div 1000)
      s2 == SumSeq([k \in 1..n |-> N[k] * (o[k][2] \div 1000000)]) + (s1 \div 1000)
      si == SumSeq([k \in 1..n |-> N[k] * o[k][1]]) + (s2 \div 1000) - t
      r  == (s2 % 1000) * 1000000 + (s1 % 1000) * 1000 + (s0 % 1000)
  IN \/ si = 0 /\ r <= tol
     \/ si = -1 /\ GIGA - r <= tol
SmallObs(o) == Abs(o[1]) < 10000
SumAbs(N) == SumSeq([k \in 1..Len(N) |-> Abs(N[k])])

(* sum of the squared m x m minors of the m x c integer matrix N: the Gram determinant *)
ColumnSets(m, c) == {s \in [1..m -> 1..c] : \A i \in 1..(m - 1) : s[i] < s[i + 1]}
(* signed numbers of any size: <<sign, magnitude>> *)
SB(n) == IF n < 0 THEN <<-1, BigNat(-n)>> ELSE <<1, BigNat(n)>>
SBAdd(a, b) ==
  IF a[1] = b[1] THEN <<a[1], BigAdd(a[2], b[2])>>
  ELSE IF BigCmp(a[2], b[2]) >= 0 THEN <<a[1], BigSub(a[2], b[2])>> ELSE <<b[1], BigSub(b[2], a[2])>>
SBMul(a, b) == <<a[1] * b[1], BigMul(a[2], b[2])>>
RECURSIVE SBDet(_)
SBDet(M) ==
  IF Len(M) = 0 THEN SB(1)
  ELSE IF Len(M) = 1 THEN SB(M[1][1])
  ELSE FoldLeft(LAMBDA acc, j :
         IF M[1][j] = 0 THEN acc
         ELSE SBAdd(acc, SBMul(SB(IF j % 2 = 1 THEN M[1][j] ELSE -M[1][j]), SBDet(IMinor(M, 1, j)))),
         SB(0), [j \in 1..Len(M) |-> j])
MaxEntry(M) == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA b, x : Max2(b, Abs(x)), acc, row), 0, M)
SmallEntries == <<2000000000, 30000, 700, 90>>       \* bounds under which a determinant fits into 32 bits
AbsDet(M) == IF Len(M) <= 4 /\ (Len(M) = 0 \/ MaxEntry(M) <= SmallEntries[Len(M)])
             THEN BigNat(Abs(IDet(M))) ELSE SBDet(M)[2]
GramBig(N, c) ==
  LET m == Len(N)
      Sel == SetToSeq(ColumnSets(m, c))
  IN FoldLeft(LAMBDA acc, s :
         LET d == AbsDet(TLCEval([i \in 1..m |-> [j \in 1..m |-> N[i][s[j]]]]))
         IN BigAdd(acc, BigMul(d, d)), <<>>, Sel)
RECURSIVE BigPow(_, _)
BigPow(b, k) == IF k = 0 THEN BigNat(1) ELSE BigMul(BigNat(b), BigPow(b, k - 1))
(* (o * S)^2 = G up to tol * 10^-9 in o; G and S natural numbers of any size *)
NearRoot(G, S, o, tol) ==
  /\ o[1] >= 0
  /\ LET V == BigMul(ObsBig(o), S)
         T == BigMul(BigNat(tol), S)
         rhs == BigMul(BigMul(G, BigNat(GIGA)), BigNat(GIGA))
     IN BigLeq(BigDist(BigMul(V, V), rhs), BigMul(BigAdd(BigMulSmall(V, 2), T), T))
(* (o * sqrt(G))^2 = S^2 up to tol * 10^-9 in o *)
NearInvRoot(G, S, o, tol) ==
  /\ o[1] >= 0
  /\ LET V == ObsBig(o)
         rhs == BigMul(BigMul(BigMul(S, S), BigNat(GIGA)), BigNat(GIGA))
     IN BigLeq(BigDist(BigMul(BigMul(V, V), G), rhs), BigMul(BigMul(BigAdd(BigMulSmall(V, 2), BigNat(tol)), BigNat(tol)), G))

(* tolerance in units of 10^-9 for a value of the given magnitude *)
TolFor(ct, mag) == IF ct = "float" THEN 400 * (mag + 1) ELSE 4 + mag \div 100

Transposed(M, cols) == [j \in 1..cols |-> [i \in 1..Len(M) |-> M[i][j]]]
MaxAbsObs(vs) == FoldLeft(LAMBDA acc, v : FoldLeft(LAMBDA b, o : Max2(b, Abs(o[1]) + 1), acc, v), 0, vs)

(* the inverse: Jt * JIT = 1 and JIT * Jt symmetric, which characterises the pseudo-inverse *)
InverseOk(N, D, jit, m, c, ct) ==
  /\ Len(jit) = c
  /\ \A a \in 1..c : Len(jit[a]) = m /\ \A j \in 1..m : SmallObs(jit[a][j])
  /\ \A i, j \in 1..m :
       LET row == N[i]
           col == [a \in 1..c |-> jit[a][j]]
       IN LinNear(row, col, IF i = j THEN D ELSE 0, (IF ct = "float" THEN 500 ELSE 4) * (SumAbs(row) + D))
  /\ m < c => \A a, b \in 1..c :
       a < b => LET co == [j \in 1..m |-> N[j][b]] \o [j \in 1..m |-> -N[j][a]]
                    ob == [j \in 1..m |-> jit[a][j]] \o [j \in 1..m |-> jit[b][j]]
                IN LinNear(co, ob, 0, (IF ct = "float" THEN 500 ELSE 4) * (SumAbs(co) + D))
=============================================================================
