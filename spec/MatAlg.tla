------------------------------- MODULE MatAlg ------------------------------
(* Integer matrices as sequences of rows. *)
EXTENDS LinAlg
ITransAny(M, cols) == [j \in 1..cols |-> [i \in 1..Len(M) |-> M[i][j]]]
ITrans(M) == TLCEval(ITransAny(M, Len(M[1])))
IMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                 SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])])])
IVec(A, x) == TLCEval([i \in 1..Len(A) |-> IDot(A[i], x)])
IUnit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
IEye(n) == [i \in 1..n |-> IUnit(n, i)]
ZeroRow(M) == \E i \in 1..Len(M) : \A j \in 1..Len(M[i]) : M[i][j] = 0
(* adjugate: A * Adj(A) = det(A) * 1 *)
Adj(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |->
            (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * IDet(IMinor(M, j, i))]])
=============================================================================
