------------------------------ MODULE TrMatrix -----------------------------
(* Conformance of the dense matrix kernels on integer matrices. *)
EXTENDS MatAlg, TraceBase

IntMat(M, ret) == Len(ret) = Len(M) /\ \A i \in 1..Len(M) : Len(ret[i]) = Len(M[i]) /\ \A j \in 1..Len(M[i]) : ret[i][j] = <<M[i][j], 0>>
LowerMat(M, ret) == Len(ret) = Len(M) /\ \A i \in 1..Len(M) : \A j \in 1..i : ret[i][j] = <<M[i][j], 0>>
IntVec(v, ret) == Len(ret) = Len(v) /\ \A i \in 1..Len(v) : ret[i] = <<v[i], 0>>
Tol(e) == IF e.ct = "float" THEN 2000 ELSE 4
(* M y = b for the recorded y *)
Solves(M, y, b, tol) ==
  Len(y) = Len(M) /\ \A i \in 1..Len(M) : LinNear(M[i], y, b[i], tol * (SumAbs(M[i]) + Abs(b[i]) + 1))
Small(y) == \A k \in 1..Len(y) : SmallObs(y[k])
SmallMat(Y) == \A k \in 1..Len(Y) : Small(Y[k])
RootIs(N, c, o, e) == NearRoot(GramBig(N, c), BigNat(1), o, Tol(e) * (1 + o[1] \div 10))

Kernel(e) ==
  LET A == TLCEval(e.A)
      m == Len(A)
      n == Len(A[1])
      T == TLCEval(ITrans(A))
      Ok(b) == IF b THEN "ok" ELSE e.f
  IN CASE e.f = "AB" -> Ok(IntMat(IMul(A, e.B), e.ret))
       [] e.f = "ATA" -> Ok(IntMat(IMul(T, A), e.ret))
       [] e.f = "Ax" -> Ok(IntVec(IVec(A, e.x), e.ret))
       [] e.f = "ATx" -> Ok(IntVec(IVec(T, e.x), e.ret))
       [] e.f = "ATBT" -> Ok(IntMat(IMul(T, ITrans(e.B)), e.ret))
       [] e.f = "ATA_L" -> Ok(LowerMat(IMul(T, A), e.ret))
       [] e.f = "AAT_L" -> Ok(LowerMat(IMul(A, T), e.ret))
       [] e.f = "AAT" -> Ok(IntMat(IMul(A, T), e.ret))
       [] e.f = "Lx" -> Ok(IntVec(IVec(A, e.x), e.ret))
       [] e.f = "LTx" -> Ok(IntVec(IVec(T, e.x), e.ret))
       [] e.f = "LTL" -> Ok(IntMat(IMul(T, A), e.ret))
       [] e.f = "LLT" -> Ok(IntMat(IMul(A, T), e.ret))
       [] e.f = "detL" -> Ok(NearInt(IDet(A), e.det, Tol(e)))
       [] e.f = "invL" -> Ok(NearInt(IDet(A), e.det, Tol(e)) /\ SmallMat(e.ret)
                             /\ \A j \in 1..m : Solves(A, [i \in 1..m |-> IF i < j THEN <<0, 0>> ELSE e.ret[i][j]], IUnit(m, j), Tol(e)))
       [] e.f = "invLx" -> Ok(Small(e.ret) /\ Solves(A, e.ret, e.x, Tol(e)))
       [] e.f = "invLTx" -> Ok(Small(e.ret) /\ Solves(T, e.ret, e.x, Tol(e)))
       [] e.f = "cholesky_L" -> Ok(e.ok /\ \A i \in 1..m : \A j \in 1..i : NearInt(A[i][j], e.ret[i][j], 10 * Tol(e)))
       [] e.f = "spdDetA" -> Ok(NearInt(IDet(A), e.det, Tol(e) * (1 + Abs(IDet(A)))))
       [] e.f = "spdInvA" -> Ok(/\ NearInt(IDet(A), e.det, Tol(e) * (1 + Abs(IDet(A))))
                                /\ SmallMat(e.ret)
                                /\ LET G == IMul(A, T) IN \A j \in 1..m : Solves(G, [i \in 1..m |-> e.ret[i][j]], IUnit(m, j), 10 * Tol(e)))
       [] e.f = "spdInvAx" -> Ok(e.ok /\ Small(e.ret) /\ Solves(IMul(A, T), e.ret, e.x, 10 * Tol(e)))
       [] e.f = "detATA" -> Ok(IF m >= n THEN RootIs(T, m, e.det, e) ELSE e.det = <<0, 0>>)
       [] e.f = "sqrtDetAAT" -> Ok(IF n >= m THEN RootIs(A, n, e.det, e) ELSE e.det = <<0, 0>>)
       [] e.f = "leftInvA" -> Ok(RootIs(T, m, e.det, e) /\ InverseOk(T, 1, ITransAny(e.ret, m), n, m, e.ct))
       [] e.f = "rightInvA" -> Ok(RootIs(A, n, e.det, e) /\ InverseOk(A, 1, e.ret, m, n, e.ct))
       [] e.f = "leftInvAx" -> Ok(IF ZeroRow(T) THEN ~e.ok
                                  ELSE e.ok /\ Small(e.ret) /\ Solves(IMul(T, A), e.ret, IVec(T, e.x), 10 * Tol(e)))
       [] e.f = "xTRightInvA" -> Ok(IF ZeroRow(A) THEN ~e.ok
                                    ELSE e.ok /\ Small(e.ret) /\ Solves(IMul(A, T), e.ret, IVec(A, e.x), 10 * Tol(e)))
       [] OTHER -> "unknown kernel"
MatVerdict(e) == IF e.op # "mat" THEN "unknown event" ELSE Kernel(e)
=============================================================================
