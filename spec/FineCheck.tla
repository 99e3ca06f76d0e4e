----------------------------- MODULE FineCheck -----------------------------
(***************************************************************************)
(* Numbers of many digits are written by long division, four digits at a   *)
(* time.  What was written is near to the quotient, to its root from the   *)
(* square and to the inverse of its inverse, and to nothing that differs   *)
(* from it by more than the tolerance.                                     *)
(***************************************************************************)
EXTENDS Fine
CONSTANT FCBound
VARIABLES fcNum, fcRest, fcLimbs
fcVars == <<fcNum, fcRest, fcLimbs>>
FCInit ==
  /\ fcNum \in {Rat(p, q) : p \in -FCBound..FCBound, q \in 1..FCBound}
  /\ fcRest = Abs(fcNum[1]) % fcNum[2]
  /\ fcLimbs = BigNat(Abs(fcNum[1]) \div fcNum[2])
FCPlaces == Len(fcLimbs) - Len(BigNat(Abs(fcNum[1]) \div fcNum[2]))
FCNext ==
  /\ FCPlaces < FineDigits
  /\ fcLimbs' = <<(fcRest * BASE) \div fcNum[2]>> \o fcLimbs
  /\ fcRest' = (fcRest * BASE) % fcNum[2]
  /\ UNCHANGED fcNum
FCSpec == FCInit /\ [][FCNext]_fcVars
FCDone == FCPlaces = FineDigits
FCSign == IF fcNum[1] < 0 THEN -1 ELSE 1
Written == <<FCSign>> \o fcLimbs
Moved(k, d) == <<FCSign>> \o BigAdd(BigTrim(fcLimbs), BigShift(<<d>>, k))
(* truncation lies below the quotient and within one unit *)
Division == LET v == BigTrim(fcLimbs)
                t == BigShift(BigNat(Abs(fcNum[1])), FCPlaces)
            IN BigAdd(BigMul(v, BigNat(fcNum[2])), BigNat(fcRest)) = t /\ fcRest < fcNum[2]
NearItself == FCDone => FNear(fcNum, Written, FTol) /\ FNear(fcNum, Written, <<1>>)
NotNearOthers == FCDone => ~FNear(fcNum, Moved(3, 1), FTol) /\ ~FNear(fcNum, Moved(2, 102), FTol) /\ FNear(fcNum, Moved(2, 98), FTol)
                           /\ (fcNum[1] # 0 => ~FNear(RNeg(fcNum), Written, FTol))
Roots == FCDone /\ FCSign = 1 =>
           /\ FRoot(BigNat(fcNum[1] * fcNum[1]), BigNat(fcNum[2]), Written, FTol)
           /\ (fcNum[1] # 0 => ~FRoot(BigNat(fcNum[1] * fcNum[1] + 1), BigNat(fcNum[2]), Written, FTol) /\ ~FRoot(BigNat(fcNum[1] * fcNum[1]), BigNat(fcNum[2]), Moved(3, 1), FTol))
(* the inverse of the 1 x 1 matrix d/n, and of a column <<d/n, 0>>, is n/d *)
Inverses == FCDone /\ fcNum[1] > 0 =>
              /\ FInverse(<<<<fcNum[2]>>>>, fcNum[1], <<<<Written>>>>, 1, 1, FTol)
              /\ FInverse(<<<<fcNum[2], 0>>>>, fcNum[1], <<<<Written>>, <<<<1>>>>>>, 1, 2, FTol)
              /\ ~FInverse(<<<<fcNum[2], 0>>>>, fcNum[1], <<<<Written>>, <<<<1, 0, 0, 0, 1>>>>>>, 1, 2, FTol)
=============================================================================
