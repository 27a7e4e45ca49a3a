---- MODULE Dec ----
(* Decimal reals, represented as strings ("-1.25e-3"), 50 significant       *)
(* digits.  TLC evaluates the operators in java/Dec.java; integers are      *)
(* accepted as well.  "inf", "-inf", "nan" are values (any other text counts*)
(* as nan): comparisons with nan are FALSE, arithmetic on non-finite values *)
(* is "nan".                                                                *)
EXTENDS Integers, Sequences

DLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
DLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
DEq(a, b) == CHOOSE r \in BOOLEAN : TRUE
DFinite(a) == CHOOSE r \in BOOLEAN : TRUE
DAdd(a, b) == CHOOSE r \in STRING : TRUE
DSub(a, b) == CHOOSE r \in STRING : TRUE
DMul(a, b) == CHOOSE r \in STRING : TRUE
DDiv(a, b) == CHOOSE r \in STRING : TRUE
DSqrt(a) == CHOOSE r \in STRING : TRUE
DExp(a) == CHOOSE r \in STRING : TRUE
DLn(a) == CHOOSE r \in STRING : TRUE
DSin(a) == CHOOSE r \in STRING : TRUE
DCos(a) == CHOOSE r \in STRING : TRUE
DPhi(a) == CHOOSE r \in STRING : TRUE      \* standard normal distribution function
DPi == CHOOSE r \in STRING : TRUE
DFix(v) == v                              \* the same value, evaluated at once
DSum(s) == CHOOSE r \in STRING : TRUE
DDot(s, t) == CHOOSE r \in STRING : TRUE
DFloor(a) == CHOOSE r \in Int : TRUE
(* x with A x = b; IsSolution below is what it means and is asserted where used *)
DSolve(A, b) == CHOOSE x \in Seq(STRING) : TRUE
DDet(A) == CHOOSE r \in STRING : TRUE     \* determinant

---------------------------------------------------------------------------
(* derived *)
DNeg(a) == DSub(0, a)
DGt(a, b) == DLt(b, a)
DGe(a, b) == DLe(b, a)
DMax2(a, b) == IF DLt(a, b) THEN b ELSE a
DMin2(a, b) == IF DLt(b, a) THEN b ELSE a
DAbs(a) == IF DLt(a, 0) THEN DNeg(a) ELSE a
DSq(a) == DMul(a, a)
DInv(a) == DDiv(1, a)
RECURSIVE DPowN(_, _)
DPowN(a, n) == IF n = 0 THEN "1" ELSE IF n = 1 THEN a ELSE
               LET h == DPowN(a, n \div 2) IN IF n % 2 = 0 THEN DSq(h) ELSE DMul(a, DSq(h))
(* a^y for a > 0 *)
DPow(a, y) == IF DEq(a, 0) THEN "0" ELSE DExp(DMul(y, DLn(a)))
DTenTo(y) == DExp(DMul(y, DLn(10)))
Dpdf(a) == DDiv(DExp(DDiv(DSq(a), -2)), DSqrt(DMul(2, DPi)))
(* |a - b| <= atol + rtol * |b| *)
DClose(a, b, rtol, atol) ==
    /\ DFinite(a) /\ DFinite(b)
    /\ DLe(DAbs(DSub(a, b)), DAdd(atol, DMul(rtol, DAbs(b))))

(* minimum of a non-empty sequence of reals, and the positions attaining it *)
RECURSIVE DMinFrom(_, _, _)
DMinFrom(s, k, m) == IF k > Len(s) THEN m ELSE DMinFrom(s, k + 1, DMin2(m, s[k]))
DMinSeq(s) == DMinFrom(s, 2, s[1])
RECURSIVE DMaxFrom(_, _, _)
DMaxFrom(s, k, m) == IF k > Len(s) THEN m ELSE DMaxFrom(s, k + 1, DMax2(m, s[k]))
DMaxSeq(s) == DMaxFrom(s, 2, s[1])

(* vectors and matrices are sequences (of rows) *)
VAdd(u, v) == [k \in 1..Len(u) |-> DAdd(u[k], v[k])]
VSub(u, v) == [k \in 1..Len(u) |-> DSub(u[k], v[k])]
VScale(c, u) == [k \in 1..Len(u) |-> DMul(c, u[k])]
MatVec(A, v) == [i \in 1..Len(A) |-> DDot(A[i], v)]
Transpose(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
IsSolution(A, x, b) == \A i \in 1..Len(A) : DClose(DDot(A[i], x), b[i], "1e-25", "1e-25")
====
