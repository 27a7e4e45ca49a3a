---- MODULE Catalogue ----
(***************************************************************************)
(* The benchmark problems: dimension (0 = chosen at creation), input domain,*)
(* fidelities, declared optimum and points, and the published closed form   *)
(* of every objective, fidelity and constraint.                             *)
(***************************************************************************)
EXTENDS Dec

---------------------------------------------------------------------------
(* closed forms                                                              *)
Cube(d) == [k \in 1..d |-> <<"0", "1">>]
Sqr(a) == DSq(a)
S2(a, b) == DAdd(a, b)
S3(a, b, c) == DSum(<<a, b, c>>)
P2(a, b) == DMul(a, b)
P3(a, b, c) == DMul(a, DMul(b, c))

Forr(x) == DMul(Sqr(DSub(DMul(6, x), 2)), DSin(DSub(DMul(12, x), 4)))
ForrHalf(x) == DSum(<<DMul("0.5", Forr(x)), DMul(10, DSub(x, "0.5")), -5>>)

(* Branin on [-5,10]x[0,15] *)
Bran(u, v) ==
    LET b == DDiv("5.1", DMul(4, Sqr(DPi)))
        q == DSum(<<v, DNeg(DMul(b, Sqr(u))), DMul(DDiv(5, DPi), u), -6>>)
    IN DSum(<<Sqr(q), DMul(DMul(10, DSub(1, DInv(DMul(8, DPi)))), DCos(u)), 10>>)
(* the unit-square variant with a linear term *)
BranUnit(x, y) == DAdd(Bran(DSub(DMul(15, x), 5), DMul(15, y)), DMul(5, x))

Gold(x, y) ==
    LET p == DSum(<<19, DMul(-14, x), DMul(3, Sqr(x)), DMul(-14, y), DMul(6, DMul(x, y)), DMul(3, Sqr(y))>>)
        q == DSum(<<18, DMul(-32, x), DMul(12, Sqr(x)), DMul(48, y), DMul(-36, DMul(x, y)), DMul(27, Sqr(y))>>)
    IN DMul(DAdd(1, DMul(Sqr(S3(x, y, 1)), p)), DAdd(30, DMul(Sqr(DSub(DMul(2, x), DMul(3, y))), q)))

Camel(x, y) ==
    DSum(<<DMul(DSum(<<4, DMul("-2.1", Sqr(x)), DDiv(DPowN(x, 4), 3)>>), Sqr(x)), DMul(x, y),
           DMul(DAdd(-4, DMul(4, Sqr(y))), Sqr(y))>>)

Sase(x, y) ==
    DSum(<<2, DMul("0.01", Sqr(DSub(y, Sqr(x)))), Sqr(DSub(1, x)), DMul(2, Sqr(DSub(2, y))),
           DMul(7, DMul(DSin(DMul("0.5", x)), DSin(DMul("0.7", DMul(x, y)))))>>)

H3A == << <<"3", "10", "30">>, <<"0.1", "10", "35">>, <<"3", "10", "30">>, <<"0.1", "10", "35">> >>
H3P == << <<"0.3689", "0.117", "0.2673">>, <<"0.4699", "0.4387", "0.747">>,
          <<"0.1091", "0.8732", "0.5547">>, <<"0.03815", "0.5743", "0.8828">> >>
H6A == << <<"10", "3", "17", "3.5", "1.7", "8">>, <<"0.05", "10", "17", "0.1", "8", "14">>,
          <<"3", "3.5", "1.7", "10", "17", "8">>, <<"17", "8", "0.05", "10", "0.1", "14">> >>
H6P == << <<"0.1312", "0.1696", "0.5569", "0.0124", "0.8283", "0.5886">>,
          <<"0.2329", "0.4135", "0.8307", "0.3736", "0.1004", "0.9991">>,
          <<"0.2348", "0.1451", "0.3522", "0.2883", "0.3047", "0.665">>,
          <<"0.4047", "0.8828", "0.8732", "0.5743", "0.1091", "0.0381">> >>
HartC == <<"1", "1.2", "3", "3.2">>
HartSum(A, P, c, x) ==
    DSum([i \in 1..4 |-> DMul(c[i], DExp(DNeg(DSum([j \in 1..Len(x) |-> DMul(A[i][j], Sqr(DSub(x[j], P[i][j])))]))))])
H6l == <<"0.75", "1", "0.8", "1.3", "0.7", "1.1">>
H3Low(x, y, z) ==
    DSum(<<"0.585", DMul("-0.324", x), DMul("-0.379", y), DMul("-0.431", z), DMul("-0.208", DMul(x, y)),
           DMul("0.326", DMul(x, z)), DMul("0.193", DMul(y, z)), DMul("0.225", Sqr(x)), DMul("0.263", Sqr(y)),
           DMul("0.274", Sqr(z))>>)

RECURSIVE Product(_, _)
Product(s, k) == IF k > Len(s) THEN "1" ELSE DMul(s[k], Product(s, k + 1))
Mean(s) == DDiv(DSum(s), Len(s))
(* p = <<m, beta>>; 2m is an integer here *)
Thev(p, x) ==
    DSub(DExp(DNeg(DSum([k \in 1..Len(x) |-> DPowN(DDiv(x[k], p[2]), DFloor(DMul(2, p[1])))]))),
         DMul(2, DMul(DExp(DNeg(DSum([k \in 1..Len(x) |-> Sqr(x[k])]))),
                      Product([k \in 1..Len(x) |-> Sqr(DCos(x[k]))], 1))))
(* p = <<a, b, c>> *)
Ackl(p, x) ==
    DSum(<<DNeg(DMul(p[1], DExp(DNeg(DMul(p[2], DSqrt(Mean([k \in 1..Len(x) |-> Sqr(x[k])]))))))),
           DNeg(DExp(Mean([k \in 1..Len(x) |-> DCos(DMul(p[3], x[k]))]))), p[1], DExp(1)>>)
Ackl2(x, y) == DMul(-200, DExp(DMul("-0.2", DSqrt(DAdd(Sqr(x), Sqr(y))))))

Boha(x, y) == DSum(<<Sqr(x), DMul(2, Sqr(y)), DMul("-0.3", DCos(DMul(DMul(3, DPi), x))),
                     DMul("-0.4", DCos(DMul(DMul(4, DPi), y))), "0.7">>)
Boot(x, y) == DAdd(Sqr(DSum(<<x, DMul(2, y), -7>>)), Sqr(DSum(<<DMul(2, x), y, -5>>)))
Himm(x, y) == DAdd(Sqr(DSum(<<Sqr(x), y, -11>>)), Sqr(DSum(<<x, Sqr(y), -7>>)))
Curr(x, y) ==
    LET f == IF DLe(y, "1e-8") THEN "1" ELSE DSub(1, DExp(DDiv(-1, DMul(2, y))))
        n == DSum(<<DMul(2300, DPowN(x, 3)), DMul(1900, Sqr(x)), DMul(2092, x), 60>>)
        d == DSum(<<DMul(100, DPowN(x, 3)), DMul(500, Sqr(x)), DMul(4, x), 20>>)
    IN DDiv(DMul(f, n), d)
CurrLow(x, y) ==
    LET s == "0.05" IN
    DDiv(DSum(<<Curr(DAdd(x, s), DAdd(y, s)), Curr(DAdd(x, s), DSub(y, s)), Curr(DSub(x, s), DAdd(y, s)),
                Curr(DSub(x, s), DSub(y, s))>>), 4)
ParkA(x) ==
    DAdd(DDiv(DSub(DSqrt(DAdd(Sqr(x[1]), DMul(DAdd(x[2], Sqr(x[3])), x[4]))), x[1]), 2),
         DMul(DAdd(x[1], DMul(3, x[4])), DExp(DAdd(1, DSin(x[3])))))
ParkB(x) == DSum(<<DMul(DDiv(2, 3), DExp(DAdd(x[1], x[2]))), DNeg(DMul(x[4], DSin(x[3]))), x[3]>>)
Bore(a, b, x) ==
    LET l == DLn(DDiv(x[2], x[1]))
        t == DSum(<<b, DDiv(DMul(2, DMul(x[7], x[3])), DMul(l, DMul(Sqr(x[1]), x[8]))), DDiv(x[3], x[5])>>)
    IN DDiv(DMul(a, DMul(x[3], DSub(x[4], x[6]))), DMul(l, t))
Wave(x, ph) == DSin(DAdd(DMul(DMul(8, DPi), x), ph))

CamelLow(x, y) == DSum(<<Camel(DMul("0.7", x), DMul("0.7", y)), DNeg(DMul(x, y)), -15>>)
BohaLow(x, y) == DAdd(Boha(DMul("0.7", x), y), DSub(DMul(x, y), 12))
BootLow(x, y) == DSum(<<Boot(DMul("0.4", x), y), DMul("1.7", DMul(x, y)), DNeg(x), DMul(2, y)>>)
HimmLow(x, y) == DSum(<<Himm(DMul("0.5", x), DMul("0.8", y)), DPowN(y, 3), DNeg(Sqr(DAdd(x, 1)))>>)
ParkALow(x) == DSum(<<DMul(DAdd(1, DDiv(DSin(x[1]), 10)), ParkA(x)), DMul(-2, x[1]), Sqr(x[2]), Sqr(x[3]), "0.5">>)
DiscLow(x) == DAdd(ForrHalf(x), IF DLe(x, "0.5") THEN 0 ELSE 3)
DiscHigh(x) == DSum(<<IF DLe(x, "0.5") THEN 0 ELSE 4, DMul(2, DiscLow(x)), DMul(-20, x), 20>>)
Cons2(x, y) ==
    LET u == DSub(DMul(2, x), 1)  v == DSub(DMul(2, y), 1)
    IN DSub(6, DSum(<<Camel(u, v), DMul(3, DSin(DMul(6, DSub(1, u)))), DMul(3, DSin(DMul(6, DSub(1, v))))>>))

(* value of fidelity g of class c with parameters p at x                      *)
Value(c, p, g, x) ==
    CASE c \in {"Forrester", "Forrester_1a", "Forrester_1b", "Forrester_1c"} /\ g \in {"f", "hf"} -> Forr(x[1])
      [] c = "Forrester_1a" -> DSub(Forr(x[1]), 5)
      [] c = "Forrester_1b" -> ForrHalf(x[1])
      [] c = "Forrester_1c" -> Forr(DAdd(x[1], "0.2"))
      [] c = "Branin" -> Bran(x[1], x[2])
      [] c = "GoldPrice" -> Gold(x[1], x[2])
      [] c \in {"Sixhump", "mf_Sixhump"} /\ g \in {"f", "hf"} -> Camel(x[1], x[2])
      [] c = "mf_Sixhump" -> CamelLow(x[1], x[2])
      [] c = "Sasena" -> Sase(x[1], x[2])
      [] c \in {"Hartman3", "mf_Hartman3"} /\ g \in {"f", "hf"} -> DNeg(HartSum(H3A, H3P, HartC, x))
      [] c = "mf_Hartman3" -> H3Low(x[1], x[2], x[3])
      [] c \in {"Hartman6", "mf_Hartman6"} /\ g \in {"f", "hf"} -> DNeg(DLn(HartSum(H6A, H6P, HartC, x)))
      [] c = "mf_Hartman6" -> DNeg(DLn(HartSum(H6A, H6P, <<"1.1", "0.8", "2.5", "3">>, [k \in 1..6 |-> DMul(H6l[k], x[k])])))
      [] c = "Thevenot" -> Thev(p, x)
      [] c = "Ackley" -> Ackl(p, x)
      [] c = "AckleyN2" -> Ackl2(x[1], x[2])
      [] c \in {"Branin_1", "Branin_2"} /\ g = "f" -> BranUnit(x[1], x[2])
      [] c = "Branin_1" -> DSub("0.2", DMul(x[1], x[2]))
      [] c = "Branin_2" -> Cons2(x[1], x[2])
      [] c = "mf_Discontinuous" -> IF g = "hf" THEN DiscHigh(x[1]) ELSE DiscLow(x[1])
      [] c = "ContinuousNonlinearCorrelation1D" ->
            IF g = "hf" THEN DMul(Sqr(Wave(x[1], 0)), DSub(x[1], DSqrt(2))) ELSE Wave(x[1], 0)
      [] c = "PhaseShiftedOscillations" ->
            IF g = "hf" THEN DAdd(Sqr(x[1]), Sqr(Wave(x[1], DDiv(DPi, 10)))) ELSE Wave(x[1], 0)
      [] c = "mf_Bohachevsky" -> IF g = "hf" THEN Boha(x[1], x[2]) ELSE BohaLow(x[1], x[2])
      [] c = "mf_Booth" -> IF g = "hf" THEN Boot(x[1], x[2]) ELSE BootLow(x[1], x[2])
      [] c = "mf_Himmelblau" -> IF g = "hf" THEN Himm(x[1], x[2]) ELSE HimmLow(x[1], x[2])
      [] c = "mf_Borehole" -> IF g = "hf" THEN Bore(DMul(2, DPi), 1, x) ELSE Bore(5, "1.5", x)
      [] c = "mf_CurrinExp" -> IF g = "hf" THEN Curr(x[1], x[2]) ELSE CurrLow(x[1], x[2])
      [] c = "mf_Park91A" -> IF g = "hf" THEN ParkA(x) ELSE ParkALow(x)
      [] c = "mf_Park91B" -> IF g = "hf" THEN ParkB(x) ELSE DSub(DMul("1.2", ParkB(x)), 1)

---------------------------------------------------------------------------
(* catalogue                                                                 *)
Box(lo, hi, d) == [k \in 1..d |-> <<lo, hi>>]
E(d, dom, opt, at, fids) == [dim |-> d, dom |-> dom, opt |-> opt, at |-> at, fids |-> fids]
SF == {"f"}
MF == {"hf", "lf"}
CF == {"f", "f_cons"}
F1at == << <<"0.757248757841856">> >>
H3at == << <<"0.114614", "0.555649", "0.852547">> >>
H6at == << <<"0.20168952", "0.15001069", "0.47687398", "0.27533243", "0.31165162", "0.65730054">> >>
H6opt == DNeg(DLn("3.32236801141551"))
SHat == << <<"0.0898", "-0.7126">>, <<"-0.0898", "0.7126">> >>
BranAt == << <<DNeg(DPi), "12.275">>, <<DPi, "2.275">>, <<"9.42478", "2.475">> >>
BoreDom == << <<"0.05", "0.15">>, <<"100", "50000">>, <<"63070", "115600">>, <<"990", "1110">>,
              <<"63.1", "116">>, <<"700", "820">>, <<"1120", "1680">>, <<"9855", "12045">> >>
Entry(c) ==
    CASE c = "Forrester" -> E(1, Cube(1), "-6.020740", F1at, SF)
      [] c \in {"Forrester_1a", "Forrester_1b", "Forrester_1c"} -> E(1, Cube(1), "-6.020740", F1at, MF)
      [] c = "Branin" -> E(2, << <<"-5", "10">>, <<"0", "15">> >>, "0.397887", BranAt, SF)
      [] c = "GoldPrice" -> E(2, Box("-2", "2", 2), "3", << <<"0", "-1">> >>, SF)
      [] c = "Sixhump" -> E(2, << <<"-3", "3">>, <<"-2", "2">> >>, "-1.0316", SHat, SF)
      [] c = "mf_Sixhump" -> E(2, Box("-2", "2", 2), "-1.0316", SHat, MF)
      [] c = "Sasena" -> E(2, Box("0", "5", 2), "-1.4565", << <<"2.5044", "2.5778">> >>, SF)
      [] c = "Hartman3" -> E(3, Cube(3), "-3.86278214782076", H3at, SF)
      [] c = "mf_Hartman3" -> E(3, Cube(3), "-3.86278214782076", H3at, MF)
      [] c = "Hartman6" -> E(6, Cube(6), H6opt, H6at, SF)
      [] c = "mf_Hartman6" -> E(6, Cube(6), H6opt, H6at, MF)
      [] c = "Thevenot" -> E(0, <<>>, "-1", <<>>, SF)
      [] c = "Ackley" -> E(0, <<>>, "0", <<>>, SF)
      [] c = "AckleyN2" -> E(2, Box("-32", "32", 2), "-200", << <<"0", "0">> >>, SF)
      [] c = "Branin_1" -> E(2, Cube(2), "5.5757", << <<"0.96773", "0.20667">> >>, CF)
      [] c = "Branin_2" -> E(2, Cube(2), "12.005", << <<"0.94057", "0.31711">> >>, CF)
      [] c \in {"mf_Discontinuous", "ContinuousNonlinearCorrelation1D", "PhaseShiftedOscillations"} ->
            E(1, Cube(1), "none", <<>>, MF)
      [] c = "mf_Bohachevsky" -> E(2, Box("-5", "5", 2), "0", << <<"0", "0">> >>, MF)
      [] c = "mf_Booth" -> E(2, Box("-10", "10", 2), "0", << <<"1", "3">> >>, MF)
      [] c = "mf_Borehole" -> E(8, BoreDom, "none", <<>>, MF)
      [] c = "mf_CurrinExp" -> E(2, Cube(2), "none", <<>>, MF)
      [] c = "mf_Himmelblau" -> E(2, Box("-4", "4", 2), "none", <<>>, MF)
      [] c \in {"mf_Park91A", "mf_Park91B"} -> E(4, Cube(4), "none", <<>>, MF)

Names == {"Forrester", "Branin", "GoldPrice", "Sixhump", "Sasena", "Hartman3", "Hartman6", "Thevenot", "Ackley",
          "AckleyN2", "Branin_1", "Branin_2", "Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Hartman3",
          "mf_Sixhump", "mf_Hartman6", "mf_Discontinuous", "ContinuousNonlinearCorrelation1D",
          "PhaseShiftedOscillations", "mf_Bohachevsky", "mf_Booth", "mf_Borehole", "mf_CurrinExp", "mf_Himmelblau",
          "mf_Park91A", "mf_Park91B"}
(* classes with a configurable cost of their fidelities, and the default ratio *)
Costed == {"Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Hartman3", "mf_Sixhump", "mf_Hartman6"}
Ratio(c) == IF c = "mf_Hartman6" THEN "10" ELSE "5"
Free == {c \in Names : Entry(c).dim = 0}
(* what an instance of dimension d has to report *)
Domain(c, d) == CASE c = "Thevenot" -> Box(DMul(-2, DPi), DMul(2, DPi), d)
                  [] c = "Ackley" -> Box("-32", "32", d)
                  [] OTHER -> Entry(c).dom
Points(c, d) == IF Entry(c).dim = 0 THEN << [k \in 1..d |-> "0"] >> ELSE Entry(c).at
Sibling(c) == CASE c = "Forrester_1a" -> "Forrester" [] c = "Forrester_1b" -> "Forrester" [] c = "Forrester_1c" -> "Forrester"
                [] c = "mf_Sixhump" -> "Sixhump" [] c = "mf_Hartman3" -> "Hartman3" [] c = "mf_Hartman6" -> "Hartman6"
                [] OTHER -> "none"
====
