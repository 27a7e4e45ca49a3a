---- MODULE ProblemsMC ----
(***************************************************************************)
(* Design model of the benchmark problems: instances of a few classes are    *)
(* created (with right and wrong dimensions), looked at, evaluated at points *)
(* of a small set, called; each evaluation is a function of class,           *)
(* parameters, fidelity and point only.  The assumptions below check the     *)
(* catalogue itself: declared optima against the closed forms.               *)
(***************************************************************************)
EXTENDS Problems
CONSTANTS Classes, MaxObjs, MaxOps, Grid
VARIABLES st, ops
vars == <<st, ops>>

Par(c) == CASE c = "Ackley" -> {<<"20", "0.2", "6.283185307179586">>, <<"5", "0.2", "2">>}
            [] c = "Thevenot" -> {<<"2", "4.5">>} [] OTHER -> {<<>>}
DimsOf(c) == IF Fixed(c) THEN {Entry(c).dim, Entry(c).dim + 1} ELSE {1, 2}
Creates == { [op |-> "create", cls |-> c, dim |-> d, par |-> p, cost |-> <<>>, cost0 |-> "k", cost1 |-> "k",
              exc |-> IF Fixed(c) /\ d # Entry(c).dim THEN "AssertionError" ELSE "none"]
             : c \in Classes, d \in 1..3, p \in UNION {Par(c) : c \in Classes} }
GoodCreate(e) == e.dim \in DimsOf(e.cls) /\ e.par \in Par(e.cls)
Report(o) == [exc |-> "none", dim |-> o.dim, dom |-> Domain(o.cls, o.dim), domshape |-> <<o.dim, 2>>,
              opt |-> Entry(o.cls).opt, at |-> IF Entry(o.cls).opt = "none" THEN <<>> ELSE Points(o.cls, o.dim),
              obj |-> 1, cons |-> IF "f_cons" \in Entry(o.cls).fids THEN 1 ELSE 0, cr |-> IF o.cls \in Costed THEN Ratio(o.cls) ELSE "none"]
Looks == { [op |-> "look", obj |-> k, attr |-> Report(st.objs[k]), acc |-> Report(st.objs[k])] : k \in {k \in 1..Len(st.objs) : st.objs[k].ok} }
(* two points of each domain: an optimum (or the lower corner) and the centre *)
PointsOf(o) ==
    LET D == Domain(o.cls, o.dim) IN
    << IF Entry(o.cls).opt = "none" THEN [k \in 1..o.dim |-> D[k][1]] ELSE Points(o.cls, o.dim)[1],
       [k \in 1..o.dim |-> DDiv(DAdd(D[k][1], D[k][2]), 2)] >>
Val(o, g, x) == << Value(o.cls, o.par, g, x) >>
Ev(k, g, X) == LET o == st.objs[k] IN
    [op |-> "eval", obj |-> k, fid |-> g, X |-> X, Y |-> [i \in 1..Len(X) |-> Val(o, g, X[i])], shape |-> <<Len(X), 1>>,
     exc |-> "none", in0 |-> "i", in1 |-> "i"]
Evals == UNION { LET P == PointsOf(st.objs[k]) IN { Ev(k, g, X) : g \in Entry(st.objs[k].cls).fids, X \in { <<P[1]>>, <<P[2], P[1]>> } }
                 : k \in {k \in 1..Len(st.objs) : st.objs[k].ok} }
Call(k) == LET o == st.objs[k]  P == PointsOf(o)  X == << <<P[2]>>, P >> IN
    [op |-> "call", obj |-> k, X |-> X, Y |-> [f \in 1..2 |-> [i \in 1..Len(X[f]) |-> Val(o, Fid(f), X[f][i])]],
     shape |-> [f \in 1..2 |-> <<Len(X[f]), 1>>], exc |-> "none", in0 |-> "i", in1 |-> "i"]
Calls == { Call(k) : k \in {k \in 1..Len(st.objs) : st.objs[k].ok /\ Entry(st.objs[k].cls).fids = MF} }
Allowed == IF ops = MaxOps THEN {} ELSE
           (IF Len(st.objs) < MaxObjs THEN {e \in Creates : GoodCreate(e)} ELSE {}) \cup Looks \cup Evals \cup Calls
Init == st = NoState /\ ops = 0
Next == \E e \in Allowed : st' = Eff(st, e) /\ ops' = ops + 1
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Conform == \A e \in Allowed : Bad(st, e) = {}
Off(v) == DAdd(v, DMax2("1e-3", DMul("1e-3", DAbs(v))))
Mutants(e) ==
    CASE e.op = "create" -> IF e.exc = "none" THEN { [e EXCEPT !.exc = "ValueError"], [e EXCEPT !.cost1 = "m"] } ELSE { [e EXCEPT !.exc = "none"], [e EXCEPT !.exc = "TypeError"] }
      [] e.op = "look" -> (IF st.objs[e.obj].cls \in Costed THEN { [e EXCEPT !.attr.cr = "6"] } ELSE {}) \cup { [e EXCEPT !.attr.dim = @ + 1], [e EXCEPT !.acc.dim = @ + 1], [e EXCEPT !.attr.domshape = <<9, 2>>],
                            [e EXCEPT !.attr.dom[1][2] = DAdd(@, 1)], [e EXCEPT !.acc.dom[1][1] = DSub(@, 1)], [e EXCEPT !.attr.exc = "X"],
                            [e EXCEPT !.acc.exc = "X"], [e EXCEPT !.attr.cons = 2], [e EXCEPT !.acc.opt = "77"] }
                          \cup (IF e.attr.opt = "none" THEN { [e EXCEPT !.attr.opt = "1", !.acc.opt = "1"] } ELSE
                                { [e EXCEPT !.attr.opt = "none", !.acc.opt = "none"], [e EXCEPT !.attr.opt = DAdd(@, 1), !.acc.opt = DAdd(e.acc.opt, 1)],
                                  [e EXCEPT !.attr.at[1][1] = "1e9", !.acc.at[1][1] = "1e9"], [e EXCEPT !.attr.at[1] = <<>>, !.acc.at[1] = <<>>] })
                          \cup (IF st.objs[e.obj].looked /\ e.attr.opt # "none"
                                THEN { [e EXCEPT !.attr.opt = DAdd(@, "1e-9"), !.acc.opt = DAdd(e.acc.opt, "1e-9")] } ELSE {})
      [] e.op = "eval" -> { [e EXCEPT !.Y[Len(e.Y)][1] = Off(@)], [e EXCEPT !.Y[1][1] = "nan"], [e EXCEPT !.Y[1][1] = DSub(@, 50)],
                            [e EXCEPT !.shape = <<Len(e.X)>>], [e EXCEPT !.in1 = "j"], [e EXCEPT !.exc = "ValueError"], [e EXCEPT !.Y = Tail(@)] }
                          \cup (IF Len(e.Y) = 2 /\ ~Exact(e.Y[1][1], e.Y[2][1]) THEN { [e EXCEPT !.Y = <<@[2], @[1]>>] } ELSE {})
      [] e.op = "call" -> { [e EXCEPT !.Y[1][1][1] = Off(@)], [e EXCEPT !.Y[2][2][1] = Off(@)], [e EXCEPT !.Y = <<@[1]>>], [e EXCEPT !.in1 = "j"],
                            [e EXCEPT !.shape[2] = <<2>>], [e EXCEPT !.exc = "ValueError"] }
Rejects == \A e \in Allowed : \A m \in Mutants(e) : Bad(st, m) # {}
(* values are a function of class, parameters, fidelity and point             *)
InvFunction == \A i, k \in 1..Len(st.seen) : st.seen[i].key = st.seen[k].key => st.seen[i].val = st.seen[k].val
InvDims == \A k \in 1..Len(st.objs) : st.objs[k].looked => st.objs[k].look.dim = st.objs[k].dim /\ Len(st.objs[k].look.dom) = st.objs[k].dim
Stable == [][\A k \in 1..Len(st.objs) : /\ st'.objs[k].cls = st.objs[k].cls /\ st'.objs[k].dim = st.objs[k].dim
                                        /\ (st.objs[k].looked => st'.objs[k].look = st.objs[k].look)]_vars

---------------------------------------------------------------------------
(* the catalogue itself: declared points lie in the domain, are feasible,     *)
(* attain the declared optimum; no feasible grid point beats it               *)
Declared == {c \in Names : Entry(c).opt # "none"}
HighOf(c) == IF "f" \in Entry(c).fids THEN "f" ELSE "hf"
AnyPar(c) == CASE c = "Ackley" -> <<"20", "0.2", DMul(2, DPi)>> [] c = "Thevenot" -> <<"5", "15">> [] OTHER -> <<>>
DimOf(c) == IF Fixed(c) THEN Entry(c).dim ELSE 2
ASSUME \A c \in Declared : \A k \in 1..Len(Points(c, DimOf(c))) :
         LET x == Points(c, DimOf(c))[k] IN
         /\ Inside(Domain(c, DimOf(c)), x)
         /\ "f_cons" \in Entry(c).fids => DLe(Value(c, AnyPar(c), "f_cons", x), "1e-3")
         /\ DLe(DAbs(DSub(Value(c, AnyPar(c), HighOf(c), x), Entry(c).opt)), Tol(Entry(c).opt))
GridPoint(c, g) == LET D == Domain(c, DimOf(c)) IN
    [k \in 1..DimOf(c) |-> DAdd(D[k][1], DDiv(DMul(g[k], DSub(D[k][2], D[k][1])), Grid))]
ASSUME \A c \in {c \in Declared : DimOf(c) <= 2} : \A g \in [1..DimOf(c) -> 0..Grid] :
         LET x == GridPoint(c, g) IN
         DLt(Value(c, AnyPar(c), HighOf(c), x), DSub(Entry(c).opt, Tol(Entry(c).opt)))
            => ("f_cons" \in Entry(c).fids /\ DLt(0, Value(c, AnyPar(c), "f_cons", x)))
ASSUME \A c \in Names : Sibling(c) # "none" =>
         \A g \in {[k \in 1..DimOf(c) |-> (j + k) % 5] : j \in 0..4} : LET x == GridPoint(c, g) IN Exact(Value(c, <<>>, "hf", x), Value(Sibling(c), <<>>, "f", x))
====
