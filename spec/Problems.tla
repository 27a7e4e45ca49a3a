---- MODULE Problems ----
(***************************************************************************)
(* Benchmark problem objects: created, looked at and evaluated in any order.*)
(*                                                                          *)
(*  create  class, dimension, parameters; how it ended                      *)
(*  look    everything an instance reports about itself, through attributes *)
(*          and through accessors                                           *)
(*  eval    one fidelity (or constraint) of one instance on an array; the   *)
(*          values and the shape returned, the input before and after       *)
(*  call    a multi-fidelity instance on a list of designs                  *)
(***************************************************************************)
EXTENDS Catalogue, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
NoState == [objs |-> <<>>, seen |-> <<>>]
Tol(o) == DMul("1e-3", DMax2(1, DAbs(o)))
Same(a, b) == DClose(a, b, "1e-9", "1e-11")
Exact(a, b) == DClose(a, b, "1e-6", "1e-9")
SameRows(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A j \in 1..Len(A[k]) : Same(A[k][j], B[k][j])
Inside(D, x) == Len(x) = Len(D) /\ \A k \in 1..Len(D) : DLe(D[k][1], x[k]) /\ DLe(x[k], D[k][2])
(* the optimum of an instance is what it declares, checked against the        *)
(* catalogue; Ackley and Thevenot evaluate theirs                             *)
OptIs(c, o) == IF Entry(c).opt = "none" THEN o = "none" ELSE o # "none" /\ DFinite(o) /\ DLe(DAbs(DSub(o, Entry(c).opt)), Tol(Entry(c).opt))
PointsAre(P, Q) == Len(P) = Len(Q) /\ \A k \in 1..Len(P) : Len(P[k]) = Len(Q[k]) /\ \A j \in 1..Len(P[k]) : DClose(P[k][j], Q[k][j], "1e-2", "1e-2")

---------------------------------------------------------------------------
Fixed(c) == Entry(c).dim > 0
BadCreate(s, e) ==
    If(e.cost0 = e.cost1, "P03.cost_modified") \cup
    IF e.cls \notin Names THEN {"*.unknown_class"}
    ELSE IF Fixed(e.cls) /\ e.dim # Entry(e.cls).dim THEN If(e.exc = "AssertionError", "P03.dimension_accepted")
    ELSE IF e.exc = "none" THEN {} ELSE {"P01.construction", "P02.construction", "P03.construction", "P04.construction"}
EffCreate(s, e) == [s EXCEPT !.objs = Append(@, [cls |-> e.cls, dim |-> e.dim, par |-> e.par, cost |-> e.cost, ok |-> e.exc = "none",
                                                 looked |-> FALSE, look |-> <<>>])]

(* r: [dim, dom, opt, at, obj, cons, cr]                                      *)
BadReport(o, r) ==
    IF r.exc # "none" THEN {"P03.report_crash"} ELSE
    If(r.dim = o.dim, "P03.dimension")
    \cup If(r.obj = 1 /\ r.cons = (IF "f_cons" \in Entry(o.cls).fids THEN 1 ELSE 0), "P03.counts")
    \cup If(r.domshape = <<o.dim, 2>> /\ SameRows(r.dom, Domain(o.cls, o.dim)), "P03.domain")
    \cup If(OptIs(o.cls, r.opt), "P02.optimum")
    \cup If(r.opt = "none" \/ (r.at # <<>> /\ \A k \in 1..Len(r.at) : Len(r.at[k]) = o.dim), "P03.point_dimension")
    \cup If((r.opt # "none" /\ Len(r.dom) = o.dim) => \A k \in 1..Len(r.at) : Inside(r.dom, r.at[k]), "P02.point_outside")
    \cup If(o.cls \in Costed => r.cr = "none" \/ DClose(r.cr, IF o.cost = <<>> THEN Ratio(o.cls) ELSE DDiv(o.cost[1], o.cost[2]), 0, "0.5"), "P03.cost_ratio")
    \cup If(~o.looked \/ o.look = r, "P03.report_changed")
BadLook(s, e) == LET o == s.objs[e.obj] IN
    BadReport(o, e.attr)
    \cup If(e.attr.exc # "none" \/ (/\ e.acc.exc = "none" /\ e.acc.dim = e.attr.dim /\ e.acc.dom = e.attr.dom
                                    /\ e.acc.opt = e.attr.opt /\ e.acc.at = e.attr.at), "P03.accessors")
EffLook(s, e) == IF s.objs[e.obj].looked THEN s ELSE [s EXCEPT !.objs[e.obj].looked = TRUE, !.objs[e.obj].look = e.attr]

---------------------------------------------------------------------------
(* values of one fidelity g of an object at the rows of X                     *)
Key(o, g, x) == <<o.cls, o.par, g, x>>
Known(s, k) == {i \in 1..Len(s.seen) : s.seen[i].key = k}
(* nothing is feasible but what satisfies the constraints                     *)
Feasible(o, x) == IF "f_cons" \in Entry(o.cls).fids THEN DLe(Value(o.cls, o.par, "f_cons", x), 0) ELSE TRUE
BadValues(s, o, g, X, Y) ==
    LET opt == Entry(o.cls).opt
        at(k) == Value(o.cls, o.par, g, X[k])
    IN
    If(\A k \in 1..Len(X) : DFinite(Y[k][1]), "P01.not_finite")
    \cup If(\A k \in 1..Len(X) : Exact(Y[k][1], at(k)), "P04.formula")
    \cup If(\A k \in 1..Len(X) : \A i \in Known(s, Key(o, g, X[k])) : Same(Y[k][1], s.seen[i].val), "P01.other_points_matter")
    \cup If((g # "hf" \/ Sibling(o.cls) = "none") \/
            \A k \in 1..Len(X) : \A i \in Known(s, <<Sibling(o.cls), <<>>, "f", X[k]>>) : Exact(Y[k][1], s.seen[i].val), "P04.variants_disagree")
    \cup If((g \notin {"f", "hf"} \/ opt = "none" \/ ~o.looked \/ ~DFinite(o.look.opt)) \/
            \A k \in 1..Len(X) : (Inside(o.look.dom, X[k]) /\ DLt(Y[k][1], DSub(o.look.opt, Tol(o.look.opt)))) => ~Feasible(o, X[k]),
            "P02.beaten")
    \cup If((g \notin {"f", "hf"} \/ opt = "none" \/ ~o.looked) \/
            \A k \in 1..Len(X) : (\E j \in 1..Len(o.look.at) : o.look.at[j] = X[k])
                                 => DLe(DAbs(DSub(Y[k][1], o.look.opt)), Tol(o.look.opt)), "P02.not_attained")
    \cup If((g # "f_cons" \/ ~o.looked) \/
            \A k \in 1..Len(X) : (\E j \in 1..Len(o.look.at) : o.look.at[j] = X[k])
                                 => DLe(Y[k][1], "1e-3"), "P02.optimum_infeasible")
Column(X, Y, sh) == sh = <<Len(X), 1>> /\ Len(Y) = Len(X) /\ \A k \in 1..Len(Y) : Len(Y[k]) = 1
Crashed == {"P01.crash", "P02.crash", "P04.crash"}
BadEval(s, e) == LET o == s.objs[e.obj] IN
    If(e.in0 = e.in1, "P01.input_modified")
    \cup (IF e.exc # "none" THEN Crashed
          ELSE IF ~Column(e.X, e.Y, e.shape) THEN {"P01.shape"}
          ELSE BadValues(s, o, e.fid, e.X, e.Y))
Remember(s, o, g, X, Y) ==
    [s EXCEPT !.seen = @ \o [k \in 1..Len(X) |-> [key |-> Key(o, g, X[k]), val |-> Y[k][1]]]]
EffEval(s, e) == LET o == s.objs[e.obj] IN
    IF e.exc # "none" \/ ~Column(e.X, e.Y, e.shape) THEN s ELSE Remember(s, o, e.fid, e.X, e.Y)

(* a list of one or two designs; the first at high fidelity                   *)
Fid(k) == IF k = 1 THEN "hf" ELSE "lf"
BadCall(s, e) == LET o == s.objs[e.obj] IN
    If(e.in0 = e.in1, "P01.input_modified")
    \cup (IF e.exc # "none" THEN Crashed
          ELSE IF ~(Len(e.Y) = Len(e.X) /\ \A k \in 1..Len(e.X) : Column(e.X[k], e.Y[k], e.shape[k])) THEN {"P01.call"}
          ELSE UNION {BadValues(s, o, Fid(k), e.X[k], e.Y[k]) : k \in 1..Len(e.X)})
EffCall(s, e) == s

Bad(s, e) == CASE e.op = "crash" -> {"*.crash"}
               [] e.op = "create" -> BadCreate(s, e)
               [] e.op = "look" -> BadLook(s, e)
               [] e.op = "eval" -> BadEval(s, e)
               [] e.op = "call" -> BadCall(s, e)
Eff(s, e) == CASE e.op = "create" -> EffCreate(s, e)
               [] e.op = "look" -> EffLook(s, e)
               [] e.op = "eval" -> EffEval(s, e)
               [] e.op = "call" -> EffCall(s, e)
               [] OTHER -> s
====
