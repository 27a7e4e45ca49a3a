---- MODULE ModelsGen ----
(* Sessions with surrogate models.  Mode "walk": drawn by TLC's simulator;    *)
(* "parts": trend bases and kernels on their own, drawn as well; "tour":      *)
(* planned sessions for every kind, noise, trend and search of the            *)
(* hyper-parameters, all of them.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Mode
VARIABLES log, n, todo, draft, fin
vars == <<log, n, todo, draft, fin>>

Kinds == {"gp", "hk", "sk", "ck"}
Priors == {"none", "0", "0.01", "0.3"}
Spaces == {"unit", "shifted", "wide", "small", "mixed"}
Boxes == {"default", "narrow", "high", "long"}
Data == {"smooth", "rough", "minute", "slope", "constant", "offset", "tiny", "big", "linear", "integers", "nested", "same", "repeated", "nearlinear", "cluster", "exact", "flat"}
Points == {"train", "random", "corner", "outside", "twice", "near", "centre"}
Layouts == {"plain", "fortran", "strided", "readonly"}
AskLayouts == Layouts \cup {"vector", "ints"}
Made == {k \in 1..Len(log) : log[k].op = "make"}
Trained(k) == \E j \in 1..Len(log) : log[j].op = "train" /\ log[j].obj = k
Asked == {k \in 1..Len(log) : log[k].op = "predict"}
Trainings == {k \in 1..Len(log) : log[k].op = "train"}

Make(kind) == << <<"dim", {1, 2, 3, 5}>>, <<"space", Spaces>>, <<"deg", IF kind = "gp" THEN {0, 1, 2} ELSE {0}>>,
                 <<"prior", Priors>>, <<"box", Boxes>>, <<"rhobox", IF kind \in {"sk", "ck"} THEN {"default", "other"} ELSE {"default"}>>,
                 <<"rhofit", IF kind = "sk" THEN {"none", "error", "bumpiness"} ELSE {"none"}>>,
                 <<"restart", {-1, 0, 1, 2, 8}>>, <<"opt", {"none", "stub", "pso", "de"}>> >>
Train(o) == << <<"data", Data>>, <<"nh", {3, 4, 5, 6, 11, 20}>>, <<"nl", {4, 6, 8, 13, 22}>>, <<"layout", Layouts>>, <<"seed", 1..40>>, <<"hyp", 1..5>> >>
Predict(o) == << <<"which", IF log[o].kind = "gp" THEN {"hf"} ELSE {"hf", "lf"}>>, <<"kind", Points>>, <<"size", {1, 2, 4, 7, 34}>>,
                 <<"std", {TRUE, FALSE}>>, <<"layout", AskLayouts>>, <<"seed", 1..40>> >>
Again == << <<"of", Asked>>, <<"how", {"same", "one", "reverse", "flip", "twice", "subset", "firstsame", "lastsame", "inplace", "repeat"}>> >>
Retrain == << <<"of", Trainings>>, <<"how", {"same", "clone", "inplace", "grow", "newx", "newy", "newlow", "newhigh"}>> >>

Begin(d, f) == draft' = d /\ todo' = f
Ready == {o \in Made : Trained(o)}
Choices ==
    \/ Cardinality(Made) < 3 /\ (\A o \in Made : Trained(o)) /\ \E k \in Kinds : Begin([op |-> "make", kind |-> k], Make(k))
    \/ \E o \in Made : Begin([op |-> "train", obj |-> o], Train(o))
    \/ \E o \in Ready : Begin([op |-> "predict", obj |-> o], Predict(o))
    \/ \E o \in Ready : Begin([op |-> "predict", obj |-> o], Predict(o))
    \/ Asked # {} /\ Begin([op |-> "again"], Again)
    \/ Asked # {} /\ Begin([op |-> "again"], Again)
    \/ Trainings # {} /\ Begin([op |-> "retrain"], Retrain)
    \/ \E o \in Made : log[o].kind = "gp" /\ Begin([op |-> "switch", obj |-> o], << <<"opt", {"none", "stub", "pso"}>> >>)
    \/ \E o \in Ready : Begin([op |-> "overwrite"], << <<"obj", {o}>> >>)

(* kernels and bases                                                          *)
Kers == {k \in 1..Len(log) : log[k].op = "kmake"}
Values == {"random", "wide", "integers", "zeros", "same", "grid", "close"}
Shape == << <<"n", {1, 2, 3, 5, 20}>>, <<"values", Values>>, <<"layout", Layouts>>, <<"seed", 1..60>> >>
Parts ==
    \/ Begin([op |-> "basis"], << <<"deg", {0, 1, 2}>>, <<"d", {1, 2, 3, 4, 6, 9}>> >> \o Shape)
    \/ Begin([op |-> "kmake"], << <<"d", {1, 2, 3, 6}>>, <<"theta", {"zero", "random", "low", "high"}>>, <<"box", Boxes>>, <<"seed", 1..60>> >>)
    \/ \E k \in Kers : Begin([op |-> "kset", ker |-> k], << <<"theta", {"zero", "random", "low", "high"}>>, <<"seed", 1..60>> >>)
    \/ \E k \in Kers : Begin([op |-> "kcall", ker |-> k], << <<"form", {"params", "stored"}>>, <<"theta", {"zero", "random", "low", "high"}>>,
                                                             <<"pair", {"self", "other", "part", "swap", "equal", "order"}>> >> \o Shape)
    \/ Begin([op |-> "delta"], << <<"d", {1, 2, 3}>>, <<"pair", {"self", "other", "part"}>> >> \o Shape)

Start == /\ todo = <<>> /\ n < MaxOps
         /\ (IF Mode = "walk" THEN Choices ELSE Parts)
         /\ UNCHANGED <<log, n, fin>>
Choose == /\ todo # <<>>
          /\ \E v \in todo[1][2] : LET d == (todo[1][1] :> v) @@ draft IN
               /\ draft' = d
               /\ todo' = Tail(todo)
               /\ IF Len(todo) > 1 THEN UNCHANGED <<log, n>> ELSE log' = Append(log, d) /\ n' = n + 1
          /\ UNCHANGED fin
Finish == n = MaxOps /\ todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<log, n, todo, draft>>

---------------------------------------------------------------------------
(* tours: train on A, ask, ask again, overwrite A, train on B, ask, compare    *)
(* with a fresh model, train on A again                                       *)
Pick(s, k) == s[(k % Len(s)) + 1]
DataSeq == <<"smooth", "nearlinear", "offset", "rough", "tiny", "nested", "constant", "linear", "big", "flat", "integers", "same", "repeated", "minute", "slope", "cluster", "exact">>
SpaceSeq == <<"unit", "shifted", "wide", "mixed", "small">>
Ev(g, k, m, d, l, s) == [op |-> "predict", obj |-> 1, which |-> g, kind |-> k, size |-> m, std |-> d, layout |-> l, seed |-> s]
Tr(d, h, l, y, s, p) == [op |-> "train", obj |-> 1, data |-> d, nh |-> h, nl |-> l, layout |-> y, seed |-> s, hyp |-> p]
Tour(kind, deg, prior, rhofit, opt, restart, k) ==
    LET low == IF kind = "gp" THEN "hf" ELSE "lf"
        dim == 1 + (k % 3)
    IN << [op |-> "make", kind |-> kind, dim |-> dim, space |-> Pick(SpaceSeq, k), deg |-> deg, prior |-> prior,
           box |-> Pick(<<"default", "narrow", "high", "long">>, k \div 2), rhobox |-> IF kind \in {"sk", "ck"} THEN Pick(<<"default", "other">>, k) ELSE "default",
           rhofit |-> rhofit, restart |-> restart, opt |-> opt],
          Tr(Pick(DataSeq, k), 3 + (k % 3) + (IF k % 5 = 0 THEN 8 ELSE 0) + (IF deg = 2 THEN 3 * (dim - 1) ELSE 0), 6, "plain", k, 1 + (k % 5)),
          Ev("hf", "random", 4, TRUE, "plain", k), Ev("hf", "train", 9, TRUE, "fortran", k), Ev(low, "train", 9, TRUE, "plain", k),
          Ev(low, "outside", 3, TRUE, "plain", k + 1), Ev("hf", "twice", 4, FALSE, "readonly", k + 2),
          [op |-> "again", of |-> 3, how |-> "one"], [op |-> "again", of |-> 3, how |-> "flip"], [op |-> "again", of |-> 6, how |-> "one"],
          [op |-> "again", of |-> 4, how |-> "reverse"],
          [op |-> "overwrite", obj |-> 1], [op |-> "again", of |-> 3, how |-> "same"], [op |-> "again", of |-> 6, how |-> "same"],
          Tr(Pick(DataSeq, k + 1 + (k % 4)), 5 + (IF deg = 2 THEN 3 * (dim - 1) ELSE 0), 8, "fortran", k + 1, 2 + (k % 4)),
          Ev("hf", "near", 4, TRUE, "plain", k + 3), Ev("hf", "corner", 4, TRUE, "strided", k + 4), Ev(low, "random", 3, TRUE, "vector", k + 5),
          [op |-> "again", of |-> 3, how |-> "same"],
          [op |-> "retrain", of |-> 15, how |-> "clone"], [op |-> "retrain", of |-> 2, how |-> "same"],
          [op |-> "again", of |-> 3, how |-> "twice"], [op |-> "retrain", of |-> 15, how |-> "clone"], [op |-> "again", of |-> 3, how |-> "same"], [op |-> "retrain", of |-> 2, how |-> "clone"],
          [op |-> "again", of |-> 3, how |-> Pick(<<"firstsame", "inplace", "lastsame">>, k)], [op |-> "again", of |-> 6, how |-> Pick(<<"inplace", "firstsame", "repeat">>, k)],
          [op |-> "retrain", of |-> 2, how |-> Pick(<<"inplace", "grow", "newx", "newlow", "newy", "newhigh">>, k)], Ev("hf", "centre", Pick(<<3, 3, 33>>, k), TRUE, "ints", k + 6) >>
Degs(kind) == IF kind = "gp" THEN {0, 1, 2} ELSE {0}
Fits(kind) == IF kind = "sk" THEN {"none", "error", "bumpiness"} ELSE {"none"}
Number(kind, deg, prior, rhofit, opt) ==
    (CASE kind = "gp" -> 0 [] kind = "hk" -> 3 [] kind = "sk" -> 5 [] OTHER -> 9) + 2 * deg
    + (CASE prior = "none" -> 0 [] prior = "0" -> 1 [] OTHER -> 4) + (CASE rhofit = "none" -> 0 [] rhofit = "error" -> 3 [] OTHER -> 8)
    + (CASE opt = "none" -> 0 [] opt = "stub" -> 5 [] OTHER -> 7)
Tours == UNION { { Tour(k, deg, p, f, o, (Number(k, deg, p, f, o) % 3) - 1, Number(k, deg, p, f, o) + 11 * w)
                   : deg \in Degs(k), f \in Fits(k), p \in {"none", "0", "0.01"}, o \in {"none", "stub"}, w \in 0..(MaxOps - 1) } : k \in Kinds }
         \cup { Tour(k, 0, p, IF k = "sk" THEN "error" ELSE "none", o, 0, Number(k, 0, p, "none", o)) : k \in Kinds, p \in {"none", "0"}, o \in {"pso", "de"} }

Init == IF Mode = "tour" THEN log \in Tours /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = TRUE
        ELSE log = <<>> /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = FALSE
Next == Mode # "tour" /\ (Start \/ Choose \/ Finish)
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT("SCENARIO " \o ToJson(log))
====
