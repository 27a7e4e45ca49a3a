---- MODULE ProblemsGen ----
(* Sessions with benchmark problem objects.  Mode "walk": drawn by TLC's       *)
(* simulator; mode "tour": one planned session per class, all of them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Catalogue
CONSTANTS MaxOps, Mode
VARIABLES log, n, todo, draft, fin
vars == <<log, n, todo, draft, fin>>

Dims == {1, 2, 3, 5, 8}
WrongDims == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, -1, -2}
Pars == {"default", "a", "b", "c"}
Kinds == {"random", "corners", "faces", "centre", "integers", "declared", "near", "pairs", "quarters", "edges"}
Layouts == {"plain", "fortran", "strided", "readonly", "reversed"}
Objects == {k \in 1..Len(log) : log[k].op = "create" /\ log[k].right}
Evals == {k \in 1..Len(log) : log[k].op = "eval"}
ClassOf(k) == log[k].cls
Fids(k) == Entry(ClassOf(k)).fids
Multi == {k \in Objects : "lf" \in Fids(k)}

Create(c) == << <<"right", {TRUE}>>, <<"dim", IF c \in Free THEN Dims ELSE {Entry(c).dim}>>,
                <<"par", IF c \in Free THEN Pars ELSE {"default"}>>, <<"how", {"keyword", "plain"}>>,
                <<"cost", IF c \in Costed THEN {0, 0, 1, 2, 3} ELSE {0}>> >>
Wrong(c) == << <<"right", {FALSE}>>, <<"dim", WrongDims \ {Entry(c).dim}>>, <<"par", {"default"}>>, <<"how", {"keyword"}>>, <<"cost", {0}>> >>
Eval(o) == << <<"fid", Fids(o)>>, <<"kind", Kinds>>, <<"size", {1, 2, 3, 5, 8, 13}>>, <<"layout", Layouts>>, <<"seed", 1..50>> >>
Again == << <<"of", Evals>>, <<"how", {"same", "one", "heads", "reverse", "subset", "twice", "sibling", "fresh"}>> >>
Call(o) == << <<"kind", Kinds>>, <<"size", {1, 2, 4}>>, <<"size2", {0, 1, 3, 6}>>, <<"form", {"list", "tuple", "raw"}>>, <<"seed", 1..50>> >>
Search(o) == << <<"starts", {2, 4}>>, <<"seed", 1..50>> >>

Begin(d, f) == draft' = d /\ todo' = f
Fresh == IF Len(log) = 0 THEN TRUE ELSE log[Len(log)].op # "create"
Classes == IF log = <<>> \/ n % 3 # 0 THEN Names ELSE {ClassOf(k) : k \in {k \in 1..Len(log) : log[k].op = "create"}}
Start == /\ todo = <<>> /\ n < MaxOps
         /\ \/ Fresh /\ \E c \in Classes : Begin([op |-> "create", cls |-> c], Create(c))
            \/ n > 0 /\ Fresh /\ \E c \in Names \ Free : Begin([op |-> "create", cls |-> c], Wrong(c))
            \/ \E o \in Objects : Begin([op |-> "eval", obj |-> o], Eval(o))
            \/ \E o \in Objects : Begin([op |-> "eval", obj |-> o], Eval(o))
            \/ Evals # {} /\ Begin([op |-> "again"], Again)
            \/ \E o \in Multi : Begin([op |-> "call", obj |-> o], Call(o))
            \/ \E o \in Objects : Begin([op |-> "look"], << <<"obj", {o}>> >>)
            \/ \E o \in {o \in Objects : Entry(ClassOf(o)).opt # "none"} : Begin([op |-> "search", obj |-> o], Search(o))
         /\ UNCHANGED <<log, n, fin>>
Choose == /\ todo # <<>>
          /\ \E v \in todo[1][2] : LET d == (todo[1][1] :> v) @@ draft IN
               /\ draft' = d
               /\ todo' = Tail(todo)
               /\ IF Len(todo) > 1 THEN UNCHANGED <<log, n>> ELSE log' = Append(log, d) /\ n' = n + 1
          /\ UNCHANGED fin
Finish == n = MaxOps /\ todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<log, n, todo, draft>>

(* the tour of a class: every fidelity at corners, faces, inside, declared     *)
(* points and integers, all again one by one, the search, and a wrong dimension*)
Ev(o, g, k, m, l, s) == [op |-> "eval", obj |-> o, fid |-> g, kind |-> k, size |-> m, layout |-> l, seed |-> s]
Seqs(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b]}
AFid(c) == CHOOSE q \in Seqs(Entry(c).fids) : TRUE
(* i: position of the first one in the log *)
Visit(c, g, s, i) == << Ev(1, g, "declared", 4, "plain", s), Ev(1, g, "corners", 16, "fortran", s), Ev(1, g, "random", 20, "plain", s),
                     Ev(1, g, "faces", 10, "readonly", s), Ev(1, g, "integers", 6, "plain", s), Ev(1, g, "near", 6, "strided", s),
                     Ev(1, g, "pairs", 6, "reversed", s), Ev(1, g, "quarters", 5, "plain", s), Ev(1, g, "quarters", 12, "plain", s),
                     Ev(1, g, "edges", 12, "plain", s), Ev(1, g, "random", 2, "plain", s),
                     [op |-> "again", of |-> i + 2, how |-> "heads"], [op |-> "again", of |-> i + 1, how |-> "one"] >>
RECURSIVE Visits(_, _, _, _)
Visits(c, q, s, i) == IF q = <<>> THEN <<>> ELSE LET v == Visit(c, q[1], s, i) IN v \o Visits(c, Tail(q), s, i + Len(v))
Tour(c, d, p, w) ==
    << [op |-> "create", cls |-> c, right |-> TRUE, dim |-> d, par |-> p, how |-> "plain", cost |-> 0] >>
    \o Visits(c, AFid(c), w, 2)
    \o (IF Entry(c).opt = "none" THEN <<>> ELSE << [op |-> "search", obj |-> 1, starts |-> 6, seed |-> w] >>)
    \o << [op |-> "again", of |-> 4, how |-> "one"], [op |-> "again", of |-> 3, how |-> "reverse"] >>
    \o (IF "lf" \notin Entry(c).fids THEN <<>> ELSE << [op |-> "call", obj |-> 1, kind |-> "random", size |-> 3, size2 |-> 2, form |-> "list", seed |-> w] >>)
    \o << [op |-> "create", cls |-> c, right |-> TRUE, dim |-> IF c \in Free THEN d + 1 ELSE d, par |-> "default", how |-> "keyword", cost |-> 0] >>
    \o (IF c \in Free THEN <<>> ELSE << [op |-> "create", cls |-> c, right |-> FALSE, dim |-> d + 1, par |-> "default", how |-> "keyword", cost |-> 0],
                                        [op |-> "create", cls |-> c, right |-> FALSE, dim |-> d - 1, par |-> "default", how |-> "plain", cost |-> 0] >>)
    \o << [op |-> "look", obj |-> 1], [op |-> "again", of |-> 4, how |-> "same"] >>
Pair == {<<1, "default">>, <<2, "a">>, <<3, "b">>, <<5, "c">>}
Setups(c) == IF c \notin Free THEN {<<Entry(c).dim, "default">>} ELSE IF MaxOps = 1 THEN Pair ELSE Dims \X Pars
Tours == UNION { { Tour(c, dp[1], dp[2], w) : dp \in Setups(c), w \in 1..MaxOps } : c \in Names }

Init == IF Mode = "tour" THEN log \in Tours /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = TRUE
        ELSE log = <<>> /\ n = 0 /\ todo = <<>> /\ draft = <<>> /\ fin = FALSE
Next == Mode = "walk" /\ (Start \/ Choose \/ Finish)
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT("SCENARIO " \o ToJson(log))
====
