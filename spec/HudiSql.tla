------------------------------ MODULE HudiSql ------------------------------
(***************************************************************************)
(* What an SQL query over the rows of a table returns: predicates over the *)
(* abstract columns in three-valued logic.  Rows are those of              *)
(* HudiTable!Read: <<p, key, ver, ord, seq>>.  Column values are doubled,  *)
(* so odd constants lie strictly between the values that occur.            *)
(***************************************************************************)
EXTENDS HudiTable

NullVal == -100
ColVal(c, r) == CASE c = "p1" -> 2 * Coord(r[1], 1)
                  [] c = "p2" -> 2 * Coord(r[1], 2)
                  [] c = "key" -> 2 * r[2]
                  [] c = "ver" -> r[3]
                  [] c = "ord" -> IF r[4] = -1 THEN NullVal ELSE 2 * r[4]

\* 0 false, 1 unknown, 2 true
B(b) == IF b THEN 2 ELSE 0
Neg(neg, v) == IF neg THEN 2 - v ELSE v
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE Eval(_, _)
Eval(e, r) ==
    CASE e.k = "cmp"  -> LET v == ColVal(e.c, r) IN
                         IF v = NullVal THEN 1 ELSE B(IF e.flip THEN Cmp(e.x, e.op, v) ELSE Cmp(v, e.op, e.x))
      [] e.k = "cmpnull" -> 1
      [] e.k = "in"   -> LET v == ColVal(e.c, r) IN IF v = NullVal THEN 1 ELSE Neg(e.neg, B(v \in e.xs))
      [] e.k = "btw"  -> LET v == ColVal(e.c, r) IN IF v = NullVal THEN 1 ELSE Neg(e.neg, B(e.x <= v /\ v <= e.y))
      [] e.k = "null" -> Neg(e.neg, B(ColVal(e.c, r) = NullVal))
      [] e.k = "not"  -> 2 - Eval(e.a, r)
      [] e.k = "and"  -> Min2(Eval(e.a, r), Eval(e.b, r))
      [] e.k = "or"   -> Max2(Eval(e.a, r), Eval(e.b, r))
      [] e.k = "true" -> 2

Query(rows, e) == {r \in rows : Eval(e, r) = 2}

(* ---- random predicates ---------------------------------------------------*)
SqlCols == <<"ord", "ver", "key">> \o (IF cfg.dims >= 1 THEN <<"p1", "p1", "p1", "p1">> ELSE <<>>)
                                   \o (IF cfg.dims = 2 THEN <<"p2", "p2", "p2">> ELSE <<>>)
ColConst(c) == CASE c \in {"p1", "p2"} -> 1..9
                 [] c = "ord" -> {2, 4, 6}
                 [] c = "ver" -> Times
                 [] c = "key" -> {1, 3, 5, 7, 9}
Ops == {"=", "!=", "<", "<=", ">", ">="}
RandOf(c) == RandomElement(ColConst(c))

RandLeaf(i, n) ==
    LET c == SqlCols[i] IN
    CASE n <= 9  -> [k |-> "cmp", c |-> c, op |-> RandomElement(Ops), x |-> RandOf(c), flip |-> RandomElement(BOOLEAN)]
      [] n = 10  -> [k |-> "cmpnull", c |-> c, op |-> RandomElement(Ops)]
      [] n \in {11, 12} -> [k |-> "in", c |-> c, xs |-> {RandOf(c), RandOf(c), RandOf(c), RandOf(c), RandOf(c)}, neg |-> RandomElement(BOOLEAN)]
      [] n = 13  -> [k |-> "btw", c |-> c, x |-> RandOf(c), y |-> RandOf(c), neg |-> RandomElement(BOOLEAN)]
      [] n = 14  -> [k |-> "null", c |-> c, neg |-> RandomElement(BOOLEAN)]
      [] n = 15  -> [k |-> "true"]

RECURSIVE RandPred(_, _)
RandPred(d, n) ==
    IF d = 0 \/ n <= 2 THEN RandLeaf(RandomElement(DOMAIN SqlCols), RandomElement(1..15))
    ELSE IF n <= 4 THEN [k |-> "not", a |-> RandPred(d - 1, RandomElement(1..10))]
    ELSE IF n <= 8 THEN [k |-> "and", a |-> RandPred(d - 1, RandomElement(1..10)), b |-> RandPred(d - 1, RandomElement(1..10))]
    ELSE [k |-> "or", a |-> RandPred(d - 1, RandomElement(1..10)), b |-> RandPred(d - 1, RandomElement(1..10))]

RandQuery == [pred |-> RandPred(3, RandomElement(1..10)),
              sel |-> RandomElement({"all", "all", "cols", "count", "group", "limit", "minmax", "sorted"}),
              lim |-> RandomElement(0..4), np |-> RandomElement({-1, 0, 1, 2, 3, 7})]
=============================================================================
