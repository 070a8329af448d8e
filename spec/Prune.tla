-------------------------------- MODULE Prune --------------------------------
(***************************************************************************)
(* Filters on partition columns, and the paths of partitions.              *)
(*                                                                         *)
(* A table has one to three partition columns, each of a class of types    *)
(* ("str"; "num": numbers, whose text sorts otherwise; "ord": dates and    *)
(* times; "bool"), and lays its partitions out in a style (hive or plain,  *)
(* URL-encoded or not).  Column values are 1..5 in the order of the type;  *)
(* partitions have 2 or 4, or (0) a text that is no value of the type, as  *)
(* "__HIVE_DEFAULT_PARTITION__" is in a number column.  Some paths do not  *)
(* have the form the configuration tells: fewer or more segments, another  *)
(* column's name, no name.  Filters are conjunctive.                       *)
(*                                                                         *)
(* The pruner parses a path segment by segment and applies the filters one *)
(* after another (Step).  Allowed says declaratively which outcomes are    *)
(* right.  Wrong designs TLC must refute:                                  *)
(*   "drop"   - a partition whose value cannot be decided is dropped       *)
(*   "text"   - values compare as text                                     *)
(*   "raw"    - encoded values compare as they are spelled in the path     *)
(*   "or"     - one filter that holds is enough                            *)
(*   "last"   - of several filters on a column the last one counts         *)
(*   "first"  - only the first filter counts                               *)
(*   "order"  - segments are taken for the columns in another order        *)
(*   "names"  - the names in hive-style segments are not looked at         *)
(*   "zip"    - segments too many or too few are left out                  *)
(*   "strict" - <= is taken for <, >= for >                                *)
(*   "unless" - != keeps only undecidable partitions and those different in*)
(*              the first column                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Given, MaxCols, MaxFilters, Classes, Styles, Variant, Emit
VARIABLES c, p, i, vals, j, pc, keep
vars == <<c, p, i, vals, j, pc, keep>>

OpsOf(k) == IF k = "bool" THEN {"=", "!=", "<", "<=", ">", ">="} ELSE {"=", "!=", "<", "<=", ">", ">="}
ValsOf(k) == IF k = "bool" THEN {2, 4} ELSE 1..5
FiltersOn(ks) == UNION {{[c |-> n, op |-> o, x |-> x] : o \in OpsOf(ks[n]), x \in ValsOf(ks[n])} : n \in DOMAIN ks}
Upto(S, n) == UNION {[1..m -> S] : m \in 0..n}
\* (no more filters than MaxFilters on one column, one on several)
Cases == Given \cup
    UNION {UNION {{[kinds |-> ks, style |-> s, fs |-> fs] : s \in Styles, fs \in Upto(FiltersOn(ks), IF n = 1 THEN MaxFilters ELSE 1)}
                  : ks \in [1..n -> Classes]} : n \in 1..MaxCols}
Hive(s) == s \in {"hive", "hiveenc"}
Encoded(s) == s \in {"enc", "hiveenc"}

\* A partition: its form, and the values of its columns.
Values(k) == IF k = "str" THEN {2, 4} ELSE {0, 2, 4}
Proper(ks) == {v \in [1..Len(ks) -> {0, 2, 4}] : \A n \in DOMAIN ks : v[n] \in Values(ks[n])}
Parts(x) == {[form |-> "ok", v |-> v] : v \in Proper(x.kinds)}
            \cup {[form |-> f, v |-> [n \in 1..Len(x.kinds) |-> 2]] :
                     f \in {"long"} \cup (IF Len(x.kinds) > 1 THEN {"short"} ELSE {}) \cup (IF Hive(x.style) THEN {"name", "bare"} ELSE {})}

Cmp(a, op, b) == CASE op = "=" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
\* A filter on a partition: 2 holds, 0 does not, 1 cannot be told.
Holds(f, q) == IF q.form # "ok" \/ q.v[f.c] = 0 THEN 1 ELSE IF Cmp(q.v[f.c], f.op, f.x) THEN 2 ELSE 0
Told(x, q) == {Holds(x.fs[n], q) : n \in DOMAIN x.fs}
\* Which outcomes are right: kept unless some filter is known to fail. If one
\* does but another value of the partition is undecidable, both are.
Allowed(x, q) == IF 0 \notin Told(x, q) THEN {TRUE}
                 ELSE IF \E n \in DOMAIN q.v : q.v[n] = 0 THEN {TRUE, FALSE} ELSE {FALSE}
\* What a query with these conditions on the rows returns: rows have the
\* values, or null.
Rows(x) == {q \in Parts(x) : \A n \in DOMAIN x.fs : q.v[x.fs[n].c] # 0 /\ Cmp(q.v[x.fs[n].c], x.fs[n].op, x.fs[n].x)}

-----------------------------------------------------------------------------
(* The pruner.                                                              *)
NumText == <<1, 2, 5, 3, 4>>
EncText == <<2, 5, 1, 3, 4>>
Rank(x, n, v) == CASE Variant = "text" /\ x.kinds[n] = "num" -> NumText[v]
                   [] Variant = "raw" /\ x.kinds[n] = "str" /\ Encoded(x.style) -> EncText[v]
                   [] OTHER -> v
Segments(x, q) == CASE q.form = "short" -> SubSeq(q.v, 1, Len(q.v) - 1)
                    [] q.form = "long" -> q.v \o <<4>>
                    [] OTHER -> q.v
\* (a name is that of column n or another)
Named(x, q, n) == Hive(x.style) => q.form \notin {"name", "bare"} \/ (q.form = "name" /\ Variant = "names")
Undecided == IF Variant = "drop" THEN FALSE ELSE TRUE

Init == /\ c \in Cases /\ p \in Parts(c) \cup (IF Emit THEN {[form |-> "emit", v |-> <<>>]} ELSE {})
        /\ i = 1 /\ vals = <<>> /\ j = 1 /\ keep = TRUE
        /\ pc = IF p.form = "emit" THEN "emit" ELSE "count"
Say == /\ pc = "emit" /\ pc' = "told"
       /\ PrintT(ToJson([kinds |-> c.kinds, style |-> c.style, fs |-> c.fs,
                         parts |-> {[form |-> q.form, v |-> q.v, ok |-> Allowed(c, q), row |-> q \in Rows(c)] : q \in Parts(c)}]))
       /\ UNCHANGED <<c, p, i, vals, j, keep>>
Count == /\ pc = "count"
         /\ IF Len(Segments(c, p)) # Len(c.kinds) /\ Variant # "zip" THEN pc' = "done" /\ keep' = Undecided ELSE pc' = "parse" /\ keep' = keep
         /\ UNCHANGED <<c, p, i, vals, j>>
Parse == /\ pc = "parse"
         /\ IF i > Len(c.kinds) \/ i > Len(Segments(c, p)) THEN pc' = "filter" /\ UNCHANGED <<i, vals, keep>>
            ELSE IF ~Named(c, p, i) \/ Segments(c, p)[i] = 0 THEN pc' = "done" /\ keep' = Undecided /\ UNCHANGED <<i, vals>>
            ELSE vals' = Append(vals, Segments(c, p)[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, keep>>
         /\ UNCHANGED <<c, p, j>>
Col(n) == IF Variant = "order" THEN Len(c.kinds) + 1 - n ELSE n
Op(o) == IF Variant = "strict" THEN (IF o = "<=" THEN "<" ELSE IF o = ">=" THEN ">" ELSE o) ELSE o
Ignored(n) == CASE Variant = "last" -> \E m \in DOMAIN c.fs : m > n /\ c.fs[m].c = c.fs[n].c
                [] Variant = "first" -> n > 1
                [] Variant = "unless" -> c.fs[n].op = "!=" /\ c.fs[n].c > 1
                [] OTHER -> FALSE
Filter == /\ pc = "filter"
          /\ IF j > Len(c.fs) THEN pc' = "done" /\ UNCHANGED <<j, keep>>
             ELSE LET f == c.fs[j]
                      n == Col(f.c)
                      r == IF Ignored(j) \/ n > Len(vals) THEN TRUE
                           ELSE Cmp(Rank(c, n, vals[n]), Op(f.op), Rank(c, n, f.x))
                  IN /\ keep' = IF Variant = "or" THEN (IF j = 1 THEN r ELSE keep \/ r) ELSE keep /\ r
                     /\ j' = j + 1 /\ pc' = pc
          /\ UNCHANGED <<c, p, i, vals>>
Next == Say \/ Count \/ Parse \/ Filter
Spec == Init /\ [][Next]_vars

KeepsRight == pc = "done" => keep \in Allowed(c, p)
\* Nothing that a query's conditions hold for is left out.
NoneLost == pc = "done" /\ p \in Rows(c) => keep
=============================================================================
