--------------------------------- MODULE Args ---------------------------------
(***************************************************************************)
(* Strings given to public calls: timestamps, filters, table locations,    *)
(* options of a reader.  Each is accepted with its documented meaning or   *)
(* refused with an error.                                                  *)
(*                                                                         *)
(* The table is that of Names.tla: c1 = 2 wrote keys 1, 2; x = 4 crashed;  *)
(* c2 = 6 logged key 1.  For filters: partitions with values 2, 4 and 6.   *)
(*                                                                         *)
(* A timestamp string: n ASCII digits and, at the start, within or at the  *)
(* end, foreign symbols ("a": another ASCII character, "u": a decimal      *)
(* digit of two bytes, "w": one of three); its digits denote time t,       *)
(* unless a field of it is out of its range.                               *)
(* TLC compares what a scanner of symbols decides with the declarative     *)
(* meaning, and refutes:                                                   *)
(*   "bytes"  - only the number of bytes is checked                        *)
(*   "chars"  - any decimal digit is taken for one                         *)
(*   "prefix" - what follows the first 14 digits is ignored                *)
(*   "fields" - fields out of range are taken for their neighbours         *)
(*   "short"  - missing digits are taken for zeros                         *)
(*   "start"  - only the first of two timestamps is checked                *)
(*   "column" - filters on unknown columns are ignored                     *)
(*   "value"  - filters whose value is not of the type are ignored         *)
(*   "text"   - filters compare as text                                    *)
(*   "op"     - unknown operators are taken for equality                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Lengths, Times, MaxForeign, Variant, Emit
VARIABLES c, i, seen, pc, out
vars == <<c, i, seen, pc, out>>

Foreign == {<<>>} \cup (IF MaxForeign >= 1 THEN {<<s>> : s \in {"a", "u", "w"}} ELSE {})
                  \cup (IF MaxForeign >= 2 THEN {<<"u", "u">>, <<"a", "a">>, <<"w", "a">>, <<"u", "w">>, <<"w", "u">>} ELSE {})
\* (with the foreign symbols within the first 14 symbols, at their border, or outside)
Ats == {"start", "within", "border", "end"}
Fields == {"ok", "month", "day", "leap", "hour", "minute", "second"}
Stamps == {x \in [n : Lengths, f : Foreign, at : Ats, field : Fields, t : Times] :
              /\ x.f = <<>> => x.at = "end"
              /\ x.field # "ok" => x.n \in {14, 17} /\ x.f = <<>>}
Fine(t) == [n |-> 17, f |-> <<>>, at |-> "end", field |-> "ok", t |-> t]
Calls1 == {"asof", "slices", "splits", "from", "between"}
Calls2 == {"incr", "range"}
\* For filters.
Cols == {"part", "data", "meta", "none", "empty", "case", "space"}
Ops == {"=", "!=", "<", "<=", ">", ">="}
BadOps == {"==", "<>", "=>", "", "in", " =", "= ", "ne"}
Vals == {1, 2, 3, 4, 5, 6, 7}
\* "like": spelled unusually, means 4 or is refused; "bad": of no meaning.
Types == {"Int", "Long", "Date", "Str"}
Filters == {x \in [type : Types, col : Cols, op : Ops \cup BadOps, val : Vals, how : {"plain", "like", "bad"}] :
               /\ x.type = "Str" => x.how = "plain"
               /\ x.how # "plain" => x.val = 4
               /\ Cardinality({b \in {"c", "o", "h"} : (b = "c" /\ x.col # "part") \/ (b = "o" /\ x.op \in BadOps) \/ (b = "h" /\ x.how # "plain")}) <= 1}
Places == [what : {"empty", "blank", "scheme", "nohost", "http", "missing", "file", "noprops", "emptyprops", "nul", "wide", "percent", "relative",
                   "dots", "slashes", "case", "parent", "long", "query", "memory", "badurl"}]
Readers == [opt : {"ro", "strategy", "populates", "start", "end"}, val : {"bad", "empty"}]
Cases == (IF "time" \in Kinds THEN {[kind |-> "time", call |-> k, a |-> x, b |-> Fine(7)] : k \in Calls1, x \in Stamps}
                                   \cup {[kind |-> "time", call |-> k, a |-> Fine(t), b |-> x] : k \in Calls2, t \in {1, 2, 7}, x \in Stamps}
                                   \cup {[kind |-> "time", call |-> k, a |-> x, b |-> Fine(t)] : k \in Calls2, t \in {3, 7}, x \in Stamps} ELSE {})
         \cup (IF "filter" \in Kinds THEN {[kind |-> "filter", f |-> x] : x \in Filters} ELSE {})
         \cup (IF "place" \in Kinds THEN {[kind |-> "place", p |-> x] : x \in Places} \cup {[kind |-> "reader", r |-> x] : x \in Readers} ELSE {})

-----------------------------------------------------------------------------
(* What it means.                                                           *)
Valid(x) == x.n \in {14, 17} /\ x.f = <<>> /\ x.field = "ok"
Refuse == [ok |-> {"refuse"}, rows |-> {}, parts |-> {}]
Rows(r) == [ok |-> {"rows"}, rows |-> r, parts |-> {}]
Parts(p, may) == [ok |-> {"parts"} \cup (IF may THEN {"refuse"} ELSE {}), rows |-> {}, parts |-> p]
\* Rows <<key, ver>> of the completed writes in (s, e].
Vers(k, s, e) == {v \in {2, 6} : s < v /\ v <= e /\ k \in (IF v = 2 THEN {1, 2} ELSE {1})}
Read(s, e) == {<<k, v>> \in {1, 2} \X {2, 6} : v \in Vers(k, s, e) /\ \A u \in Vers(k, s, e) : u <= v}
Time(call, s, e) == CASE call \in {"asof", "slices", "splits"} -> Read(0, s)
                      [] call \in {"from", "between"} -> Read(s, 7)
                      [] OTHER -> IF s < e THEN Read(s, e) ELSE {}
Cmp(a, op, b) == CASE op = "=" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
FilterMeaning(f) == IF f.col # "part" \/ f.op \in BadOps \/ f.how = "bad" THEN Refuse
                    ELSE Parts({p \in {2, 4, 6} : Cmp(p, f.op, f.val)}, f.how = "like")
\* The places that are, in another spelling, that of the table; only refused if at all.
Same == {"dots", "slashes", "query"}
PlaceMeaning(p) == IF p.what \in Same THEN [ok |-> {"rows", "refuse"}, rows |-> Read(0, 7), parts |-> {}] ELSE Refuse
Meaning(x) == CASE x.kind = "time" -> IF Valid(x.a) /\ (x.call \in Calls2 => Valid(x.b)) THEN Rows(Time(x.call, x.a.t, x.b.t)) ELSE Refuse
                [] x.kind = "filter" -> FilterMeaning(x.f)
                [] x.kind = "place" -> PlaceMeaning(x.p)
                [] x.kind = "reader" -> IF x.r.opt \in {"start", "end"} THEN [Refuse EXCEPT !.ok = {"refuse", "any"}] ELSE Refuse

-----------------------------------------------------------------------------
(* Scanning.                                                                *)
Width(s) == CASE s = "u" -> 2 [] s = "w" -> 3 [] OTHER -> 1
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Width(Head(s)) + Bytes(Tail(s))
Ds(n) == [k \in 1..n |-> "d"]
Min(a, b) == IF a < b THEN a ELSE b
Symbols(x) == LET k == CASE x.at = "start" -> 0 [] x.at = "within" -> Min(x.n, 7) [] x.at = "border" -> Min(x.n, 13) [] OTHER -> x.n
              IN Ds(k) \o x.f \o Ds(x.n - k)
\* One symbol at a time: <<bytes, symbols, digits first, all digits>>
Clear == [bytes |-> 0, chars |-> 0, lead |-> 0, digits |-> TRUE, any |-> TRUE]
Scan(st, s) == [bytes |-> st.bytes + Width(s), chars |-> st.chars + 1,
                lead |-> IF s = "d" /\ st.lead = st.chars THEN st.lead + 1 ELSE st.lead,
                digits |-> st.digits /\ s = "d", any |-> st.any /\ s # "a"]
Decide(st, x) ==
    LET field == x.field = "ok" \/ Variant = "fields"
    IN CASE Variant = "bytes" -> st.bytes \in {14, 17} /\ field
         [] Variant = "chars" -> st.chars \in {14, 17} /\ st.any /\ field
         [] Variant = "prefix" -> st.lead >= 14 /\ field
         [] Variant = "short" -> st.digits /\ st.bytes \in 1..17 /\ field
         [] OTHER -> st.bytes \in {14, 17} /\ st.digits /\ field
Init == c \in Cases /\ i = 1 /\ seen = Clear /\ pc = (IF c.kind = "time" THEN "a" ELSE "match") /\ out = Refuse
Now == IF pc = "a" THEN c.a ELSE c.b
Step == /\ pc \in {"a", "b"} /\ i <= Len(Symbols(Now))
        /\ seen' = Scan(seen, Symbols(Now)[i]) /\ i' = i + 1
        /\ UNCHANGED <<c, pc, out>>
End == /\ pc \in {"a", "b"} /\ i > Len(Symbols(Now))
       /\ i' = 1 /\ seen' = Clear
       /\ IF ~Decide(seen, Now) THEN pc' = "done" /\ out' = Refuse
          ELSE IF pc = "a" /\ c.call \in Calls2 /\ Variant # "start" THEN pc' = "b" /\ out' = out
          ELSE pc' = "done" /\ out' = Rows(Time(c.call, c.a.t, c.b.t))
       /\ UNCHANGED c
\* As text: "10" (6) comes before "5" (4), say; only the order matters.
Rank(f, v) == IF Variant = "text" /\ f.type \in {"Int", "Long"} THEN (v * 3) % 8 ELSE v
Match == /\ pc = "match" /\ pc' = "done" /\ UNCHANGED <<c, i, seen>>
         /\ out' = IF c.kind # "filter" THEN Meaning(c)
                   ELSE LET f == c.f
                            all == Parts({2, 4, 6}, FALSE)
                            op == IF f.op \in BadOps THEN "=" ELSE f.op
                        IN IF f.col # "part" THEN (IF Variant = "column" THEN all ELSE Refuse)
                           ELSE IF f.op \in BadOps /\ Variant # "op" THEN Refuse
                           ELSE IF f.how = "bad" THEN (IF Variant = "value" THEN all ELSE Refuse)
                           ELSE Parts({p \in {2, 4, 6} : Cmp(Rank(f, p), op, Rank(f, f.val))}, f.how = "like")
Done == /\ pc = "done" /\ pc' = "told" /\ UNCHANGED <<c, i, seen, out>>
        /\ Emit => PrintT(ToJson([case |-> c, exp |-> Meaning(c), kind |-> c.kind]))
Next == Step \/ End \/ Match \/ Done
Spec == Init /\ [][Next]_vars
Meant == pc = "done" => out = Meaning(c)
=============================================================================
