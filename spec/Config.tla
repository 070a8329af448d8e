------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* How the options of a table are resolved from their sources, and which   *)
(* tables are opened.                                                      *)
(*                                                                         *)
(* Sources: the table's own properties file ("props"), options given to    *)
(* the builder as hudi or storage options ("explicit") or as options of    *)
(* either kind ("generic"), the global defaults file ("global"), the       *)
(* environment ("env", storage options only), and options given to a       *)
(* file-group reader made from the table ("reader").                       *)
(*                                                                         *)
(* A scenario is a valid table with at most Most deviations <<s, o, v>>:   *)
(* source s gives option o the value v ("none" in "props": the property is *)
(* missing).  The builder calls come in any order; then the table is       *)
(* opened step by step as TableBuilder::build does (variant "strict"), and *)
(* read.  TLC checks the outcome against the declarative definitions       *)
(* (Resolved, Refused, RowsRight) and refutes these designs:               *)
(*   "generic" - generic options override explicit ones                    *)
(*   "user"    - options given override the table's properties             *)
(*   "global"  - global defaults override options given                    *)
(*   "first"   - the first of two calls with the same option wins          *)
(*   "env"     - the environment overrides generic storage options         *)
(*   "spelled" - storage options spelled in another case do not meet       *)
(*   "lenient" - malformed values count as absent                          *)
(*   "early"   - validation comes before the global defaults               *)
(*   "leak"    - hudi options given generically reach the storage          *)
(*   "reader"  - options of a reader do not override the table's           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Most,      \* deviations per scenario
          Opts,      \* options that deviate
          Sources,   \* sources that deviate
          Extra,     \* further scenarios: sets of deviations
          Variant, Emit
VARIABLES dev,       \* the scenario
          todo,      \* builder calls still to be made
          calls,     \* builder calls made, in order
          conf,      \* hudi options known so far
          store,     \* storage options known so far
          pc, out
vars == <<dev, todo, calls, conf, store, pc, out>>

Bool == {"true", "false", "bad"}
\* Values of each option; for "store" the spelling of its name.
Values(o) ==
    CASE o = "name" -> {"t"}
      [] o = "type" -> {"cow", "mor", "alias", "bad"}
      [] o = "version" -> {"4", "5", "6", "7", "bad"}
      [] o = "layout" -> {"0", "1", "2", "bad"}
      [] o = "format" -> {"parquet", "alias", "bad"}
      [] o \in {"drop", "populates", "hive", "urlenc", "ro", "skip"} -> Bool
      [] o = "strategy" -> {"ow", "ap", "alias", "bad"}
      [] o = "precombine" -> {"ord", "time"}
      [] o = "tz" -> {"utc", "local", "alias", "bad"}
      [] o = "checksum" -> {"7", "bad"}
      [] o \in {"input", "listing"} -> {"0", "3", "bad", "neg"}
      [] o = "db" -> {"d"}
      [] o = "opaque" -> {"a", "b"}
      [] o = "store" -> {"U", "L"}
AllOpts == {"name", "type", "version", "layout", "format", "drop", "populates", "hive", "urlenc", "ro", "skip", "strategy",
            "precombine", "tz", "checksum", "input", "listing", "db", "opaque", "store"}
Needed == {"name", "type", "version", "layout"}
\* The valid table that deviations change.
Start == [o \in AllOpts \ {"store"} |-> CASE o = "name" -> "t" [] o = "type" -> "mor" [] o = "version" -> "6" [] o = "layout" -> "1"
                                            [] o = "precombine" -> "ord" [] OTHER -> "none"]
Dom(s, o) == CASE o = "store" -> IF s \in {"explicit", "generic"} THEN {"U", "L"} ELSE IF s = "env" THEN {"U"} ELSE {}
               [] s = "env" -> {}
               [] s = "reader" -> IF o = "ro" THEN {"true", "false"} ELSE IF o = "opaque" THEN {"a"} ELSE IF o = "strategy" THEN {"ow", "ap"}
                                  ELSE IF o = "precombine" THEN {"ord", "time"} ELSE {}
               [] s = "props" -> (Values(o) \cup {"none"}) \ {Start[o]}
               [] o = "skip" -> {"true", "false"}
               [] OTHER -> Values(o)
AllDevs == UNION {UNION {{<<s, o, v>> : v \in Dom(s, o)} : o \in Opts} : s \in Sources}
Calls(D) == {d \in D : d[1] \in {"explicit", "generic"}}
\* Sources other than builder calls name an option once; only one spelling per source.
Fine(D) == \A d, e \in D : d # e => \/ d[2] # e[2] \/ d[1] # e[1]
                                    \/ d[1] \in {"explicit", "generic"} /\ d[2] # "store"

NoOpt == [o \in AllOpts |-> <<"none", "none">>]
Src(D, s, o) == {d \in D : d[1] = s /\ d[2] = o}
Prop(D, o) == IF o = "store" THEN "none" ELSE IF Src(D, "props", o) # {} THEN (CHOOSE d \in Src(D, "props", o) : TRUE)[3] ELSE Start[o]
One(D, s, o) == IF Src(D, s, o) = {} THEN "none" ELSE (CHOOSE d \in Src(D, s, o) : TRUE)[3]
\* What the builder was last told.
Told(s, o) == LET I == {i \in DOMAIN calls : calls[i][1] = s /\ calls[i][2] = o}
              IN IF I = {} THEN "none"
                 ELSE calls[CHOOSE i \in I : \A j \in I : IF Variant = "first" THEN i <= j ELSE j <= i][3]

-----------------------------------------------------------------------------
(*                       What the outcome has to be                         *)
Last(s, o) == LET I == {i \in DOMAIN calls : calls[i][1] = s /\ calls[i][2] = o}
              IN IF I = {} THEN "none" ELSE calls[CHOOSE i \in I : \A j \in I : j <= i][3]
Pick(cands) == LET I == {i \in DOMAIN cands : cands[i][2] # "none"}
               IN IF I = {} THEN <<"none", "none">> ELSE cands[CHOOSE i \in I : \A j \in I : i <= j]
Eff(o) == IF o = "store" THEN Pick(<<<<"explicit", Last("explicit", o)>>, <<"generic", Last("generic", o)>>, <<"env", One(dev, "env", o)>>>>)
          ELSE Pick(<<<<"props", Prop(dev, o)>>, <<"explicit", Last("explicit", o)>>, <<"generic", Last("generic", o)>>, <<"global", One(dev, "global", o)>>>>)
EffR(o) == Pick(<<<<"reader", One(dev, "reader", o)>>, Eff(o)>>)
\* Of a record of option values: the merge strategy in force.
Strategy(c) == CASE c.strategy \in {"ow", "alias"} -> "ow"
                 [] c.strategy = "ap" -> "ap"
                 [] OTHER -> IF c.populates = "false" \/ c.precombine = "none" THEN "ap" ELSE "ow"
Accepts(c) ==
    /\ \A o \in Needed : c[o] # "none"
    /\ \A o \in AllOpts \ {"skip"} : c[o] \notin {"bad", "neg"}
    /\ c.version \in {"5", "6"} /\ c.layout = "1" /\ c.drop # "true"
    /\ c.populates = "false" => Strategy(c) = "ap"
    /\ Strategy(c) = "ow" => c.precombine # "none"
Rows(c) == CASE c.ro = "true" -> "base"
             [] Strategy(c) = "ap" -> "all"
             [] OTHER -> c.precombine
Want == [o \in AllOpts |-> Eff(o)[2]]
WantR == [o \in AllOpts |-> EffR(o)[2]]
Skips(c) == c.skip = "true"

-----------------------------------------------------------------------------
(*                          The builder and the table                       *)
Init == /\ \/ dev \in Extra \cup {{}}
           \/ Most >= 1 /\ \E a \in AllDevs : dev = {a}
           \/ Most >= 2 /\ \E a, b \in AllDevs : dev = {a, b}
           \/ Most >= 3 /\ \E a, b, c \in AllDevs : dev = {a, b, c}
           \/ Most >= 4 /\ \E a, b, c, d \in AllDevs : dev = {a, b, c, d}
        /\ Fine(dev) /\ todo = Calls(dev) /\ calls = <<>>
        /\ conf = NoOpt /\ store = {} /\ pc = "give" /\ out = [ok |-> FALSE, rows |-> "none", rrows |-> "none"]
Give == /\ pc = "give"
        /\ \E d \in todo : todo' = todo \ {d} /\ calls' = Append(calls, d)
        /\ UNCHANGED <<dev, conf, store, pc, out>>
Lower(f) == IF Variant = "spelled" THEN f ELSE "L"
\* Storage options as a set of <<key, source, spelling>>; a key is taken by the first.
Add(S, s, f) == IF f = "none" \/ \E x \in S : x[1] = Lower(f) THEN S ELSE S \cup {<<Lower(f), s, f>>}
Upd(c, s, val(_), over) == [o \in AllOpts |-> IF val(o) # "none" /\ (over \/ c[o][2] = "none") THEN <<s, val(o)>> ELSE c[o]]
NotStore(s, o) == IF o = "store" THEN "none" ELSE Told(s, o)
User == /\ pc = "give" /\ todo = {}
        /\ LET e(o) == NotStore("explicit", o)
               g(o) == NotStore("generic", o)
           IN conf' = Upd(Upd(conf, "explicit", e, TRUE), "generic", g, Variant = "generic")
        /\ LET ex == Add({}, "explicit", Told("explicit", "store"))
               gen(S) == Add(S, "generic", Told("generic", "store"))
               en(S) == Add(S, "env", One(dev, "env", "store"))
           IN store' = (IF Variant = "env" THEN gen(en(ex)) ELSE en(gen(ex)))
                       \cup (IF Variant = "leak" THEN {<<o, "generic", Told("generic", o)>> : o \in {o \in AllOpts \ {"store"} : Told("generic", o) # "none"}} ELSE {})
        /\ pc' = "props" /\ UNCHANGED <<dev, todo, calls, out>>
Props == /\ pc = "props"
         /\ LET p(o) == Prop(dev, o) IN conf' = Upd(conf, "props", p, Variant # "user")
         /\ pc' = "global" /\ UNCHANGED <<dev, todo, calls, store, out>>
Global == /\ pc = "global"
          /\ LET g(o) == One(dev, "global", o) IN conf' = Upd(conf, "global", g, Variant = "global" /\ Cardinality(Calls(dev)) > 0)
          /\ pc' = "validate" /\ UNCHANGED <<dev, todo, calls, store, out>>
Vals(c) == [o \in AllOpts |-> c[o][2]]
Good(c) == IF Variant = "lenient" THEN Accepts([o \in AllOpts |-> IF c[o] \in {"bad", "neg"} THEN "none" ELSE c[o]]) ELSE Accepts(c)
Early == [o \in AllOpts |-> IF conf[o][1] = "global" THEN "none" ELSE conf[o][2]]
Open == /\ pc = "validate"
        /\ LET c == Vals(conf)
               r == [o \in AllOpts |-> IF One(dev, "reader", o) # "none" /\ Variant # "reader" THEN One(dev, "reader", o) ELSE c[o]]
               ok == Skips(c) \/ Good(IF Variant = "early" THEN Early ELSE c)
           IN out' = [ok |-> ok, rows |-> IF ok THEN Rows(c) ELSE "none", rrows |-> IF ok THEN Rows(r) ELSE "none"]
        /\ pc' = "done" /\ UNCHANGED <<dev, todo, calls, conf, store>>
        /\ Emit => PrintT(ToJson([calls |-> calls, dev |-> dev \ Calls(dev), props |-> [o \in AllOpts |-> Prop(dev, o)],
                                  eff |-> [o \in AllOpts |-> Eff(o)], accept |-> Accepts(Want), skip |-> Skips(Want),
                                  rows |-> Rows(Want), rrows |-> IF Accepts(WantR) THEN Rows(WantR) ELSE "any"]))
Next == Give \/ User \/ Props \/ Global \/ Open
Spec == Init /\ [][Next]_vars

Resolved == pc = "done" => /\ \A o \in AllOpts \ {"store"} : conf[o] = Eff(o)
                           /\ {<<x[2], x[3]>> : x \in store} = IF Eff("store")[1] = "none" THEN {} ELSE {Eff("store")}
Refused == pc = "done" /\ ~Skips(Want) => out.ok = Accepts(Want)
RowsRight == pc = "done" /\ Accepts(Want) => /\ out.ok /\ out.rows = Rows(Want)
                                             /\ Accepts(WantR) => out.rrows = Rows(WantR)
=============================================================================
