------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Sessions with table builders: two builders are made, told options in    *)
(* any order, and tables built with them, also more than once.             *)
(*                                                                         *)
(* A builder keeps three dictionaries (hudi, storage and generic options); *)
(* they live on a heap, as in Python, where a constructor may be given a   *)
(* dictionary of the caller ("own").  What a built table has for options   *)
(* has to follow from what its own builder was told (FromOwn), and nobody  *)
(* changes the caller's dictionary (OwnKept).  Wrong designs:              *)
(*   "alias"    - the constructor keeps the caller's dictionary            *)
(*   "default"  - builders share the dictionaries not given                *)
(*   "category" - storage options are filed under the generic ones         *)
(*   "first"    - an option told once is not changed                       *)
(*   "generic"  - generic options win over explicit ones                   *)
(*   "forget"   - building empties the builder                             *)
(*   "promote"  - building files generic options under the explicit ones   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxTold,   \* calls of with_...
          MaxBuilt,  \* tables built
          Aliens,    \* builders may be given the caller's dictionary
          Variant, Emit
VARIABLES heap,      \* dictionaries: place |-> [option |-> value]
          attr,      \* builder |-> kind |-> place
          calls,     \* what was done
          built      \* for every table: [b, hudi, storage]
vars == <<heap, attr, calls, built>>

Kinds == {"hudi", "storage", "generic"}
Keys == {"H", "S"}                     \* an option of Hudi, another one
None == 0
Empty == [k \in Keys |-> None]
Own == [k \in Keys |-> 1]              \* the caller's dictionary, at place 1
Builders == {1, 2}
Merge(d, e) == [k \in Keys |-> IF e[k] = None \/ (Variant = "first" /\ d[k] # None) THEN d[k] ELSE e[k]]
File(k) == IF Variant = "category" /\ k = "storage" THEN "generic" ELSE k

\* What a table gets from the three dictionaries.
Resolve(h, s, g) ==
    [hudi |-> [k \in Keys |-> IF k = "S" THEN h[k] ELSE IF h[k] = None THEN g[k] ELSE h[k]],
     storage |-> [k \in Keys |-> IF k = "H" THEN s[k] ELSE IF s[k] = None THEN g[k] ELSE s[k]]]
Wrongly(h, s, g) ==
    [hudi |-> [k \in Keys |-> IF k = "S" THEN h[k] ELSE IF g[k] = None THEN h[k] ELSE g[k]],
     storage |-> [k \in Keys |-> IF k = "H" THEN s[k] ELSE IF g[k] = None THEN s[k] ELSE g[k]]]

-----------------------------------------------------------------------------
(*                         What it has to be                                *)
Mine(n, b) == SelectSeq(SubSeq(calls, 1, n), LAMBDA c : c.b = b /\ c.do # "build")
\* What builder b was last told of option k as kind, by the first n calls.
Told(n, b, kind, k) ==
    LET m == Mine(n, b)
        I == {i \in DOMAIN m : m[i].kind = kind /\ (m[i].k = k \/ m[i].k = "own")}
    IN IF I = {} THEN None
       ELSE LET c == m[CHOOSE i \in I : \A j \in I : j <= i] IN IF c.k = "own" THEN Own[k] ELSE c.v
All(n, b, kind) == [k \in Keys |-> Told(n, b, kind, k)]
Meant(n, b) == Resolve(All(n, b, "hudi"), All(n, b, "storage"), All(n, b, "generic"))
BuildAt(i) == LET I == {n \in DOMAIN calls : calls[n].do = "build"}
              IN CHOOSE n \in I : Cardinality({m \in I : m < n}) = i - 1
FromOwn == \A i \in DOMAIN built : [hudi |-> built[i].hudi, storage |-> built[i].storage] = Meant(BuildAt(i), built[i].b)
OwnKept == heap[1] = Own

-----------------------------------------------------------------------------
Init == heap = <<Own>> /\ attr = <<>> /\ calls = <<>> /\ built = <<>>
New(kind) ==
    /\ Len(attr) < 2
    /\ LET b == Len(attr) + 1
           n == Len(heap)
           fresh == IF Variant = "default" /\ b = 2 THEN [k \in Kinds |-> attr[1][k]]
                    ELSE [k \in Kinds |-> n + (CASE k = "hudi" -> 1 [] k = "storage" -> 2 [] OTHER -> 3)]
           place == [k \in Kinds |-> IF k = kind /\ Variant = "alias" THEN 1 ELSE fresh[k]]
           more == [i \in 1..3 |-> IF kind # "none" /\ Variant # "alias" /\ fresh[kind] = n + i THEN Own ELSE Empty]
       IN /\ attr' = Append(attr, place)
          /\ heap' = heap \o more
          /\ calls' = Append(calls, [do |-> "new", b |-> b, kind |-> kind, k |-> IF kind = "none" THEN "" ELSE "own", v |-> 0])
    /\ UNCHANGED built
Number(do) == Cardinality({i \in DOMAIN calls : calls[i].do = do})
With(b, kind, k) ==
    /\ Len(attr) = 2 /\ Number("with") < MaxTold
    /\ LET v == 2 + Number("with")
           d == IF k = "own" THEN heap[1] ELSE [x \in Keys |-> IF x = k THEN v ELSE None]
           at == attr[b][File(kind)]
       IN /\ heap' = [heap EXCEPT ![at] = Merge(@, d)]
          /\ calls' = Append(calls, [do |-> "with", b |-> b, kind |-> kind, k |-> k, v |-> v])
    /\ UNCHANGED <<attr, built>>
Build(b) ==
    /\ Len(attr) = 2 /\ Len(built) < MaxBuilt
    /\ LET h == heap[attr[b].hudi]
           s == heap[attr[b].storage]
           g == heap[attr[b].generic]
           r == IF Variant = "generic" THEN Wrongly(h, s, g) ELSE Resolve(h, s, g)
       IN /\ built' = Append(built, [b |-> b, hudi |-> r.hudi, storage |-> r.storage])
          /\ heap' = CASE Variant = "forget" -> [heap EXCEPT ![attr[b].hudi] = Empty, ![attr[b].storage] = Empty, ![attr[b].generic] = Empty]
                       [] Variant = "promote" -> [heap EXCEPT ![attr[b].hudi] = r.hudi, ![attr[b].storage] = r.storage]
                       [] OTHER -> heap
    /\ calls' = Append(calls, [do |-> "build", b |-> b, kind |-> "", k |-> "", v |-> 0])
    /\ Emit /\ Len(built') = MaxBuilt => PrintT(ToJson([calls |-> calls', built |-> built']))
    /\ UNCHANGED attr
Next == \/ \E kind \in {"none"} \cup (IF Aliens THEN Kinds ELSE {}) : New(kind)
        \/ \E b \in Builders, kind \in Kinds, k \in Keys \cup (IF Aliens THEN {"own"} ELSE {}) : With(b, kind, k)
        \/ \E b \in Builders : Build(b)
Spec == Init /\ [][Next]_vars
=============================================================================
