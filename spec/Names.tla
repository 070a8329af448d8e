-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* What a file means by its name.  A name is a sequence of tokens; names   *)
(* start as ones a Hudi writer gives and are edited (a token put in, taken *)
(* out or replaced) up to MaxEdits times, then put into the timeline's     *)
(* directory or a partition's, and classified the way the reader does it,  *)
(* by splitting at separators (variant "strict").                          *)
(*                                                                         *)
(* The table: c1 wrote file group f1 (keys 1, 2), x crashed after writing  *)
(* file group f2 (key 5) and a log block for key 2, c2 logged key 1.       *)
(* o is an instant before c1, n one after c2, neither has files.           *)
(*                                                                         *)
(* TLC checks that the classification is the declarative Meaning for every *)
(* name, and refutes these:                                                *)
(*   "trailing" - a completed instant's name may end with a separator      *)
(*   "last"     - the action is what follows the last separator            *)
(*   "prefix"   - what follows the action is ignored                       *)
(*   "pending"  - an inflight file counts as completed                     *)
(*   "action"   - any action counts as a commit                            *)
(*   "parts"    - a base file's further parts are ignored                  *)
(*   "digits"   - a base file's timestamp need not be one                  *)
(*   "skip"     - malformed base file names are ignored                    *)
(*   "ext"      - a log file's extension may be any                        *)
(*   "tail"     - a log file's name may go on after its write token        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEdits, EmitFrom, \* names with that many edits are emitted (or more)
          Dirs, Toks,         \* tokens put in by edits
          Variant, Emit
VARIABLES dir, name, edits, pc, class
vars == <<dir, name, edits, pc, class>>

Known == {"c1", "c2"}
Instants == {"c1", "c2", "x", "n", "o"}
Digits == Instants \cup {"9"}
Actions == {"commit", "deltacommit", "replacecommit"}
AllTokens(d) == IF d = "tl" THEN {".", "commit", "deltacommit", "requested", "inflight", "clean", "x", "c1", "n", "9", "w"}
             ELSE {".", "_", "parquet", "log", "f1", "g", "x", "c1", "9", "w", "crc", "cdc"}
Tokens(d) == AllTokens(d) \cap Toks
\* Names writers give.
Starts(d) == IF d = "tl" THEN {<<i, ".", a>> : i \in {"x", "n", "o"}, a \in Actions} \cup {<<"x", ".", "deltacommit", ".", "inflight">>, <<"n", ".", "inflight">>}
             ELSE {<<g, "_", "9", "_", i, ".", "parquet">> : g \in {"g", "f1"}, i \in {"c1", "x", "n", "o"}}
                  \cup {<<".", "f1", "_", i, ".", "log", ".", "9", "_", "9">> : i \in {"c1", "x"}}

Init == dir \in Dirs /\ name \in Starts(dir) /\ edits = 0 /\ pc = "edit" /\ class = "none"
Edit == /\ pc = "edit" /\ edits < MaxEdits /\ edits' = edits + 1
        /\ \/ \E i \in 0..Len(name), t \in Tokens(dir) : name' = SubSeq(name, 1, i) \o <<t>> \o SubSeq(name, i + 1, Len(name))
           \/ \E i \in 1..Len(name) : name' = SubSeq(name, 1, i - 1) \o SubSeq(name, i + 1, Len(name))
           \/ \E i \in 1..Len(name), t \in Tokens(dir) : name' = [name EXCEPT ![i] = t]
        /\ UNCHANGED <<dir, pc, class>>

-----------------------------------------------------------------------------
(* Declarative: the names of each format.                                   *)
Word(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \notin {".", "_"}
\* Two tokens with nothing between make one word; digits if both are.
Number(s) == Word(s) /\ \A i \in 1..Len(s) : s[i] \in Digits
NoBar(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] # "_"
Sub(s, i, j) == SubSeq(s, i, j)
CompletedName(n) == Len(n) = 3 /\ n[1] \in Instants /\ n[2] = "." /\ n[3] \in Actions
BaseName(n) == /\ Len(n) > 2 /\ Sub(n, Len(n) - 1, Len(n)) = <<".", "parquet">>
               /\ \E i, j \in 1..Len(n) : /\ i < j /\ n[i] = "_" /\ n[j] = "_"
                                         /\ NoBar(Sub(n, 1, i - 1)) /\ NoBar(Sub(n, i + 1, j - 1)) /\ Number(Sub(n, j + 1, Len(n) - 2))
BaseTs(n) == LET j == CHOOSE j \in 1..Len(n) : n[j] = "_" /\ \A k \in (j + 1)..Len(n) : n[k] # "_" IN Sub(n, j + 1, Len(n) - 2)
BaseFid(n) == LET i == CHOOSE i \in 1..Len(n) : n[i] = "_" /\ \A k \in 1..(i - 1) : n[k] # "_" IN Sub(n, 1, i - 1)
LogName(n) == /\ Len(n) > 1 /\ n[1] = "."
              /\ \E i, j, k, l \in 2..Len(n) :
                    /\ i < j /\ j < k /\ k < l /\ n[i] = "_" /\ n[j] = "." /\ n[k] = "." /\ n[l] = "_"
                    /\ NoBar(Sub(n, 2, i - 1)) /\ Number(Sub(n, i + 1, j - 1)) /\ Sub(n, j + 1, k - 1) = <<"log">>
                    /\ Number(Sub(n, k + 1, l - 1)) /\ Word(Sub(n, l + 1, Len(n)))
LogFid(n) == LET i == CHOOSE i \in 2..Len(n) : n[i] = "_" /\ \A k \in 2..(i - 1) : n[k] # "_" IN Sub(n, 2, i - 1)
LogTs(n) == LET i == CHOOSE i \in 2..Len(n) : n[i] = "_" /\ \A k \in 2..(i - 1) : n[k] # "_"
                j == CHOOSE j \in (i + 1)..Len(n) : n[j] = "." /\ \A k \in (i + 1)..(j - 1) : n[k] # "." IN Sub(n, i + 1, j - 1)
Ends(n, t) == Len(n) > 1 /\ Sub(n, Len(n) - 1, Len(n)) = <<".", t>>
Apart(n) == Ends(n, "crc") \/ Ends(n, "cdc")
Meaning(d, n) ==
    IF d = "tl" THEN (IF CompletedName(n) THEN <<"completes", <<n[1]>>, <<>>>> ELSE <<"nothing", <<>>, <<>>>>)
    ELSE IF Apart(n) THEN <<"nothing", <<>>, <<>>>>
    ELSE IF BaseName(n) THEN <<"base", BaseTs(n), BaseFid(n)>>
    ELSE IF Ends(n, "parquet") THEN <<"malformed", <<>>, <<>>>>
    ELSE IF LogName(n) THEN <<"log", LogTs(n), LogFid(n)>>
    ELSE <<"nothing", <<>>, <<>>>>

-----------------------------------------------------------------------------
(* The reader's way: splitting.                                             *)
Find(s, t) == IF \E i \in 1..Len(s) : s[i] = t THEN CHOOSE i \in 1..Len(s) : s[i] = t /\ \A k \in 1..(i - 1) : s[k] # t ELSE 0
RFind(s, t) == IF \E i \in 1..Len(s) : s[i] = t THEN CHOOSE i \in 1..Len(s) : s[i] = t /\ \A k \in (i + 1)..Len(s) : s[k] # t ELSE 0
Before(s, i) == Sub(s, 1, i - 1)
After(s, i) == Sub(s, i + 1, Len(s))
RECURSIVE Split(_, _)
Split(s, t) == LET i == Find(s, t) IN IF i = 0 THEN <<s>> ELSE <<Before(s, i)>> \o Split(After(s, i), t)
Nothing == <<"nothing", <<>>, <<>>>>
Num(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digits
InTimeline(n) ==
    LET i == Find(n, ".")
        ts == Before(n, i)
        rest == After(n, i)
        j == Find(rest, ".")
        act == IF Variant = "last" /\ j # 0 THEN After(rest, RFind(rest, ".")) ELSE IF j = 0 THEN rest ELSE Before(rest, j)
        known == act \in {<<a>> : a \in Actions} \/ (Variant = "action" /\ Word(act) /\ act # <<"inflight">>)
    IN IF i = 0 \/ Len(ts) # 1 \/ ts[1] \notin Instants THEN Nothing
       ELSE IF ~known THEN Nothing
       ELSE IF \/ j = 0
               \/ Variant \in {"last", "prefix"}
               \/ Variant = "trailing" /\ After(rest, j) = <<>>
               \/ Variant = "pending" /\ After(rest, j) = <<"inflight">>
            THEN <<"completes", ts, <<>>>>
       ELSE Nothing
Base(n) ==
    LET i == RFind(n, ".")
        parts == Split(Before(n, i), "_")
        \* (a timestamp that is none)
        ts(p) == Num(p) \/ (Variant = "digits" /\ p # <<>>)
    IN IF (Len(parts) = 3 \/ (Variant = "parts" /\ Len(parts) > 3)) /\ parts[1] # <<>> /\ parts[2] # <<>> /\ ts(parts[3])
       THEN <<"base", parts[3], parts[1]>>
       ELSE IF Variant = "skip" THEN Nothing ELSE <<"malformed", <<>>, <<>>>>
Log(n) ==
    LET m == After(n, 1)
        i == Find(m, "_")
        rest == After(m, i)
        l == RFind(rest, "_")
        mid == Split(Before(rest, l), ".")
        tok == After(rest, l)
    IN IF n = <<>> THEN Nothing ELSE IF n[1] # "." \/ i = 0 \/ l = 0 THEN Nothing
       ELSE IF Len(mid) # 3 \/ i = 1 THEN Nothing
       ELSE IF /\ Num(mid[1]) /\ (mid[2] = <<"log">> \/ (Variant = "ext" /\ mid[2] # <<>>)) /\ Num(mid[3])
               /\ tok # <<>> /\ (Find(tok, ".") = 0 \/ Variant = "tail")
            THEN <<"log", mid[1], Before(m, i)>>
       ELSE Nothing
Classify(d, n) == IF d = "tl" THEN InTimeline(n)
                  ELSE IF Apart(n) THEN Nothing
                  ELSE IF Ends(n, "parquet") THEN Base(n)
                  ELSE Log(n)

-----------------------------------------------------------------------------
(* What reads have to show.                                                 *)
\* "same": as without the file; "x": as if x had completed; "key7": with the
\* row of the file; "key1": with the log record of the file; "error": the read
\* fails; "odd": two files for one thing, anything but a panic.
Effect(d, m) ==
    CASE m[1] = "nothing" -> "same"
      [] m[1] = "malformed" -> "error"
      [] m[1] = "completes" -> IF m[2] = <<"x">> THEN "x" ELSE IF m[2][1] \in Known THEN "odd" ELSE "same"
      [] m[1] = "base" -> IF m[2] \in {<<"x">>, <<"n">>} THEN "same"
                          ELSE IF m[3] = <<"f1">> \/ \E i \in 1..Len(m[3]) : m[3][i] = "." THEN "odd"
                          ELSE IF m[2] \in {<<"c1">>, <<"c2">>, <<"o">>} THEN "key7" ELSE "odd"
      [] m[1] = "log" -> IF m[3] # <<"f1">> THEN "same" ELSE IF m[2] = <<"c1">> \/ m[2] = <<"x">> THEN "key1" ELSE "odd"
Check == /\ pc = "edit" /\ pc' = "done" /\ class' = Classify(dir, name)
         /\ UNCHANGED <<dir, name, edits>>
         /\ Emit /\ edits >= EmitFrom => PrintT(ToJson([kind |-> "file", dir |-> dir, name |-> name, effect |-> Effect(dir, Meaning(dir, name)),
                       instant |-> IF Meaning(dir, name)[1] = "completes" THEN name[1] ELSE ""]))
Next == Edit \/ Check
Spec == Init /\ [][Next]_vars
Classified == pc = "done" => class = Meaning(dir, name)
=============================================================================
