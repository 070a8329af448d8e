------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How the records of the writes to one file slice are laid out in its log *)
(* files, and that it has no influence on what is read.                    *)
(*                                                                         *)
(* A write is a sequence of records <<key, ordering>>.  The log writer     *)
(* puts the next n records of the current write into a block of some       *)
(* encoding and format version, at the end of the current log file or in a *)
(* new one, whose version number is higher by one or more.  When all       *)
(* writes are done, the slice is read up to each write, and the writes     *)
(* (u, t] incrementally; the result must be the merge of the records       *)
(* written, whatever the layout (LayoutFree).                              *)
(*                                                                         *)
(* Variant "merge" is the reader required; TLC refutes the others:         *)
(*   "last"    - a later block always replaces earlier ones                *)
(*   "perfile" - versions of a key are reduced file by file only           *)
(*   "onefile" - only the last log file is read                            *)
(*   "first"   - only the first block of an instant is used                *)
(*   "encoding"- the encoding of the first block is taken for all          *)
(*   "versions"- log files are taken up to the first gap in their versions *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Scenarios, Encs, Formats, Jumps, MaxEmpty, MaxBlocks, Variant, Emit
VARIABLES sc, w, r, files, st
vars == <<sc, w, r, files, st>>

Time(i) == 2 + 2 * i
\* Records of write i (0: the base file) as rows <<key, version, ordering, sequence>>.
Rows(i, from, n) == LET s == IF i = 0 THEN sc.base ELSE sc.writes[i]
                    IN {<<s[x][1], Time(i), s[x][2], 9 + x>> : x \in from..(from + n - 1)}
All(i) == Rows(i, 1, Len(IF i = 0 THEN sc.base ELSE sc.writes[i]))
Beats(a, b) == \/ a[3] > b[3]
               \/ a[3] = b[3] /\ a[2] > b[2]
               \/ a[3] = b[3] /\ a[2] = b[2] /\ a[4] > b[4]
Merge(S) == IF sc.app THEN S ELSE {x \in S : \A y \in S : y[1] = x[1] => ~Beats(y, x)}
Written(s, t) == Merge(UNION {All(i) : i \in {j \in 0..t : j > s}})

-----------------------------------------------------------------------------
(*                               The log writer                             *)
NBlocks == LET RECURSIVE sum(_)
               sum(i) == IF i = 0 THEN 0 ELSE Len(files[i].blocks) + sum(i - 1)
           IN sum(Len(files))
Empties == Cardinality({x \in UNION {{<<f, b>> : b \in DOMAIN files[f].blocks} : f \in DOMAIN files} : files[x[1]].blocks[x[2]].n = 0})
Left == Len(sc.writes[w]) - r + 1
Init == sc \in Scenarios /\ w = 1 /\ r = 1 /\ files = <<>> /\ st = "write"
Block(n, enc, fmt, jump) ==
    /\ st = "write" /\ w <= Len(sc.writes)
    /\ n > 0 \/ Empties < MaxEmpty
    /\ NBlocks < MaxBlocks \/ n = Left
    /\ LET blk == [w |-> w, from |-> r, n |-> n, enc |-> enc, fmt |-> fmt]
           new == [ver |-> IF files = <<>> THEN 1 ELSE files[Len(files)].ver + jump, blocks |-> <<blk>>]
       IN files' = IF jump > 0 \/ files = <<>> THEN Append(files, new)
                   ELSE [files EXCEPT ![Len(files)].blocks = Append(@, blk)]
    /\ IF n = Left THEN w' = w + 1 /\ r' = 1 ELSE w' = w /\ r' = r + n
    /\ UNCHANGED <<sc, st>>
Finish ==
    /\ st = "write" /\ w > Len(sc.writes)
    /\ st' = "done"
    /\ Emit => PrintT(ToJson([sc |-> sc, files |-> files,
                              upto |-> [t \in 1..Len(sc.writes) |-> Written(-1, t)],
                              since |-> [t \in 1..Len(sc.writes) |-> Written(t - 1, Len(sc.writes))]]))
    /\ UNCHANGED <<sc, w, r, files>>
Next == \/ \E n \in 0..Len(sc.writes[IF w > Len(sc.writes) THEN 1 ELSE w]), enc \in Encs, fmt \in Formats, jump \in {0} \cup Jumps :
             /\ w <= Len(sc.writes) => n <= Left
             /\ (files = <<>> => jump = 0)
             /\ Block(n, enc, fmt, jump)
        \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(*                                The reader                                *)
Blk(f, b) == files[f].blocks[b]
\* The blocks read, in order.
Used(s, t) == {x \in UNION {{<<f, b>> : b \in DOMAIN files[f].blocks} : f \in DOMAIN files} :
                 /\ Blk(x[1], x[2]).w > s /\ Blk(x[1], x[2]).w <= t
                 /\ Variant = "onefile" => x[1] = Len(files)
                 /\ Variant = "encoding" => Blk(x[1], x[2]).enc = Blk(1, 1).enc
                 /\ Variant = "versions" => \A g \in 2..x[1] : files[g].ver = files[g - 1].ver + 1
                 /\ Variant = "first" => ~\E y \in 1..(x[2] - 1) : Blk(x[1], y).w = Blk(x[1], x[2]).w}
RowsAt(x) == Rows(Blk(x[1], x[2]).w, Blk(x[1], x[2]).from, Blk(x[1], x[2]).n)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Base(s) == IF s < 0 THEN All(0) ELSE {}
Read(s, t) ==
    LET U == Used(s, t) IN
    CASE Variant = "last" /\ ~sc.app ->
           UNION {{a \in Merge(RowsAt(x)) : ~\E y \in U : Before(x, y) /\ \E b \in RowsAt(y) : b[1] = a[1]} : x \in U}
             \cup {a \in Base(s) : ~\E y \in U : \E b \in RowsAt(y) : b[1] = a[1]}
      [] Variant = "perfile" -> UNION {Merge(UNION {RowsAt(x) : x \in {y \in U : y[1] = f}} \cup (IF f = 1 THEN Base(s) ELSE {})) : f \in DOMAIN files}
      [] OTHER -> Merge(Base(s) \cup UNION {RowsAt(x) : x \in U})

LayoutFree == st = "done" => \A t \in 1..Len(sc.writes) : Read(-1, t) = Written(-1, t) /\ Read(t - 1, Len(sc.writes)) = Written(t - 1, Len(sc.writes))
=============================================================================
