------------------------------ MODULE HudiTable ------------------------------
(***************************************************************************)
(* A Hudi table as writers build it on storage and as a table handle reads *)
(* it (table versions 5/6: timeline layout 1, file groups, file slices,    *)
(* base files, log files with data and rollback command blocks).           *)
(*                                                                         *)
(* The WRITER side is the environment: every action below is one storage   *)
(* operation of a writer (create a requested/inflight/completed instant    *)
(* file, write a base file, append a log block, delete a file), so that    *)
(* every prefix of a behaviour is a possible crash point and any two       *)
(* writers may interleave.                                                 *)
(*                                                                         *)
(* The READER side is a set of state functions over (handle view, files):  *)
(* Read, Incr, Slices, ...: what the library under test must return.       *)
(* Logical(T) is the independent oracle: the fold of the *logical* effects *)
(* of the completed instants in time order, which knows nothing of file    *)
(* slices, log files, rollback blocks or visibility.  TLC checks           *)
(* Read = Logical and the other properties exhaustively on small           *)
(* constants (MC.cfg), and HudiTrace.tla uses the same functions as the    *)
(* oracle for what the real code returned.                                 *)
(*                                                                         *)
(* Time is abstract: instants are even numbers, odd numbers denote points  *)
(* strictly between instants.  A row is <<key, ver, ord, seq>>: ver is the *)
(* instant that wrote it (_hoodie_commit_time), ord the precombine value   *)
(* (-1: null), seq the sequence number inside the commit.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    cfg,      \* [mor, app, dims]: MERGE_ON_READ?, append-only strategy?, number of partition columns
    clock,    \* the next instant time (even)
    inst,     \* instant time -> instant record (also archived ones)
    arch,     \* completed instants archived off the active timeline
    base,     \* <<p, f, t>> -> rows of the base file on storage
    logs,     \* <<p, f, b>> -> sequence of log files, each a sequence of blocks
    fcnt,     \* partition -> number of file ids ever used
    handles,  \* handle -> view taken when it was opened
    cleaners  \* instants whose completion let the cleaner delete files

vars == <<cfg, clock, inst, arch, base, logs, fcnt, handles, cleaners>>

-----------------------------------------------------------------------------
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a >= b THEN a ELSE b

\* Version order: precombine value first (null = -1 lowest), then sequence number,
\* which starts with the instant.
Beats(r, s) == \/ r[3] > s[3]
               \/ r[3] = s[3] /\ r[2] > s[2]
               \/ r[3] = s[3] /\ r[2] = s[2] /\ r[4] > s[4]

MergeRows(S) == IF cfg.app THEN S
                ELSE {r \in S : \A s \in S : s[1] = r[1] => ~Beats(s, r)}

DropKeys(S, ks) == {r \in S : r[1] \notin ks}

Put(fn, k, v) == (k :> v) @@ fn
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]

-----------------------------------------------------------------------------
(*                          Timeline and views                              *)

Pending  == {t \in DOMAIN inst : inst[t].st # "done"}
Done     == {t \in DOMAIN inst : inst[t].st = "done"}
ActiveDone == Done \ arch

\* What a handle learns from the timeline directory when it is opened.
View == [C |-> ActiveDone, P |-> Pending]

\* A file or block of instant t counts as committed for a view iff t is a
\* completed instant, or lies before everything left on the (archived)
\* timeline and is not pending.
Committed(w, t) == /\ t \notin w.P
                   /\ \/ t \in w.C
                      \/ w.C # {} /\ t < Min(w.C)

Latest(w) == IF w.C = {} THEN 0 ELSE Max(w.C)

-----------------------------------------------------------------------------
(*                               Reader                                     *)

FileGroups == {<<d[1], d[2]>> : d \in DOMAIN base}

SliceTimes(w, p, f) == {t \in {d[3] : d \in {x \in DOMAIN base : x[1] = p /\ x[2] = f}} : Committed(w, t)}

SliceAsOf(w, p, f, T) ==
    LET ts == {t \in SliceTimes(w, p, f) : t <= T}
    IN IF ts = {} THEN 0 ELSE Max(ts)

\* File groups replaced by the completed replace commits up to T.
Hidden(w, T) == UNION {inst[c].repl : c \in {x \in w.C : x <= T}}

LogFiles(p, f, b) == IF <<p, f, b>> \in DOMAIN logs THEN logs[<<p, f, b>>] ELSE <<>>

Blocks(p, f, b) ==
    LET fs == LogFiles(p, f, b)
    IN UNION {{fs[i][j] : j \in DOMAIN fs[i]} : i \in DOMAIN fs}

\* Log files that belong to slice b in view w: its own, and those written
\* onto a scheduled compaction (whose instant they carry as their base) that
\* is not completed yet.
SliceLogKeys(w, p, f, b) ==
    {d \in DOMAIN logs : /\ d[1] = p /\ d[2] = f
                         /\ \/ d[3] = b
                            \/ d[3] > b /\ ~Committed(w, d[3]) /\ SliceAsOf(w, p, f, d[3]) = b}
SliceBlocks(w, p, f, b) == UNION {Blocks(d[1], d[2], d[3]) : d \in SliceLogKeys(w, p, f, b)}
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN Len(logs[d]) + SumLen(S \ {d})
SliceLogCount(w, p, f, b) == SumLen(SliceLogKeys(w, p, f, b))

\* Rows of the valid data blocks with start < instant <= end.
LogRows(w, p, f, b, s, e) ==
    LET blks == SliceBlocks(w, p, f, b)
        rb == {blk.tgt : blk \in {x \in blks : x.tgt # 0}}
    IN UNION {blk.rows : blk \in {x \in blks :
                 /\ x.tgt = 0
                 /\ s < x.t /\ x.t <= e
                 /\ Committed(w, x.t)
                 /\ x.t \notin rb}}

FgRows(w, p, f, b, T, ro) ==
    IF ro \/ SliceLogKeys(w, p, f, b) = {} THEN base[<<p, f, b>>]
    ELSE MergeRows(base[<<p, f, b>>] \cup LogRows(w, p, f, b, 0, T))

\* Partition columns: with one column its value is ordered like p, with two
\* the pair (Coord 1, Coord 2) identifies p.
Coord(p, i) == IF cfg.dims = 2
               THEN IF i = 1 THEN ((p - 1) \div 2) + 1 ELSE ((p - 1) % 2) + 1
               ELSE p
Cmp(a, op, b) == CASE op = "=" -> a = b [] op = "!=" -> a # b
                   [] op = "<" -> a < b [] op = "<=" -> a <= b
                   [] op = ">" -> a > b [] op = ">=" -> a >= b
\* A filter is [c |-> column, op |-> operator, x |-> 2*value or an odd number between values].
Matches(p, flt) == \A i \in DOMAIN flt : Cmp(2 * Coord(p, flt[i].c), flt[i].op, flt[i].x)

\* The file slices a read as of T consists of: <<p, f, base instant>>.
SlicesAt(w, T, flt) ==
    LET vis == {g \in FileGroups \ Hidden(w, T) : Matches(g[1], flt) /\ SliceAsOf(w, g[1], g[2], T) # 0}
    IN IF w.C = {} THEN {}
       ELSE {<<g[1], g[2], SliceAsOf(w, g[1], g[2], T)>> : g \in vis}

Read(w, T, flt, ro) ==
    UNION {{<<s[1]>> \o r : r \in FgRows(w, s[1], s[2], s[3], T, ro)} : s \in SlicesAt(w, T, flt)}

\* Incremental read over (s, e]: from the commit metadata, not from listing.
InRange(w, s, e) == {c \in w.C : s < c /\ c <= e}
ItemSet(c) == {inst[c].items[i] : i \in DOMAIN inst[c].items}
TouchedBy(c) == {<<it.p, it.f>> : it \in ItemSet(c)}
IncrSlices(w, s, e) ==
    LET cs == InRange(w, s, e)
        fgs == UNION {TouchedBy(c) : c \in cs} \ UNION {inst[c].repl : c \in cs}
        bs(g) == {IF it.k = "base" THEN c ELSE it.b :
                    <<c, it>> \in {x \in cs \X UNION {ItemSet(c) : c \in cs} :
                                     x[2] \in ItemSet(x[1]) /\ x[2].p = g[1] /\ x[2].f = g[2]}}
    IN {<<g[1], g[2], Max(bs(g))>> : g \in fgs}

\* The log files an incremental slice names: those listed in the write
\* statistics of the range, i.e. present when the last of them was written.
Incr(w, s, e, ro) ==
    UNION {LET b == base[<<g[1], g[2], g[3]>>]
               br == {r \in b : s < r[2] /\ r[2] <= e}
               lr == IF ro THEN {} ELSE LogRows(w, g[1], g[2], g[3], s, e)
           IN {<<g[1]>> \o r : r \in IF lr = {} THEN br ELSE MergeRows(br \cup lr)}
           : g \in IncrSlices(w, s, e)}

\* Files an incremental read needs are still there, and none of the commits
\* wrote to a file slice that had no base file yet (the library refuses those).
IncrReadable(w, s, e) == /\ \A g \in IncrSlices(w, s, e) : g \in DOMAIN base
                         /\ \A c \in InRange(w, s, e) : \A it \in ItemSet(c) : ~it.nb

-----------------------------------------------------------------------------
(*                     Logical oracle (history only)                        *)

LGet(L, g) == IF g \in DOMAIN L THEN L[g] ELSE {}

ApplyItem(L, it) ==
    LET g == <<it.p, it.f>> IN
    CASE it.mode = "put"   -> Put(L, g, it.inc)
      [] it.mode = "merge" -> Put(L, g, MergeRows(LGet(L, g) \cup it.inc))
      [] it.mode = "del"   -> Put(L, g, DropKeys(LGet(L, g), {r[1] : r \in it.inc}))
      [] it.mode = "keep"  -> L

RECURSIVE ApplyItems(_, _, _)
ApplyItems(L, items, i) == IF i > Len(items) THEN L ELSE ApplyItems(ApplyItem(L, items[i]), items, i + 1)

ApplyInst(L, c) ==
    LET cleared == [g \in DOMAIN L |-> IF g \in inst[c].repl THEN {} ELSE L[g]]
    IN ApplyItems(cleared, inst[c].items, 1)

RECURSIVE Fold(_, _)
Fold(L, cs) == IF cs = {} THEN L ELSE LET c == Min(cs) IN Fold(ApplyInst(L, c), cs \ {c})

LogicalFg(T) == Fold(<<>>, {c \in Done : c <= T})
Logical(T) == LET L == LogicalFg(T) IN UNION {{<<g[1]>> \o r : r \in L[g]} : g \in DOMAIN L}

-----------------------------------------------------------------------------
(*                          Writer actions                                  *)

Targets(i) == {<<it.p, it.f>> : it \in {i.items[j] : j \in DOMAIN i.items}} \cup i.repl
Busy == UNION {Targets(inst[t]) : t \in Pending}
\* Delta commits go on while a compaction of their file group is pending.
Compacting(g) == {t \in Pending : inst[t].op = "compact" /\ g \in Targets(inst[t])}
BusyUpd == UNION {Targets(inst[t]) : t \in {x \in Pending : inst[x].op # "compact"}}

Begin(act, op, items, repl) ==
    /\ Targets([items |-> items, repl |-> repl]) \cap (IF op = "upsert" THEN BusyUpd ELSE Busy) = {}
    /\ inst' = Put(inst, clock, [act |-> act, op |-> op, st |-> "req", n |-> 0,
                                 items |-> items, repl |-> repl, rb |-> 0])
    /\ clock' = clock + 2
    /\ fcnt' = [p \in DOMAIN fcnt |-> Max2(fcnt[p], Max({0} \cup {items[i].f : i \in {j \in DOMAIN items : items[j].p = p}}))]
    /\ UNCHANGED <<cfg, arch, base, logs, handles, cleaners>>

Inflight(t) ==
    /\ t \in Pending /\ inst[t].st = "req"
    /\ inst' = [inst EXCEPT ![t].st = "infl"]
    /\ UNCHANGED <<cfg, clock, arch, base, logs, fcnt, handles, cleaners>>

AppendBlock(key, blk, roll) ==
    LET fs == IF key \in DOMAIN logs THEN logs[key] ELSE <<>>
    IN IF roll \/ fs = <<>> THEN Put(logs, key, Append(fs, <<blk>>))
       ELSE Put(logs, key, [fs EXCEPT ![Len(fs)] = Append(@, blk)])

\* Write the next file of the plan: one base file or one log block.
WriteItem(t) ==
    /\ t \in Pending /\ inst[t].st = "infl" /\ inst[t].n < Len(inst[t].items)
    /\ LET it == inst[t].items[inst[t].n + 1] IN
       IF it.k = "base"
       THEN /\ base' = Put(base, <<it.p, it.f, t>>, it.rows) /\ UNCHANGED logs
       ELSE /\ logs' = AppendBlock(<<it.p, it.f, it.b>>, [t |-> t, tgt |-> 0, rows |-> it.rows], it.roll)
            /\ UNCHANGED base
    /\ inst' = [inst EXCEPT ![t].n = @ + 1]
    /\ UNCHANGED <<cfg, clock, arch, fcnt, handles, cleaners>>

\* A writer crashes in the middle of a base file: something unreadable is there.
TornBase(t) ==
    /\ t \in Pending /\ inst[t].st = "infl" /\ inst[t].n < Len(inst[t].items)
    /\ inst[t].items[inst[t].n + 1].k = "base"
    /\ LET it == inst[t].items[inst[t].n + 1] IN base' = Put(base, <<it.p, it.f, t>>, {})
    /\ UNCHANGED <<cfg, clock, inst, arch, logs, fcnt, handles, cleaners>>

Complete(t) ==
    /\ t \in Pending /\ inst[t].st = "infl" /\ inst[t].n = Len(inst[t].items)
    /\ inst' = [inst EXCEPT ![t].st = "done"]
    /\ UNCHANGED <<cfg, clock, arch, base, logs, fcnt, handles, cleaners>>

\* Rollback of a failed instant, one storage operation at a time: delete base
\* files, append rollback blocks to slices whose logs were written, then drop
\* the instant from the timeline.
RollbackBegin(t) ==
    /\ t \in Pending /\ inst[t].st \in {"req", "infl"}
    /\ inst' = [inst EXCEPT ![t].st = "rb", ![t].rb = clock,
                            ![t].n = IF inst[t].n < Len(inst[t].items) THEN @ + 1 ELSE @]
    /\ clock' = clock + 2
    /\ UNCHANGED <<cfg, arch, base, logs, fcnt, handles, cleaners>>

RollbackItem(t, roll) ==
    /\ t \in Pending /\ inst[t].st = "rb" /\ inst[t].n > 0
    /\ LET it == inst[t].items[inst[t].n]
           bk == <<it.p, it.f, t>>
           lk == <<it.p, it.f, it.b>> IN
       IF it.k = "base"
       THEN /\ base' = IF bk \in DOMAIN base THEN Del(base, bk) ELSE base
            /\ UNCHANGED logs
       ELSE /\ logs' = IF \E blk \in Blocks(it.p, it.f, it.b) : blk.t = t
                       THEN AppendBlock(lk, [t |-> inst[t].rb, tgt |-> t, rows |-> {}], roll) ELSE logs
            /\ UNCHANGED base
    /\ inst' = [inst EXCEPT ![t].n = @ - 1]
    /\ UNCHANGED <<cfg, clock, arch, fcnt, handles, cleaners>>

RollbackEnd(t) ==
    /\ t \in Pending /\ inst[t].st = "rb" /\ inst[t].n = 0
    \* a compaction stays scheduled when its execution is rolled back
    /\ inst' = IF inst[t].op = "compact" THEN [inst EXCEPT ![t].st = "req", ![t].rb = 0] ELSE Del(inst, t)
    /\ UNCHANGED <<cfg, clock, arch, base, logs, fcnt, handles, cleaners>>

\* The cleaner deletes one superseded file slice, or one slice of a replaced
\* file group.  Reads as of earlier instants are no longer promised.
NextSlice(p, f, t) == LET later == {x \in SliceTimes(View, p, f) : x > t}
                      IN IF later = {} THEN 0 ELSE Min(later)
Replacers(g) == {c \in ActiveDone : g \in inst[c].repl}
Cleanable(p, f, t) == /\ <<p, f, t>> \in DOMAIN base
                      /\ Committed(View, t)
                      /\ <<p, f>> \notin Busy
                      /\ NextSlice(p, f, t) # 0 \/ Replacers(<<p, f>>) # {}
Clean(p, f, t) ==
    /\ Cleanable(p, f, t)
    /\ base' = Del(base, <<p, f, t>>)
    /\ logs' = IF <<p, f, t>> \in DOMAIN logs THEN Del(logs, <<p, f, t>>) ELSE logs
    /\ cleaners' = cleaners \cup {IF NextSlice(p, f, t) # 0 THEN NextSlice(p, f, t)
                                  ELSE Max(Replacers(<<p, f>>))}
    /\ UNCHANGED <<cfg, clock, inst, arch, fcnt, handles>>

\* Archival moves the oldest completed instant off the active timeline. It
\* stops at the oldest pending instant and keeps at least one completed one;
\* file groups a replace commit replaced are cleaned before it is archived.
Archivable(t) ==
    /\ t \in ActiveDone /\ t = Min(ActiveDone) /\ Cardinality(ActiveDone) > 1
    /\ \A u \in Pending : u > t
    /\ \A g \in inst[t].repl : ~\E d \in DOMAIN base : d[1] = g[1] /\ d[2] = g[2]
Archive(t) ==
    /\ Archivable(t)
    /\ arch' = arch \cup {t}
    /\ UNCHANGED <<cfg, clock, inst, base, logs, fcnt, handles, cleaners>>

Open(h) ==
    /\ handles' = Put(handles, h, View)
    /\ UNCHANGED <<cfg, clock, inst, arch, base, logs, fcnt, cleaners>>

InitWith(c, parts) ==
    /\ cfg = c
    /\ clock = 2
    /\ inst = <<>> /\ arch = {} /\ base = <<>> /\ logs = <<>>
    /\ fcnt = [p \in parts |-> 0]
    /\ handles = <<>> /\ cleaners = {}

-----------------------------------------------------------------------------
(*                 What a write may plan (environment)                      *)

CurRows(p, f) == LET b == SliceAsOf(View, p, f, clock)
                 IN FgRows(View, p, f, b, clock, FALSE)
\* Live file groups a new write may extend.
LiveFgs == {<<s[1], s[2]>> : s \in SlicesAt(View, clock, <<>>)} \ Busy
UpdFgs == {<<s[1], s[2]>> : s \in SlicesAt(View, clock, <<>>)} \ (IF cfg.mor THEN BusyUpd ELSE Busy)
\* The base instant new log files of g carry.
CurBase(g) == IF Compacting(g) # {} THEN Max(Compacting(g)) ELSE SliceAsOf(View, g[1], g[2], clock)
\* Keys of p held, or about to be held, by another file group than f.
KeysElsewhere(p, f) ==
    ({r[2] : r \in {x \in Read(View, clock, <<>>, FALSE) : x[1] = p}} \ (IF f = 0 THEN {} ELSE {r[1] : r \in CurRows(p, f)}))
    \cup UNION {{r[1] : r \in UNION {it.rows : it \in {i \in ItemSet(t) : i.p = p}}} : t \in Pending}
FreeKeys(p, f, Keys) == IF cfg.app THEN Keys ELSE Keys \ KeysElsewhere(p, f)

BaseItem(p, f, rows, inc, mode) ==
    [k |-> "base", p |-> p, f |-> f, b |-> 0, nb |-> FALSE, roll |-> FALSE, rows |-> rows, inc |-> inc, mode |-> mode]
LogItem(p, f, b, rows, roll) ==
    [k |-> "log", p |-> p, f |-> f, b |-> b, nb |-> Compacting(<<p, f>>) # {}, roll |-> roll, rows |-> rows, inc |-> rows, mode |-> "merge"]

InsertItem(p, f, inc) == BaseItem(p, f, inc, inc, "put")
UpdateItem(g, inc, roll) ==
    IF cfg.mor THEN LogItem(g[1], g[2], CurBase(g), inc, roll)
    ELSE BaseItem(g[1], g[2], MergeRows(CurRows(g[1], g[2]) \cup inc), inc, "merge")
DeleteItem(g, inc) == BaseItem(g[1], g[2], DropKeys(CurRows(g[1], g[2]), {r[1] : r \in inc}), inc, "del")
CompactItem(g) == BaseItem(g[1], g[2], CurRows(g[1], g[2]), {}, "keep")
WriteAct == IF cfg.mor THEN "deltacommit" ELSE "commit"

-----------------------------------------------------------------------------
(*                             Properties                                   *)

Times == 0 .. (clock + 1)

\* Reads as of an instant before this may miss cleaned files.
horizon == Max(cleaners \cup {0})
\* A view whose files are all there: everything cleaned so far was cleaned
\* because of commits the view knows.
Intact(w) == \A c \in cleaners : Committed(w, c)

\* C02/C03/C04/C07 (and C01 on the reading side): every time travel read, and
\* so the snapshot, is the logical state of the table at that time.
ReadIsLogical == \A T \in Times : (T >= horizon /\ ActiveDone # {}) => Read(View, T, <<>>, FALSE) = Logical(T)

\* C02: every live record once.
LiveOnce == cfg.app \/
    \A T \in Times : \A r, s \in Logical(T) : (r[1] = s[1] /\ r[2] = s[2]) => r = s

\* C01: no row, slice or block of an instant that is not completed.
OnlyCommitted == \A T \in Times : \A r \in Read(View, T, <<>>, FALSE) : r[3] \in Done /\ r[3] <= T

\* What an instant wrote itself (clustering and compaction only move rows).
Written(t) == UNION {{<<it.p>> \o r : r \in {x \in it.inc : x[2] = t}} : it \in ItemSet(t)}

\* C05: sound and complete with respect to the logical state at the end.
IncrExact ==
    \A s \in Times, e \in Times :
        (s < e /\ e >= horizon /\ (\A a \in arch : a <= s) /\ IncrReadable(View, s, e)) =>
            LET got == Incr(View, s, e, FALSE)
                want == {r \in Logical(e) : s < r[3] /\ r[3] <= e}
            IN /\ want \subseteq got
               /\ \A r \in got : s < r[3] /\ r[3] <= e /\ r[3] \in Done
               /\ \A r \in got : r \in Written(r[3])
               /\ cfg.app \/ \A r, x \in got : (r[1] = x[1] /\ r[2] = x[2]) => r = x

\* C11
ReadOptimizedIsBase == \A T \in Times : T >= horizon =>
    Read(View, T, <<>>, TRUE) = UNION {{<<s[1]>> \o r : r \in base[s]} : s \in SlicesAt(View, T, <<>>)}

\* C12: whatever writers do, an open handle reads the same (until the cleaner
\* deletes files because of commits the handle does not know).
HandleStable == [][\A h \in DOMAIN handles :
                     (h \in DOMAIN handles' /\ handles'[h] = handles[h] /\ Intact(handles[h])') =>
                      \A T \in Times : T >= horizon' =>
                        Read(handles[h], T, <<>>, FALSE)' = Read(handles[h], T, <<>>, FALSE)]_vars
=============================================================================
