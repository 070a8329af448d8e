------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Calls on one table handle, at the grain of their storage operations: a  *)
(* call reads commit metadata, lists partitions, lists the files of each,  *)
(* publishes what it listed in the file group cache the handle shares with *)
(* its clones, looks at every slice and reads it.  At every operation the  *)
(* call is suspended; the reply may come in any order, may be a failure,   *)
(* and the call may be cancelled while it waits.  Tasks run on Workers     *)
(* threads; a task that waits for a lock keeps its thread.  A writer adds  *)
(* file slices meanwhile.                                                  *)
(*                                                                         *)
(* Variant selects the design: "local" is the one that is required; the    *)
(* others are designs that look right call by call, and TLC must refute    *)
(* each of them (ReaderBad runs), which shows that the properties have     *)
(* teeth:                                                                  *)
(*   "shared"  - slices are collected from the shared cache                *)
(*   "accum"   - the cache adds to what was listed before, and is used     *)
(*   "lock"    - a cache entry stays locked while a slice is looked at     *)
(*   "swallow" - a partition whose listing fails counts as empty           *)
(*   "unfiltered" - files of instants the handle does not know are read    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Calls, Parts, Workers, Variant, MaxFaults, MaxCancel, Snap
\* instants: the handle knows 2 and 4; 3 is pending when it is opened
Known == {2, 4}
VARIABLES want, asof,   \* what each call asks for: partitions, instant
          files,        \* storage: partition -> instants of its base files
          pc, todo,     \* where a call is; the operations it still waits for
          mine,         \* what it listed
          out,          \* slices read so far
          cache, locked,\* shared: partition -> instants; partitions locked by a call
          run,          \* calls that occupy a thread
          hit, nf, nc
vars == <<want, asof, files, pc, todo, mine, out, cache, locked, run, hit, nf, nc>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
SliceOf(ts, T) == LET ok == {t \in ts : t <= T} IN IF ok = {} THEN {} ELSE {Max(ok)}
Pick(m, T) == UNION {{<<p, t>> : t \in SliceOf(m[p], T)} : p \in DOMAIN m}
\* The sequential answer.
Right(c) == Pick([p \in want[c] |-> {t \in {2, 4} : p # 2 \/ t # 2}], asof[c])

Init ==
    /\ want \in [Calls -> SUBSET Parts \ {{}}]
    /\ asof \in [Calls -> IF Snap THEN {4} ELSE {3, 4}]
    /\ files = [p \in Parts |-> {t \in {2, 4} : p # 2 \/ t # 2}]  \* partition 2 came with 4
    /\ pc = [c \in Calls |-> "new"] /\ todo = [c \in Calls |-> {}]
    /\ mine = [c \in Calls |-> <<>>] /\ out = [c \in Calls |-> {}]
    /\ cache = <<>> /\ locked = [c \in Calls |-> {}]
    /\ run = {} /\ hit = {} /\ nf = 0 /\ nc = 0

U(c, f) == [f EXCEPT ![c] = @]
Over == {"ok", "err", "gone"}
\* A call gets a thread when it is new or one of its replies is there.
Suspend(c, where, ops) == pc' = [pc EXCEPT ![c] = where] /\ todo' = [todo EXCEPT ![c] = ops]

Start(c) ==
    /\ pc[c] = "new" /\ Cardinality(run) < Workers
    /\ Suspend(c, "parts", {0})
    /\ UNCHANGED <<want, asof, files, mine, out, cache, locked, run, hit, nf, nc>>

Visible(ts) == IF Variant = "unfiltered" THEN ts ELSE ts \cap Known

Reply(c) ==
    /\ pc[c] \in {"parts", "files", "head", "read"} /\ todo[c] # {}
    /\ Cardinality(run) < Workers
    /\ \E x \in todo[c] :
       LET left == todo[c] \ {x} IN
       CASE pc[c] = "parts" ->
              /\ Suspend(c, "files", want[c])
              /\ UNCHANGED <<mine, out, locked, run>>
         [] pc[c] = "files" ->
              /\ mine' = [mine EXCEPT ![c] = (x :> Visible(files[x])) @@ @]
              /\ IF left = {} THEN Suspend(c, "publish", {}) /\ run' = run \cup {c}
                 ELSE Suspend(c, "files", left) /\ UNCHANGED run
              /\ UNCHANGED <<out, locked>>
         [] pc[c] = "head" ->
              /\ IF left = {} THEN Suspend(c, "read", out[c]) ELSE Suspend(c, "head", left)
              /\ locked' = [locked EXCEPT ![c] = IF left = {} THEN {} ELSE @]
              /\ UNCHANGED <<mine, out, run>>
         [] pc[c] = "read" ->
              /\ IF left = {} THEN Suspend(c, "ok", {}) ELSE Suspend(c, "read", left)
              /\ UNCHANGED <<mine, out, locked, run>>
    /\ UNCHANGED <<want, asof, files, cache, hit, nf, nc>>

\* Publish what was listed; a lock another call holds on an entry blocks the thread.
Publish(c) ==
    /\ pc[c] = "publish" /\ c \in run
    /\ \A d \in Calls \ {c} : locked[d] \cap DOMAIN mine[c] = {}
    /\ cache' = mine[c] @@ cache
    /\ LET src == IF Variant = "shared" THEN cache' ELSE mine[c]
           sl == Pick(src, asof[c]) IN
       /\ out' = [out EXCEPT ![c] = sl]
       /\ IF sl = {} THEN Suspend(c, "ok", {}) ELSE Suspend(c, "head", sl)
       /\ locked' = IF Variant = "lock" /\ sl # {} THEN [locked EXCEPT ![c] = {s[1] : s \in sl}] ELSE locked
    /\ run' = run \ {c}
    /\ UNCHANGED <<want, asof, files, mine, hit, nf, nc>>

\* A storage operation fails: the call ends with an error.
Fail(c) ==
    /\ nf < MaxFaults /\ pc[c] \in {"parts", "files", "head", "read"} /\ todo[c] # {}
    /\ Cardinality(run) < Workers
    /\ nf' = nf + 1 /\ hit' = hit \cup {c}
    /\ IF Variant = "swallow" /\ pc[c] = "files"
       THEN \E x \in todo[c] :
              /\ mine' = [mine EXCEPT ![c] = (x :> {}) @@ @]
              /\ IF todo[c] = {x} THEN Suspend(c, "publish", {}) /\ run' = run \cup {c} ELSE Suspend(c, "files", todo[c] \ {x}) /\ UNCHANGED run
              /\ UNCHANGED locked
       ELSE /\ Suspend(c, "err", {}) /\ locked' = [locked EXCEPT ![c] = {}]
            /\ UNCHANGED <<mine, run>>
    /\ UNCHANGED <<want, asof, files, out, cache, nc>>

Cancel(c) ==
    /\ nc < MaxCancel /\ pc[c] \in {"parts", "files", "head", "read"}
    /\ nc' = nc + 1
    /\ Suspend(c, "gone", {}) /\ locked' = [locked EXCEPT ![c] = {}]
    /\ UNCHANGED <<want, asof, files, mine, out, cache, run, hit, nf>>

\* A writer adds file slices of instants the handle does not know.
Write(p, t) ==
    /\ t \notin files[p]
    /\ files' = [files EXCEPT ![p] = @ \cup {t}]
    /\ UNCHANGED <<want, asof, pc, todo, mine, out, cache, locked, run, hit, nf, nc>>

Next == \/ \E c \in Calls : Start(c) \/ Reply(c) \/ Publish(c) \/ Fail(c) \/ Cancel(c)
        \/ \E p \in Parts : Write(p, 3)
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Start(c)) /\ WF_vars(Reply(c)) /\ WF_vars(Publish(c))

\* C13, C12: whatever else goes on, an answer is the sequential one.
Isolated == \A c \in Calls : pc[c] = "ok" => out[c] = Right(c)
\* C24: only a storage failure of its own makes a call fail, and it then says so.
ErrOnlyIfHit == \A c \in Calls : pc[c] = "err" => c \in hit
HitIsTold == \A c \in hit : pc[c] # "ok" \/ out[c] = Right(c)
\* C13: no call waits for ever.
AllFinish == \A c \in Calls : <>(pc[c] \in Over)
=============================================================================
