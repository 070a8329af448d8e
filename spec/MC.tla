--------------------------------- MODULE MC ---------------------------------
(* Exhaustive checking of HudiTable on small constants.  Kinds selects which *)
(* writer operations take part, so that several narrow-but-deep configurations *)
(* cover what one wide one could not.                                         *)
EXTENDS HudiTable
CONSTANTS Parts, Keys, Ords, MaxClock, MaxFid, Mor, App, Kinds, MaxPending, MaxBlocks, WithHandle

Rows(ks, ord, t) == {<<k, t, ord, k>> : k \in ks}
NonEmpty(S) == SUBSET S \ {{}}
NewFid(p) == fcnt[p] + 1
CanBegin == clock <= MaxClock /\ Cardinality(Pending) < MaxPending

Insert == \E p \in Parts, o \in Ords : \E ks \in NonEmpty(FreeKeys(p, 0, Keys)) :
    /\ NewFid(p) <= MaxFid
    /\ Begin(WriteAct, "insert", <<InsertItem(p, NewFid(p), Rows(ks, o, clock))>>, {})
Update == \E g \in UpdFgs, o \in Ords, roll \in BOOLEAN :
    /\ roll => cfg.mor
    /\ \E ks \in NonEmpty(FreeKeys(g[1], g[2], Keys)) :
         Begin(WriteAct, "upsert", <<UpdateItem(g, Rows(ks, o, clock), roll)>>, {})
UpsertTwo == \E g \in UpdFgs, o \in Ords :
    \E ks \in NonEmpty(FreeKeys(g[1], g[2], Keys)), k2 \in Keys, p \in Parts :
      /\ NewFid(p) <= MaxFid /\ k2 \in FreeKeys(p, 0, Keys) /\ (g[1] = p => k2 \notin ks)
      /\ Begin(WriteAct, "upsert", <<UpdateItem(g, Rows(ks, o, clock), FALSE),
                                    InsertItem(p, NewFid(p), Rows({k2}, o, clock))>>, {})
Delete == ~cfg.mor /\ \E g \in LiveFgs : \E ks \in NonEmpty({r[1] : r \in CurRows(g[1], g[2])}) :
    Begin(WriteAct, "delete", <<DeleteItem(g, Rows(ks, 0, clock))>>, {})
Compact == cfg.mor /\ \E g \in LiveFgs :
    /\ LogFiles(g[1], g[2], CurBase(g)) # <<>>
    /\ Begin("commit", "compact", <<CompactItem(g)>>, {})
Overwrite == \E p \in Parts, k \in Keys, o \in Ords :
    LET rep == {<<s[1], s[2]>> : s \in {x \in SlicesAt(View, clock, <<>>) : x[1] = p}} IN
    /\ NewFid(p) <= MaxFid
    /\ cfg.app \/ k \notin UNION {{r[1] : r \in UNION {it.rows : it \in {i \in ItemSet(t) : i.p = p}}} : t \in Pending}
    /\ Begin("replacecommit", "insert_overwrite", <<InsertItem(p, NewFid(p), Rows({k}, o, clock))>>, rep)
DropPart == \E p \in Parts :
    LET rep == {<<s[1], s[2]>> : s \in {x \in SlicesAt(View, clock, <<>>) : x[1] = p}} IN
    rep # {} /\ Begin("replacecommit", "delete_partition", <<>>, rep)
Cluster == \E p \in Parts : \E src \in NonEmpty({g \in LiveFgs : g[1] = p}) :
    LET rows == UNION {CurRows(g[1], g[2]) : g \in src} IN
    /\ NewFid(p) <= MaxFid
    /\ Begin("replacecommit", "cluster", <<InsertItem(p, NewFid(p), rows)>>, src)

BlockCount == LET n(d) == Cardinality(Blocks(d[1], d[2], d[3])) IN \A d \in DOMAIN logs : n(d) < MaxBlocks

Next ==
    \/ CanBegin /\ "insert" \in Kinds /\ Insert
    \/ CanBegin /\ "update" \in Kinds /\ BlockCount /\ Update
    \/ CanBegin /\ "two" \in Kinds /\ BlockCount /\ UpsertTwo
    \/ CanBegin /\ "delete" \in Kinds /\ Delete
    \/ CanBegin /\ "compact" \in Kinds /\ Compact
    \/ CanBegin /\ "overwrite" \in Kinds /\ Overwrite
    \/ CanBegin /\ "drop" \in Kinds /\ DropPart
    \/ CanBegin /\ "cluster" \in Kinds /\ Cluster
    \/ \E t \in Pending : Inflight(t) \/ WriteItem(t) \/ Complete(t)
    \/ "torn" \in Kinds /\ \E t \in Pending : TornBase(t)
    \/ "rollback" \in Kinds /\ \E t \in Pending :
          \/ clock <= MaxClock /\ RollbackBegin(t)
          \/ \E roll \in BOOLEAN : RollbackItem(t, roll)
          \/ RollbackEnd(t)
    \/ "clean" \in Kinds /\ \E d \in DOMAIN base : Clean(d[1], d[2], d[3])
    \/ "archive" \in Kinds /\ \E t \in ActiveDone : Archive(t)
    \/ WithHandle /\ handles = <<>> /\ Open(1)

Init == InitWith([mor |-> Mor, app |-> App, dims |-> 1], Parts)
Spec == Init /\ [][Next]_vars
=============================================================================
