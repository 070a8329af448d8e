------------------------------ MODULE HudiGen ------------------------------
(***************************************************************************)
(* Random behaviours of HudiTable, with observations and their expected    *)
(* results, for replay against the real library.  Run with `tlc -simulate`:*)
(* every step appends an event to hist; when the behaviour is over the     *)
(* whole event list is printed as JSON.  An observation event carries the  *)
(* value of the corresponding HudiTable operator in the state in which it  *)
(* is made, so the specification is the oracle of the replay; the          *)
(* properties of HudiTable are checked as invariants along the way.        *)
(***************************************************************************)
EXTENDS HudiSql, Json, SequencesExt
CONSTANTS Mix,      \* sequence of writer kinds (repetition = weight)
          Qs,       \* sequence of observation kinds (repetition = weight)
          Steps,    \* number of writer steps
          Battery,  \* number of observations at the end
          ObsPct,   \* percentage of observations between writer steps
          MorSet, AppSet, DimsSet, Keys, OrdSet,
          MaxH,     \* number of long-lived handles
          Filters   \* observations are made with filters too
VARIABLES hist, left, tail, stop
gvars == <<vars, hist, left, tail, stop>>

NParts(d) == CASE d = 0 -> 1 [] d = 1 -> 3 [] d = 2 -> 4
Parts == DOMAIN fcnt
Coin(pct) == RandomElement(1..100) <= pct
RandSub(S, pct) == {x \in S : RandomElement(1..100) <= pct}
Log(e) == hist' = Append(hist, e)
UpTo(s, n) == SubSeq(s, 1, Min({n, Len(s)}))

PlannedKeys(p) == UNION {{r[1] : r \in UNION {it.rows : it \in {i \in ItemSet(t) : i.p = p}}} : t \in Pending}

(* ---- planning a write ---------------------------------------------------*)
\* Targets <<p, f, new?>>; keys that are new to the partition are dealt to
\* the items by residue so that two items never introduce the same key.
AllowedKeys(tg, i, n) ==
    LET p == tg[1] f == IF tg[3] THEN 0 ELSE tg[2]
        held == IF f = 0 THEN {} ELSE {r[1] : r \in CurRows(p, f)}
    IN {k \in FreeKeys(p, f, Keys) : cfg.app \/ k \in held \/ k % n = i % n}

DoBegin(act, op, its, repl) ==
    /\ Begin(act, op, its, repl)
    /\ Log([ev |-> "begin", t |-> clock, act |-> act, op |-> op, items |-> its, repl |-> repl])

MkItem(tg, i, rs, roll) ==
    IF tg[3] THEN InsertItem(tg[1], tg[2], rs) ELSE UpdateItem(<<tg[1], tg[2]>>, rs, roll)

GenWrite(upct, ipct) ==
    \E upds \in {RandSub(UpdFgs, upct)}, ins \in {RandSub(Parts \X (1..2), ipct)} :
    \E tg \in {UpTo(SetToSeq({<<g[1], g[2], FALSE>> : g \in upds}
                      \cup {<<x[1], fcnt[x[1]] + x[2], TRUE>> : x \in ins}), 3)} :
    \E rk \in {{x \in (1..Len(tg)) \X Keys : x[2] \in AllowedKeys(tg[x[1]], x[1], Len(tg)) /\ Coin(65)}} :
    \E ro \in {{<<x[1], x[2], RandomElement(OrdSet), RandomElement(1..8) = 1>> : x \in rk}} :
    \E rolls \in {RandSub(1..Len(tg), 50)} :
      LET rows(i) == {<<x[2], clock, x[3], 10 * i + x[2]>> : x \in {y \in ro : y[1] = i}}
          \* the same key a second time in one log block
          dup(i) == IF cfg.mor /\ ~tg[i][3]
                    THEN {<<x[2], clock, x[3], 10 * i + x[2] + 5>> : x \in {y \in ro : y[1] = i /\ y[4]}} ELSE {}
          its == SelectSeq([i \in 1..Len(tg) |-> MkItem(tg[i], i, rows(i) \cup dup(i), i \in rolls)],
                           LAMBDA it : it.rows # {} \/ it.mode = "del")
          \* a log file may roll over in the middle of a write: two write
          \* statistics of one file group in the same commit
          Split(it, sp) == IF it.k = "base" \/ ~sp \/ Cardinality({r[1] : r \in it.rows}) < 2 THEN <<it>>
                           ELSE LET k == Min({r[1] : r \in it.rows})
                                    one == {r \in it.rows : r[1] = k}
                                IN <<LogItem(it.p, it.f, it.b, one, it.roll), LogItem(it.p, it.f, it.b, it.rows \ one, TRUE)>>
      IN \E sp \in {Coin(30)} :
          its # <<>> /\ DoBegin(WriteAct, IF upct = 0 THEN "insert" ELSE "upsert", FlattenSeq([i \in DOMAIN its |-> Split(its[i], sp)]), {})

GenDelete ==
    \E upds \in {RandSub(LiveFgs, 60)} :
    \E tg \in {UpTo(SetToSeq(upds), 2)} :
    \E rk \in {{x \in (1..Len(tg)) \X Keys : x[2] \in {r[1] : r \in CurRows(tg[x[1]][1], tg[x[1]][2])} /\ Coin(60)}} :
      LET its == [i \in 1..Len(tg) |-> DeleteItem(tg[i], {<<x[2], clock, 0, 10 * i + x[2]>> : x \in {y \in rk : y[1] = i}})]
      IN tg # <<>> /\ DoBegin("commit", "delete", its, {})

GenCompact ==
    \E src \in {RandSub({g \in LiveFgs : LogFiles(g[1], g[2], CurBase(g)) # <<>>}, 80)} :
      LET tg == SetToSeq(src) its == [i \in 1..Len(tg) |-> CompactItem(tg[i])]
      IN tg # <<>> /\ DoBegin("commit", "compact", its, {})

PartFgs(ps) == {<<s[1], s[2]>> : s \in {x \in SlicesAt(View, clock, <<>>) : x[1] \in ps}}

GenOverwrite ==
    \E ps \in {RandSub(Parts, 50)} :
    \E rk \in {{x \in ps \X Keys : (cfg.app \/ x[2] \notin PlannedKeys(x[1])) /\ Coin(60)}} :
    \E ro \in {{<<x[1], x[2], RandomElement(OrdSet)>> : x \in rk}} :
      LET tg == SetToSeq({x[1] : x \in ro})
          its == [i \in 1..Len(tg) |-> InsertItem(tg[i], fcnt[tg[i]] + 1,
                    {<<x[2], clock, x[3], 10 * i + x[2]>> : x \in {y \in ro : y[1] = tg[i]}})]
      IN tg # <<>> /\ DoBegin("replacecommit", "insert_overwrite", its, PartFgs({x[1] : x \in ro}))

GenDrop ==
    \E p \in {RandomElement(Parts)} :
      PartFgs({p}) # {} /\ DoBegin("replacecommit", "delete_partition", <<>>, PartFgs({p}))

\* Clustering: moves rows of file groups of one or more partitions unchanged
\* into one new file group per partition.
GenCluster ==
    \E src \in {RandSub(LiveFgs, 60)} :
      LET tg == SetToSeq({g[1] : g \in src})
          its == [i \in 1..Len(tg) |-> InsertItem(tg[i], fcnt[tg[i]] + 1,
                    UNION {CurRows(g[1], g[2]) : g \in {x \in src : x[1] = tg[i]}})]
      IN src # {} /\ DoBegin("replacecommit", "cluster", its, src)

\* A commit that writes nothing.
GenEmpty == DoBegin(WriteAct, "upsert", <<>>, {})

\* Insert one whole behaviour at once so that reads see enough history:
\* the "full" kinds do begin .. complete in separate events anyway.
CanMany == Cardinality(Pending) < 2

WriterKind(k) ==
    CASE k = "insert"    -> CanMany /\ GenWrite(0, 40)
      [] k = "upsert"    -> CanMany /\ GenWrite(60, 15)
      [] k = "delete"    -> CanMany /\ ~cfg.mor /\ GenDelete
      [] k = "compact"   -> CanMany /\ cfg.mor /\ GenCompact
      [] k = "overwrite" -> CanMany /\ GenOverwrite
      [] k = "drop"      -> CanMany /\ GenDrop
      [] k = "cluster"   -> CanMany /\ GenCluster
      [] k = "empty"     -> CanMany /\ GenEmpty
      [] k = "step"      -> \E t \in {RandomElement(Pending)} :
                              \/ Inflight(t) /\ Log([ev |-> "inflight", t |-> t])
                              \/ WriteItem(t) /\ Log([ev |-> "witem", t |-> t, i |-> inst[t].n + 1])
                              \/ Complete(t) /\ Log([ev |-> "complete", t |-> t])
                              \/ RollbackItem(t, FALSE) /\ Log([ev |-> "rbitem", t |-> t, i |-> inst[t].n, rb |-> inst[t].rb, roll |-> FALSE])
                              \/ RollbackItem(t, TRUE) /\ Log([ev |-> "rbitem", t |-> t, i |-> inst[t].n, rb |-> inst[t].rb, roll |-> TRUE])
                              \/ RollbackEnd(t) /\ Log([ev |-> "rbend", t |-> t, rb |-> inst[t].rb])
      [] k = "torn"      -> \E t \in {RandomElement(Pending)} :
                              TornBase(t) /\ Log([ev |-> "torn", t |-> t, i |-> inst[t].n + 1])
      [] k = "rollback"  -> \E t \in {RandomElement(Pending)} :
                              RollbackBegin(t) /\ Log([ev |-> "rbbegin", t |-> t, rb |-> clock, n |-> inst'[t].n])
      [] k = "clean"     -> \E d \in {RandomElement({x \in DOMAIN base : Cleanable(x[1], x[2], x[3])})} :
                              Clean(d[1], d[2], d[3]) /\ Log([ev |-> "clean", p |-> d[1], f |-> d[2], b |-> d[3]])
      [] k = "archive"   -> \E t \in {Min(ActiveDone)} : Archive(t) /\ Log([ev |-> "archive", t |-> t])
      [] k = "open"      -> \E h \in {RandomElement(1..MaxH)} : Open(h) /\ Log([ev |-> "open", h |-> h])

\* Kinds that can make a step now (cheap approximations; a kind that then
\* finds nothing to do is made up for by "step"/"insert" in the mix).
Possible(k) ==
    CASE k \in {"insert", "empty"} -> CanMany
      [] k = "upsert" -> CanMany /\ UpdFgs # {}
      [] k \in {"delete", "compact", "cluster", "drop", "overwrite"} -> CanMany /\ LiveFgs # {}
      [] k \in {"step", "rollback", "torn"} -> Pending # {}
      [] k = "clean" -> \E x \in DOMAIN base : Cleanable(x[1], x[2], x[3])
      [] k = "archive" -> ActiveDone # {}
      [] k = "open" -> MaxH > 0
      [] OTHER -> FALSE

WriterStep ==
    \E i \in {RandomElement({j \in DOMAIN Mix : Possible(Mix[j])})} : WriterKind(Mix[i])

(* ---- observations --------------------------------------------------------*)
RdHandles == {0} \cup {h \in DOMAIN handles : Intact(handles[h])}
ViewOf(h) == IF h = 0 THEN View ELSE handles[h]

MaxCoord(c) == IF cfg.dims = 2 THEN 2 ELSE NParts(cfg.dims)
RandFilter == [c |-> RandomElement(1..Max2(cfg.dims, 1)), op |-> RandomElement({"=", "!=", "<", "<=", ">", ">="}),
               x |-> RandomElement(1..7)]
TimesOk == {T \in Times : T >= horizon}

SliceObs(w, ss, fresh) == {<<s[1], s[2], s[3], IF fresh THEN SliceLogCount(w, s[1], s[2], s[3]) ELSE -1>> : s \in ss}

\* e = -1: no end given.
End(w, e) == IF e = -1 THEN Latest(w) ELSE e

HasFile(c) == \E it \in ItemSet(c) : ~it.nb /\ <<it.p, it.f, IF it.k = "base" THEN c ELSE it.b>> \in DOMAIN base

Expect(q, w, h, T, s, e, flt, ro) ==
    LET TT == IF T = -1 THEN Latest(w) ELSE T IN
    CASE q \in {"snap", "asof", "slread"} -> Read(w, TT, flt, ro)
      [] q \in {"slices", "splits"} -> SliceObs(w, SlicesAt(w, TT, flt), h = 0)
      [] q \in {"incr", "islread"} -> IF w.C = {} THEN {} ELSE Incr(w, s, End(w, e), ro)
      [] q = "ibetween" -> SliceObs(w, IncrSlices(w, s, End(w, e)), FALSE)
      [] q = "tl" -> {<<t, inst[t].act, inst[t].op>> : t \in ActiveDone}
      \* C20: the commits known, whether they left a data file to take the
      \* schema from, and whether they wrote any: the schema is that of the
      \* latest with a file together with the columns added by later commits,
      \* the Avro schema that of the latest that has one.
      [] q = "schema" -> {<<t, IF HasFile(t) THEN 1 ELSE 0, IF inst[t].items # <<>> THEN 1 ELSE 0>> : t \in w.C}

\* A handle whose instants were archived since may not find their metadata.
ErrOk(w) == w.C \cap arch # {}
\* Some file the known commits wrote to is left to take the schema from. Without
\* one, whatever needs the schema may fail.
SchemaKnown(w) == \E c \in w.C : HasFile(c)
SchemaErrOk(w, q, flt) == ~SchemaKnown(w) /\ (q \in {"schema", "sql"} \/ (flt # <<>> /\ w.C # {}))
Answerable(q, w, s, e) == q \in {"incr", "ibetween", "islread"} => (w.C = {} \/ IncrReadable(w, s, End(w, e)))

\* Random choices of an observation, fixed together.
RandObs == [asof |-> RandomElement(TimesOk), a |-> RandomElement(Times), b |-> RandomElement(Times),
            noend |-> RandomElement(1..3) = 1, nf |-> RandomElement(0..3), n |-> RandomElement({0, 1, 2, 3, 4, 7, 1000000, -1, -2}),
            f1 |-> RandFilter, f2 |-> RandFilter, latest |-> Coin(35), ro |-> Coin(25)]
Skip == [ev |-> "skip"]
\* The observation on handle h (0: opened for it), and what it must return;
\* fresh: the number of log files of slices is known.
ObsOf(q, h, x, query, fresh) ==
    LET hh == IF q \in {"tl", "sql"} THEN 0 ELSE h
        w == ViewOf(hh)
        T == IF q \in {"snap", "sql"} \/ (q # "asof" /\ x.latest) THEN -1 ELSE x.asof
        s == Min({x.a, x.b})
        e == IF x.noend THEN -1 ELSE Max({x.a, x.b})
        flt == IF cfg.dims = 0 \/ ~Filters \/ q \in {"sql", "tl", "schema"} THEN <<>> ELSE UpTo(<<x.f1, x.f2>>, IF x.nf = 3 THEN 1 ELSE x.nf)
        ro == hh = 0 /\ fresh /\ (q = "sql" \/ (x.ro /\ q \in {"snap", "asof", "slread"}))
        safe == T # -1 \/ Latest(w) >= horizon \/ q \in {"tl", "schema", "incr", "ibetween", "islread"}
    IN IF safe /\ Answerable(q, w, s, e)
       THEN (IF q = "sql" THEN [sql |-> query] ELSE <<>>) @@
            [ev |-> "obs", q |-> q, h |-> hh, T |-> T, s |-> s, e |-> e, n |-> x.n, flt |-> flt, ro |-> ro,
             errok |-> ErrOk(w) \/ SchemaErrOk(w, q, flt),
             exp |-> IF q = "sql" THEN Query(Read(w, Latest(w), <<>>, TRUE), query.pred)
                     ELSE Expect(q, w, IF fresh THEN hh ELSE 99, T, s, e, flt, ro)]
       ELSE Skip

\* Several calls on one handle at a time, released by sched (Reader.tla): the
\* writer steps that follow happen meanwhile. fault: the release that is
\* answered with a failure; cancel: the release after which call 1 is dropped.
ParQs == <<"snap", "snap", "asof", "asof", "slices", "incr", "slread", "splits", "ibetween", "islread">>
GenPar ==
    \E h \in {RandomElement(RdHandles)}, xs \in {[i \in 1..RandomElement(2..5) |-> RandObs]},
       sched \in {[i \in 1..24 |-> RandomElement(0..5)]}, fault \in {IF Coin(30) THEN RandomElement(1..25) ELSE -1},
       cancel \in {IF Coin(30) THEN RandomElement(1..20) ELSE -1}, during \in {RandomElement(0..6)} :
    \E qs \in {[i \in DOMAIN xs |-> ParQs[RandomElement(DOMAIN ParQs)]]} :
      LET calls == SelectSeq([i \in DOMAIN xs |-> ObsOf(qs[i], h, xs[i], <<>>, FALSE)], LAMBDA o : o.ev = "obs")
      IN IF calls = <<>> THEN Log(Skip)
         ELSE Log([ev |-> "par", q |-> "par", h |-> h, calls |-> calls, sched |-> sched, fault |-> fault, cancel |-> cancel, during |-> during])

GenObs ==
    \E i \in {RandomElement(DOMAIN Qs)} :
      IF Qs[i] = "par" THEN GenPar
      ELSE \E h \in {RandomElement(RdHandles)}, x \in {RandObs} :
           \E query \in {IF Qs[i] = "sql" THEN RandQuery ELSE <<>>} : Log(ObsOf(Qs[i], h, x, query, TRUE))

GenNext ==
    \/ /\ left > 0
       /\ \E o \in {Coin(ObsPct)} :
            IF o THEN GenObs /\ UNCHANGED <<vars, left>> ELSE WriterStep /\ left' = left - 1
       /\ UNCHANGED <<tail, stop>>
    \/ left > 0 /\ UNCHANGED gvars  \* the chosen kind may have nothing to do
    \/ /\ left = 0 /\ tail > 0
       /\ GenObs /\ tail' = tail - 1
       /\ UNCHANGED <<vars, left, stop>>
    \/ /\ left = 0 /\ tail = 0 /\ ~stop
       /\ PrintT(ToJson([hist |-> hist])) /\ stop' = TRUE
       /\ UNCHANGED <<vars, hist, left, tail>>

GenInit ==
    /\ \E m \in MorSet, a \in AppSet, d \in DimsSet : InitWith([mor |-> m, app |-> a, dims |-> d], 1..NParts(d))
    /\ hist = <<[ev |-> "reset", mor |-> cfg.mor, app |-> cfg.app, dims |-> cfg.dims]>>
    /\ left = Steps /\ tail = Battery /\ stop = FALSE
\* The properties of HudiTable, checked once per behaviour, at its end.
AtEnd(I) == (left = 0 /\ tail = Battery) => I
GenReadIsLogical == AtEnd(ReadIsLogical)
GenLiveOnce == AtEnd(LiveOnce)
GenOnlyCommitted == AtEnd(OnlyCommitted)
GenIncrExact == AtEnd(IncrExact)
GenReadOptimized == AtEnd(ReadOptimizedIsBase)
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
