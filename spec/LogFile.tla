------------------------------- MODULE LogFile -------------------------------
(***************************************************************************)
(* A log file at the grain of its fields, what damage can do to it, and    *)
(* the reader of it.                                                       *)
(*                                                                         *)
(* A file is a sequence of tokens, one per field; bytes of variable length *)
(* fields are tokens of their own, so that a length that is wrong makes    *)
(* the reader run into fields it does not expect (bytes read out of step   *)
(* are taken never to look like the field expected: that assumption is     *)
(* what the replay of every behaviour against the real reader tests).      *)
(* One field is changed, or the file is cut, or something is appended;     *)
(* then the blocks are read one by one.  Variant selects the reader:       *)
(* "strict" is the one required; TLC must refute the others, which look    *)
(* right on every undamaged file:                                          *)
(*   "eof"      - the end of the file inside a block ends the file         *)
(*   "magic"    - what is no start marker ends the file                    *)
(*   "command"  - a command block that is no rollback is ignored           *)
(*   "skip"     - blocks of types that are not supported are skipped       *)
(*   "trust"    - the record count is believed, the rest is skipped        *)
(*   "length"   - the next block is looked for at the block length         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBlocks, Kinds, Vers, MixedVers, Bad, Variant, Emit
VARIABLES blocks,  \* the blocks as written: [kind, ver, tgt]
          toks,    \* their tokens
          split,   \* blocks up to this one are in the first log file, 0: all in one
          arch,    \* the instants of the blocks have left the timeline
          dmg, file, pos, st, got
vars == <<blocks, toks, split, arch, dmg, file, pos, st, got>>

Data == {"avro", "parquet"}
Time(i) == 2 + 2 * i
KeysOf(i) == {((i - 1) % 3) + 1, (i % 3) + 1}
Type(k) == CASE k = "roll" -> 0 [] k = "delete" -> 1 [] k = "corrupted" -> 2 [] k = "avro" -> 3
             [] k = "hfile" -> 4 [] k = "parquet" -> 5 [] k = "cdc" -> 6

-----------------------------------------------------------------------------
(*                              What is written                             *)
T(f, j, v) == [f |-> f, j |-> j, v |-> v]
\* header keys: 0 instant, 1 target, 2 schema, 3 command type
Header(b) == IF b.kind = "roll" THEN <<0, 1, 3>> ELSE <<0, 2>>
Entry(j, k) == <<T("hkey", j, k), T("hlen", j, 2), T("hb", j, k), T("hb", j, k)>>
Record(j) == <<T("rlen", j, 2), T("rb", j, 0), T("rb", j, 0)>>
Content(b) == CASE b.kind = "avro" -> <<T("aver", 0, 3), T("acount", 0, 2)>> \o Record(1) \o Record(2)
                [] b.kind = "roll" -> <<>>
                [] OTHER -> <<T("pq", 0, 0), T("pq", 0, 0), T("pend", 0, 0)>>
RECURSIVE Entries(_, _)
Entries(h, j) == IF j > Len(h) THEN <<>> ELSE Entry(j, h[j]) \o Entries(h, j + 1)
Body(b) == <<T("ver", 0, b.ver), T("type", 0, Type(b.kind)), T("hcount", 0, Len(Header(b)))>> \o Entries(Header(b), 1)
           \o <<T("clen", 0, Len(Content(b)))>> \o Content(b)
Foot(b, n) == IF b.ver = 1 THEN <<T("fcount", 0, 0), T("total", 0, n)>> ELSE <<>>
\* The length counts what follows the marker (without the length in itself).
BlockTokens(b) == LET n == Len(Body(b)) + (IF b.ver = 1 THEN 2 ELSE 0)
                  IN <<T("magic", 0, 0), T("len", 0, n)>> \o Body(b) \o Foot(b, n + 2)
\* Tokens know the block they were written in.
Mark(i, b) == LET t == BlockTokens(b) IN [x \in DOMAIN t |-> [t[x] EXCEPT !.j = <<i, @>>]]
Own(i) == toks[i]
RECURSIVE Tokens(_, _)
Tokens(from, to) == IF from > to THEN <<>> ELSE Own(from) \o Tokens(from + 1, to)

\* The blocks of the log file that is damaged: file 1 when d.in = 1.
First(d) == IF split = 0 \/ d.in = 1 THEN 1 ELSE split + 1
Last(d) == IF split # 0 /\ d.in = 1 THEN split ELSE Len(blocks)

-----------------------------------------------------------------------------
(*                                 Damage                                   *)
Values == 0..7 \cup {100}
Names(S) == {ToString(n) : n \in S}
Changes(tok, i) ==
    CASE tok.f = "magic" -> {"flip"}
      [] tok.f \in {"len", "total"} -> {"zero", "dec", "inc", "huge", "max", "skip"}
      [] tok.f = "ver" -> Names({0, 1, 2, 3, 4, 100} \ {tok.v})
      [] tok.f = "type" -> Names((0..7 \cup {100}) \ {tok.v})
      [] tok.f = "hkey" -> Names((0..7 \cup {100}) \ {tok.v})
      [] tok.f = "hcount" -> {"zero", "dec", "inc", "huge", "max"}
      [] tok.f \in {"hlen", "rlen", "clen"} -> (IF tok.v = 0 THEN {} ELSE {"zero", "dec"}) \cup {"inc", "huge", "max"} \cup (IF tok.f = "clen" THEN {"skip"} ELSE {})
      [] tok.f = "hb" -> {"flip"} \cup (IF tok.v = 3 THEN {"other"} ELSE {})
      [] tok.f = "aver" -> Names({0, 2, 4})
      [] tok.f = "acount" -> {"zero", "dec", "inc", "huge", "max"}
      [] tok.f = "fcount" -> {"inc", "huge", "max"}
      [] tok.f = "pend" -> {"flip"}
      [] OTHER -> {}
Size(i) == Len(toks[i])
NewValue(tok, i, c) ==
    CASE c = "zero" -> 0 [] c = "dec" -> tok.v - 1 [] c = "inc" -> tok.v + 1 [] c = "huge" -> 90 [] c = "max" -> 100
      [] c = "skip" -> tok.v + (IF i < Len(blocks) THEN Size(i + 1) ELSE 1)
      [] c = "flip" -> 98 [] c = "other" -> 97
      [] OTHER -> CHOOSE n \in Values : ToString(n) = c
None == [k |-> "none", in |-> 1, blk |-> 0, f |-> "", j |-> 0, c |-> ""]

Damages ==
    LET files == IF split = 0 THEN {1} ELSE {1, 2}
        of(fi) == First([in |-> fi])..Last([in |-> fi])
        D(k, fi, b, f, j, c) == [k |-> k, in |-> fi, blk |-> b, f |-> f, j |-> j, c |-> c]
    IN {None}
       \cup UNION {UNION {UNION {{D("set", fi, b, Own(b)[x].f, Own(b)[x].j[2], c) : c \in Changes(Own(b)[x], b)}
                                  : x \in DOMAIN Own(b)} : b \in of(fi)} : fi \in files}
       \cup UNION {UNION {{D("cut", fi, b, Own(b)[x].f, Own(b)[x].j[2], c) : x \in DOMAIN Own(b), c \in {"at", "in"}}
                           : b \in of(fi)} : fi \in files}
       \cup {D("tail", fi, 0, "", 0, c) : fi \in files, c \in {"part", "junk", "torn", "zeros"}}

\* Only the first of the bytes of a field stands for all of them.
Hits(tok, d) == tok.f = d.f /\ tok.j = <<d.blk, d.j>>
Apply(d) ==
    LET t == Tokens(First(d), Last(d))
        \* the lower index of the token hit
        at == {x \in DOMAIN t : Hits(t[x], d)}
        x == CHOOSE y \in at : \A z \in at : y <= z
    IN CASE d.k = "set" -> [t EXCEPT ![x].v = NewValue(t[x], d.blk, d.c)]
         [] d.k = "cut" -> IF d.c = "at" THEN SubSeq(t, 1, x - 1) ELSE Append(SubSeq(t, 1, x - 1), [t[x] EXCEPT !.f = "bit"])
         [] d.k = "tail" -> t \o (CASE d.c = "part" -> <<T("bit", <<0, 0>>, 0)>> [] d.c = "torn" -> <<T("magic", <<0, 0>>, 0)>>
                                    [] OTHER -> <<T("junk", <<0, 0>>, 0)>>)
         [] OTHER -> t

-----------------------------------------------------------------------------
(*                                The reader                                *)
\* Every step gives [ok, p (position), v]; "end": the file is over there.
Fail == [ok |-> FALSE, p |-> 0, v |-> 0]
At(p) == IF p > Len(file) THEN "eof" ELSE file[p].f
Num(p, f) == IF At(p) = f THEN [ok |-> TRUE, p |-> p + 1, v |-> file[p].v] ELSE [Fail EXCEPT !.p = p]
\* n bytes, all of the field f
Bytes(p, n, f) == IF /\ p + n - 1 <= Len(file) /\ \A x \in p..(p + n - 1) : file[x].f = f /\ file[x].v < 98
                  THEN [ok |-> TRUE, p |-> p + n, v |-> IF n = 0 THEN 0 ELSE file[p].v] ELSE [Fail EXCEPT !.p = p]

RECURSIVE ReadHeader(_, _, _)
\* -> [ok, p, v: the set of <<key, value>>]; a key given twice keeps its last value
ReadHeader(p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, p |-> p, v |-> acc]
    ELSE LET k == Num(p, "hkey") IN
         IF ~k.ok \/ k.v > 6 THEN Fail
         ELSE LET l == Num(k.p, "hlen") IN
              IF ~l.ok THEN [Fail EXCEPT !.p = l.p]
              ELSE LET b == Bytes(l.p, l.v, "hb") IN
                   IF ~b.ok THEN [Fail EXCEPT !.p = l.p]
                   ELSE ReadHeader(b.p, n - 1, {e \in acc : e[1] # k.v} \cup {<<k.v, b.v>>})

RECURSIVE ReadRecords(_, _, _)
ReadRecords(p, n, end) ==
    IF n = 0 THEN [ok |-> TRUE, p |-> p, v |-> 0]
    ELSE LET l == Num(p, "rlen") IN
         IF ~l.ok THEN Fail
         ELSE LET b == Bytes(l.p, IF l.v > 2 THEN 2 ELSE l.v, "rb")
              IN IF ~b.ok \/ l.v < 2 \/ b.p - 1 > end THEN Fail ELSE ReadRecords(b.p, n - 1, end)

Has(h, k) == \E e \in h : e[1] = k
ValueOf(h, k) == (CHOOSE e \in h : e[1] = k)[2]

\* The content: number of records seen
ReadContent(p, ty, h) ==
    LET l == Num(p, "clen") IN
    IF ~l.ok THEN Fail
    ELSE IF ty = 0 THEN [ok |-> TRUE, p |-> l.p, v |-> 0]
    ELSE IF ty = 3 THEN
        LET e == l.p + l.v - 1
            a == Num(l.p, "aver")
            n == Num(l.p + 1, "acount")
        IN IF ~Has(h, 2) \/ ~a.ok \/ a.v # 3 \/ ~n.ok \/ e < n.p - 1 THEN Fail
           ELSE IF Variant = "trust" /\ n.v < 2 THEN [ok |-> TRUE, p |-> l.p + l.v, v |-> n.v]
           ELSE LET r == ReadRecords(n.p, n.v, e) IN IF r.ok THEN [r EXCEPT !.v = n.v] ELSE Fail
    ELSE IF ty = 5 THEN
        \* whatever there is up to the length; the last field must be the end of a Parquet file
        LET e == IF l.p + l.v - 1 > Len(file) THEN Len(file) ELSE l.p + l.v - 1
        IN IF e - l.p = 2 /\ Bytes(l.p, 2, "pq").ok /\ Bytes(e, 1, "pend").ok THEN [ok |-> TRUE, p |-> e + 1, v |-> 2] ELSE Fail
    ELSE Fail

\* One block from p: [st: "ok"/"err"/"end", p, blk]
ReadBlock(p) ==
    LET bad == [st |-> "err", p |-> p, blk |-> <<>>]
        over == [st |-> "end", p |-> p, blk |-> <<>>]
        \* the file ended too early
        short == IF Variant = "eof" /\ At(Len(file)) # "junk" /\ dmg.k \in {"cut", "tail"} THEN over ELSE bad
    IN IF At(p) \in {"eof", "bit"} THEN over
       ELSE IF At(p) # "magic" \/ file[p].v # 0 THEN (IF Variant = "magic" THEN over ELSE bad)
       ELSE LET len == Num(p + 1, "len") ver == Num(p + 2, "ver") ty == Num(p + 3, "type") hc == Num(p + 4, "hcount") IN
            IF ~len.ok \/ ~ver.ok \/ ~ty.ok \/ ~hc.ok THEN short
            ELSE IF ver.v \notin 1..3 THEN bad
            ELSE IF Variant = "skip" /\ ty.v \in {1, 2, 4, 6} THEN
                 [st |-> "ok", p |-> p + 2 + len.v, blk |-> [ty |-> 99, t |-> 0, tgt |-> 0]]
            ELSE LET h == ReadHeader(hc.p, hc.v, {}) IN
                 IF ~h.ok THEN short
                 ELSE LET c == ReadContent(h.p, ty.v, h.v) IN
                      IF ~c.ok THEN short
                      ELSE LET f == Num(c.p, "fcount") t == Num(c.p + 1, "total")
                               np == IF Variant = "length" THEN p + 2 + len.v ELSE IF ver.v = 1 THEN t.p ELSE c.p
                               who == file[p].j[1]
                           IN IF ver.v = 1 /\ (~f.ok \/ f.v # 0 \/ ~t.ok) THEN short
                              ELSE IF ~Has(h.v, 0) THEN bad
                              ELSE IF ty.v # 0 THEN [st |-> "ok", p |-> np, blk |-> [ty |-> ty.v, i |-> who, n |-> c.v, tgt |-> 0]]
                              ELSE IF ~Has(h.v, 3) \/ ValueOf(h.v, 3) # 3 THEN
                                   (IF Variant = "command" THEN [st |-> "ok", p |-> np, blk |-> [ty |-> 99, i |-> who, n |-> 0, tgt |-> 0]] ELSE bad)
                              ELSE IF ~Has(h.v, 1) THEN bad
                              ELSE [st |-> "ok", p |-> np, blk |-> [ty |-> 0, i |-> who, n |-> 0, tgt |-> blocks[who].tgt]]

-----------------------------------------------------------------------------
(*                             What is returned                             *)
Targeted == {blocks[i].tgt : i \in DOMAIN blocks} \ {0}
\* The rows given the blocks that are there (sets of [i, n]) and the rollbacks.
RowsOf(there, tgts) ==
    LET seen == {x \in there : x.i \notin tgts /\ (arch \/ x.i \notin Targeted)}
        vers(k) == {2} \cup {Time(x.i) : x \in {y \in seen : k \in KeysOf(y.i) /\ (y.n = 2 \/ (y.n = 1 /\ \A z \in KeysOf(y.i) : k <= z))}}
    IN {<<k, CHOOSE v \in vers(k) : \A u \in vers(k) : u <= v>> : k \in 1..3}
Written(is) == RowsOf({[i |-> i, n |-> 2] : i \in {x \in is : blocks[x].kind \in Data}}, {blocks[i].tgt : i \in {x \in is : blocks[x].kind = "roll"}})
Whole == Written(DOMAIN blocks)
\* As if the rest of the file cut before block b had not been written.
Before(b) == Written({i \in DOMAIN blocks : i < b \/ i > Last(dmg)})
Result ==
    LET other == {i \in DOMAIN blocks : i < First(dmg) \/ i > Last(dmg)}
    IN RowsOf({[i |-> x.i, n |-> x.n] : x \in {y \in got : y.ty \in {3, 5}}} \cup {[i |-> i, n |-> 2] : i \in {x \in other : blocks[x].kind \in Data}},
              {x.tgt : x \in {y \in got : y.ty = 0}} \cup {blocks[i].tgt : i \in {x \in other : blocks[x].kind = "roll"}})

Unsupported == \E i \in DOMAIN blocks : blocks[i].kind \in Bad
\* A cut the reader cannot tell from a file to which nothing more was appended.
AtBoundary == dmg.k = "cut" /\ dmg.f = "magic"
\* Of those, the one that leaves part of a marker may be reported.
MayFail == dmg.k # "none" /\ ~(AtBoundary /\ dmg.c = "at")
\* Without its damaged tail, is a block left that is not supported?
StillBad == \E i \in DOMAIN blocks : blocks[i].kind \in Bad /\ ~(AtBoundary /\ i >= dmg.blk /\ i <= Last(dmg))
Admissible == IF StillBad THEN {} ELSE IF AtBoundary THEN {Before(dmg.blk)} ELSE {Whole}
ErrOk == MayFail \/ StillBad

Done == st \in {"end", "err"}
NeverWrong == st = "end" => Result \in Admissible
NeverRefused == st = "err" => ErrOk
Finishes == <>Done

-----------------------------------------------------------------------------
Shapes(n) == {s \in [1..n -> [kind : Kinds \cup Bad, ver : Vers, tgt : 0..n]] :
                /\ \A i \in 1..n : IF s[i].kind = "roll" THEN s[i].tgt # i /\ (s[i].tgt = 0 \/ s[s[i].tgt].kind \in Data) ELSE s[i].tgt = 0
                /\ Cardinality({i \in 1..n : s[i].kind \in Bad}) <= 1
                /\ MixedVers \/ \A i \in 1..n : s[i].ver = s[1].ver}
Init ==
    /\ \E n \in 1..MaxBlocks : blocks \in Shapes(n) /\ split \in 0..(n - 1)
    /\ toks = [i \in DOMAIN blocks |-> Mark(i, blocks[i])]
    /\ arch \in IF \E i \in DOMAIN blocks : blocks[i].kind = "roll" THEN BOOLEAN ELSE {FALSE}
    /\ dmg = None /\ file = <<>> /\ pos = 0 /\ st = "new" /\ got = {}
BadFile == IF split # 0 /\ \E i \in DOMAIN blocks : i > split /\ blocks[i].kind \in Bad THEN 2 ELSE 1
Damage ==
    /\ st = "new"
    /\ \E d \in (IF Unsupported THEN {[None EXCEPT !.in = BadFile]} ELSE Damages) :
         /\ dmg' = d
         /\ file' = IF Emit THEN <<>> ELSE Apply(d)
    /\ st' = (IF Emit THEN "emitted" ELSE "read") /\ pos' = 1
    /\ UNCHANGED <<blocks, toks, split, arch, got>>
    /\ Emit => PrintT(ToJson([blocks |-> blocks, split |-> split, arch |-> arch, dmg |-> dmg', ok |-> Admissible', errok |-> ErrOk']))
Read ==
    /\ st = "read"
    /\ LET r == ReadBlock(pos) IN
         /\ st' = IF r.st = "ok" THEN "read" ELSE r.st
         /\ pos' = r.p
         /\ got' = IF r.st = "ok" THEN got \cup {r.blk} ELSE got
    /\ UNCHANGED <<blocks, toks, split, arch, dmg, file>>
Next == Damage \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
