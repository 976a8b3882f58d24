------------------------------ MODULE ShrModel ------------------------------
(* ShrApi on small rings, explored completely.                                *)
(*                                                                            *)
(* One file, one writer (handle 0) and up to two readers (handles 1 and 2)    *)
(* that come and go.  Messages are numbered in the order in which they are    *)
(* accepted; the number is the content.  Every action also records, in act,   *)
(* the call that a test program would make: printing act for every edge of    *)
(* the state graph (Edge) gives all the behaviours there are, which the       *)
(* checks turn into tours and run on the real library.                        *)
(*                                                                            *)
(* The step properties below restate the guarantees in terms of numbered      *)
(* messages, without the operators of ShrCore that compute the outcomes.      *)
EXTENDS ShrApi

CONSTANTS N, MM, Mode,     \* bytes, messages, "n" normal, "d" drop, "f" farm
          F0, F1, F2,      \* how handles 0, 1, 2 are opened: "wn", "rn", "" (not used)
          Lens, Codes,     \* message lengths; batches: 121 is <<1, 2, 1>>, 0 is <<>>
          ReadLens, Iovs,  \* buffer sizes and numbers of iovecs for reads
          AppSz,           \* size of application data (0: none)
          Again,           \* may the ring be created again while in use?
          Procs            \* may the process end without closing?

VARIABLES act, nxt, off, pf, base
vars == <<rings, files, hs, res, act, nxt, off, pf, base>>

RECURSIVE Digits(_)
Digits(c) == IF c = 0 THEN <<>> ELSE Append(Digits(c \div 10), c % 10)
Batches == {Digits(c) : c \in Codes}
Flags == IF F2 # "" THEN <<F0, F1, F2>> ELSE IF F1 # "" THEN <<F0, F1>> ELSE <<F0>>
Hs == 0..(Len(Flags) - 1)
Has(h, c) == \E i \in 1..Len(Flags[h + 1]) : SubSeq(Flags[h + 1], i, i) = c
Str(x) == ToString(x)
RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o Str(Head(s)) \o Words(Tail(s))

Fresh == NewRing(N, MM, Mode = "d", Mode = "f", FALSE, FALSE,
                 IF AppSz = 0 THEN NoApp ELSE <<AppSz, 0>>)
ZeroBase == [m |-> 0, b |-> 0]

Init == /\ rings = <<Fresh>> /\ files = (0 :> RingFile(1)) /\ hs = <<>> /\ res = [ret |-> 0]
        /\ act = "" /\ nxt = 1 /\ off = <<[b |-> 0, m |-> 0]>>
        /\ pf = [h \in Hs |-> FALSE] /\ base = <<ZeroBase>>

Number(lens) == [i \in 1..Len(lens) |-> <<lens[i], nxt + i - 1>>]
Opened == DOMAIN hs
Live == {hs[h].r : h \in Opened} \cup {files[0].r}

\* bookkeeping after any call: physical positions advance with what enters a ring
Moved(reset) ==
  /\ off' = [i \in 1..Len(rings') |->
       IF i > Len(rings) THEN [b |-> 0, m |-> 0]
       ELSE IF i \in reset THEN off[i]
       ELSE [b |-> (off[i].b + rings'[i].c.bw - rings[i].c.bw) % N,
             m |-> (off[i].m + rings'[i].c.mw - rings[i].c.mw) % MM]]
  /\ base' = [i \in 1..Len(rings') |->
       IF i > Len(rings) THEN ZeroBase
       ELSE IF i \in reset THEN [m |-> Len(rings[i].st), b |-> rings[i].u]
       ELSE base[i]]
Same == Moved({}) /\ UNCHANGED nxt
Waits(h) == pf' = IF res'.ret = WAITING THEN [pf EXCEPT ![h] = TRUE] ELSE pf

AOpen(h) ==
  /\ h \notin Opened
  /\ Open(0, h, Has(h, "r"), Has(h, "w"), FALSE, Has(h, "n"), Has(h, "b"))
  /\ act' = "open " \o Str(h) \o " 0 " \o Flags[h + 1]
            \o (IF Has(h, "n") \/ (h = 0 /\ Mode # "n") THEN "" ELSE ";pf " \o Str(h) \o " " \o Str(h))
  /\ Same /\ UNCHANGED pf
AClose(h) ==
  /\ h \in Opened
  /\ Close(h) /\ act' = "cl " \o Str(h)
  /\ res'.ret = WAITING => ~hs[h].nb /\ Mode = "n"
  /\ nxt' = nxt - (IF res'.ret = Bytes(hs[h].cache) THEN 0 ELSE Len(hs[h].cache))
  /\ Moved({}) /\ Waits(h)
AWrite(lens, batch) ==
  /\ 0 \in Opened
  /\ Write(0, Number(lens))
  /\ act' = (IF batch THEN "wv 0" ELSE "w 0") \o Words(lens)
  /\ nxt' = nxt + (IF res'.ret > 0 THEN Len(lens) ELSE 0)
  /\ Moved({}) /\ Waits(0)
AFlush(w) ==
  /\ 0 \in Opened
  /\ Flush(0, w)
  /\ res'.ret = WAITING => ~hs[0].nb     \* there is nothing that could interrupt it
  /\ act' = "fl 0 " \o (IF w THEN "1" ELSE "0")
  /\ Same /\ Waits(0)
ARead(h, len, k, vec) ==
  /\ h \in Opened /\ h # 0
  /\ Read(h, len, k)
  /\ act' = IF vec THEN "rv " \o Str(h) \o " " \o Str(len) \o " " \o Str(k) ELSE "r " \o Str(h) \o " " \o Str(len)
  /\ Same /\ Waits(h)
AStat(h, reset) ==
  /\ h \in Opened
  /\ Stat(h, IF reset THEN <<7, 7>> ELSE <<-1, -1>>)
  /\ act' = "st " \o Str(h) \o (IF reset THEN " 7" ELSE " -")
  /\ Moved(IF reset THEN {hs[h].r} ELSE {}) /\ UNCHANGED <<nxt, pf>>
AFarmStat(h, reset) ==
  /\ Mode = "f" /\ h \in Opened /\ h # 0
  /\ FarmStat(h, reset)
  /\ act' = "fs " \o Str(h) \o (IF reset THEN " 1" ELSE " 0")
  /\ Same /\ UNCHANGED pf
AApp(h, op) ==
  /\ AppSz > 0 /\ h \in Opened
  /\ IF op = "ag" THEN AppGet(h, TRUE, 0) ELSE AppSet(h, <<AppSz, nxt>>)
  /\ act' = op \o " " \o Str(h) \o " " \o (IF op = "ag" THEN "m" ELSE Str(AppSz))
  /\ Same /\ UNCHANGED pf
AAgain(keep) ==
  /\ Again /\ \A h \in Opened : hs[h].r = files[0].r
  /\ Create(0, TRUE, keep, Fresh)
  /\ act' = "init 0 " \o Str(N) \o " " \o Str(MM) \o " " \o (IF Mode = "n" THEN (IF keep THEN "k" ELSE "-") ELSE Mode \o (IF keep THEN "k" ELSE ""))
            \o " " \o (IF AppSz = 0 THEN "-1" ELSE Str(AppSz))
  /\ Same /\ UNCHANGED pf
AProc ==
  /\ Procs /\ Opened # {}
  /\ Forget(Opened) /\ act' = "P"
  /\ nxt' = nxt - (IF 0 \in Opened THEN Len(hs[0].cache) ELSE 0)
  /\ Moved({}) /\ pf' = [h \in Hs |-> FALSE]
APf(h) ==      \* the descriptor registered for interruption changes
  /\ ~Has(h, "n") /\ (h = 0 => Mode = "n")
  /\ pf' = [pf EXCEPT ![h] = ~@]
  /\ act' = "pv " \o Str(h) \o (IF pf[h] THEN " 0" ELSE " 1")
  /\ UNCHANGED apivars /\ Same

Next ==
  \/ \E h \in Hs : AOpen(h) \/ AClose(h) \/ APf(h)
  \/ \E k \in Lens : AWrite(<<k>>, FALSE)
  \/ \E b \in Batches : AWrite(b, TRUE)
  \/ Has(0, "b") /\ \E w \in BOOLEAN : AFlush(w)
  \/ \E h \in Hs, k \in ReadLens :
       ARead(h, k, 1, FALSE) \/ \E i \in Iovs : ARead(h, k, i, TRUE)
  \/ \E h \in Hs, b \in BOOLEAN : AStat(h, b) \/ AFarmStat(h, b)
  \/ \E h \in Hs : AApp(h, "ag") \/ AApp(h, "as")
  \/ \E b \in BOOLEAN : AAgain(b)
  \/ AProc

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* The state graph: two states are the same when they can be told apart by     *)
(* nothing but the numbers of messages and the values of counters.             *)
Max2(a, b) == IF a > b THEN a ELSE b
Ord(i) == Cardinality({j \in Live : j < i})
HView(h) == IF h \notin Opened THEN <<>>
            ELSE LET x == hs[h] r == rings[x.r] IN
                 <<Ord(x.r), [i \in 1..Len(x.cache) |-> x.cache[i][1]],
                   IF r.farm /\ x.rd THEN Max2(x.pos - r.q, -2) ELSE 0, Min2(x.lost, 1), x.quiet>>
RView(i) == LET r == rings[i] IN <<[k \in 1..Len(r.st) |-> r.st[k][1]], off[i].b, off[i].m>>
SortedLive == LET L == Live IN [k \in 1..Cardinality(L) |-> CHOOSE i \in L : Ord(i) = k - 1]
V == <<[k \in 1..Cardinality(Live) |-> RView(SortedLive[k])], [h \in 1..Len(Flags) |-> <<HView(h - 1), pf[h - 1]>>]>>
View == V

Edge == PrintT("E " \o ToString(V) \o " | " \o act' \o " | " \o ToString(V'))

--------------------------------------------------------------------------------
(* Properties                                                                  *)
Nums(ms) == [i \in 1..Len(ms) |-> ms[i][2]]
Consecutive(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] = s[i] + 1
Sum(ms) == LET RECURSIVE S(_) S(x) == IF x = <<>> THEN 0 ELSE Head(x)[1] + S(Tail(x)) IN S(ms)
Cur == files[0].r
IsOp(o) == Len(act') >= Len(o) /\ SubSeq(act', 1, Len(o)) = o

TypeOK == \A i \in 1..Len(rings) :
  /\ Sum(rings[i].st) = rings[i].u /\ rings[i].u <= N /\ Len(rings[i].st) <= MM
  /\ \A k \in 1..Len(rings[i].st) : rings[i].st[k][1] > 0

\* C01/C03/C07: what is in the ring, then what is in the buffer, are the latest accepted
\* messages without a gap (the writer writes into one ring only)
NoGap == \/ Again
         \/ LET all == rings[1].st \o (IF 0 \in Opened THEN hs[0].cache ELSE <<>>) IN
            /\ Consecutive(Nums(all))
            /\ all # <<>> => all[Len(all)][2] = nxt - 1

\* C06: counters account for everything, since the start of the metrics period
Balance == \A i \in 1..Len(rings) :
  LET r == rings[i] c == r.c IN
  IF r.farm THEN Len(r.st) = base[i].m + c.mw - c.md /\ r.u = base[i].b + c.bw - c.bd
  ELSE Len(r.st) = base[i].m + c.mw - c.mr - c.md /\ r.u = base[i].b + c.bw - c.br - c.bd

\* C02: acceptance on a normal ring; a refusal changes nothing.  Direct writes.
Entered(i) == rings'[i].c.mw - rings[i].c.mw
WriteStep == IsOp("w") /\ 0 \in Opened /\ ~hs[0].buf =>
  LET i == hs[0].r
      lens == IF res'.ret > 0 THEN SubSeq(rings'[i].st, Len(rings'[i].st) - Entered(i) + 1, Len(rings'[i].st)) ELSE <<>>
  IN /\ res'.ret <= 0 => rings' = rings /\ hs' = hs
     /\ res'.ret > 0 =>
          /\ res'.ret = Sum(lens) /\ nxt' = nxt + Len(lens)
          /\ \E k \in 0..Len(rings[i].st) :
               LET kept == SubSeq(rings[i].st, k + 1, Len(rings[i].st))
                   less == SubSeq(rings[i].st, k, Len(rings[i].st))
               IN /\ rings'[i].st = kept \o lens
                  /\ Mode = "n" => k = 0
                  \* C03: one message fewer would not have done
                  /\ k > 0 => Sum(less) + Sum(lens) > N \/ Len(less) + Len(lens) > MM
                  /\ rings'[i].c.md - rings[i].c.md = k
     /\ res'.ret = -1 <=> LET a == act' IN
          \/ \E b \in Batches : a = "wv 0" \o Words(b) /\ (b = <<>> \/ Len(b) > MM \/ (\E j \in 1..Len(b) : b[j] = 0) \/ Sum(Number(b)) > N)
          \/ \E b \in Lens : a = "w 0 " \o Str(b) /\ (b = 0 \/ b > N)
     /\ res'.ret = (IF hs[0].nb THEN 0 ELSE WAITING) => Mode = "n"

\* C05: a batch read returns the longest run of whole messages that fits
ReadStep == (IsOp("r ") \/ IsOp("rv")) =>
  \A h \in Opened \ {0}, k \in ReadLens, n \in Iovs \cup {1} :
    LET r == rings[hs[h].r]
        r2 == rings'[hs[h].r]
        line == IF IsOp("rv") THEN "rv " \o Str(h) \o " " \o Str(k) \o " " \o Str(n) ELSE "r " \o Str(h) \o " " \o Str(k)
        pos == Max2(hs[h].pos, r.q)
        rest == IF r.farm THEN SubSeq(r.st, pos - r.q + 1, Len(r.st)) ELSE r.st
        got == res'.ms
    IN act' = line /\ (IsOp("rv") \/ n = 1) /\ k > 0 /\ n > 0 =>
       /\ got \in Prefixes(rest) /\ Len(got) <= n /\ Sum(got) <= k
       /\ \A p \in Prefixes(rest) : Len(p) <= n /\ Sum(p) <= k => Len(p) <= Len(got)
       /\ got # <<>> => res'.ret = Sum(got)
       /\ got = <<>> => res'.ret = IF rest # <<>> THEN -2 ELSE IF hs[h].nb THEN 0 ELSE WAITING
       /\ IF r.farm THEN r2.st = r.st ELSE r.st = got \o r2.st
       /\ r2.c.mr - r.c.mr = Len(got) /\ r2.c.br - r.c.br = Sum(got)
       \* C04: whoever misses messages missed a run that ends before what is now oldest
       /\ r.farm => /\ got # <<>> => got[1][2] = rest[1][2]
                    /\ hs'[h].lost - hs[h].lost = Max2(0, r.q - hs[h].pos)
                    /\ hs'[h].pos = pos + Len(got)
       \* nobody else is affected
       /\ \A g \in Opened \ {h} : r.farm => hs'[g] = hs[g]

\* C07: a buffer is handed over in order and only when it has to be
FlushStep == 0 \in Opened /\ hs[0].buf /\ (IsOp("w") \/ IsOp("fl") \/ IsOp("cl 0")) =>
  LET i == hs[0].r
      x2 == IF 0 \in DOMAIN hs' THEN hs'[0].cache ELSE <<>>
      k == Entered(i)
  IN /\ k > 0 => k >= Len(hs[0].cache)
     /\ IsOp("w") /\ res'.ret > 0 /\ k > 0 =>
          LET lens == SubSeq(rings'[i].st \o x2, Len(rings'[i].st \o x2) - (nxt' - nxt) + 1, Len(rings'[i].st \o x2)) IN
          Sum(hs[0].cache) + Sum(lens) > CacheBytes(rings[i]) \/ Len(hs[0].cache) + Len(lens) > CacheMsgs(rings[i])
     /\ (0 \in DOMAIN hs') /\ res'.ret <= 0 => k > 0 \/ x2 = hs[0].cache

\* C08, as a property of the abstract state: a descriptor that must be silent never
\* belongs to a reader for which something is available
Silent == \A h \in Opened : hs[h].quiet => ~Available(rings[hs[h].r], hs[h].pos)

Steps == WriteStep /\ ReadStep /\ FlushStep
StepsOK == [][Steps]_vars
================================================================================
