------------------------------ MODULE ShrCore ------------------------------
(* The abstract shr ring: pure definitions shared by all other modules.       *)
(*                                                                            *)
(* A message is a pair <<length, content>>; content is whatever identifies    *)
(* the bytes (a fingerprint in recorded traces, a number in model checking).  *)
(*                                                                            *)
(* A ring is a record                                                         *)
(*   n, mm        capacity in bytes / in messages                             *)
(*   drop, farm   modes (farm implies drop), sync, mlock                      *)
(*   st           the messages in the ring, oldest first.  In a farm ring     *)
(*                reading does not remove anything from st                    *)
(*   u            the bytes in st                                             *)
(*   q            number of messages that ever left st at its front: the      *)
(*                sequence number of the oldest message present               *)
(*   c            counters of the current metrics period                      *)
(*   app          application data <<length, content>>, <<0,0>> if none       *)
EXTENDS Integers, Sequences, SequencesExt

Len1(m) == m[1]
Bytes(ms) == FoldLeft(LAMBDA a, m : a + m[1], 0, ms)
Min2(a, b) == IF a < b THEN a ELSE b
ZeroCounters == [bw |-> 0, br |-> 0, mw |-> 0, mr |-> 0, bd |-> 0, md |-> 0,
                 start |-> <<0, 0>>]
NoApp == <<0, 0>>

\* message limit when the creator does not name one
DefaultMM(n) == 100 + (n \div 100)

NewRing(n, mm, drop, farm, sync, mlock, app) ==
  [n |-> n, mm |-> IF mm = 0 THEN DefaultMM(n) ELSE mm,
   drop |-> drop \/ farm, farm |-> farm, sync |-> sync, mlock |-> mlock,
   st |-> <<>>, u |-> 0, q |-> 0, c |-> ZeroCounters, app |-> app]

--------------------------------------------------------------------------------
(* Writing                                                                     *)

\* could this batch ever be accepted?
Possible(r, ms) ==
  /\ ms # <<>>
  /\ Len(ms) <= r.mm
  /\ \A i \in 1..Len(ms) : ms[i][1] > 0 /\ ms[i][1] <= r.n
  /\ Bytes(ms) <= r.n

Fits(r, ms) == r.u + Bytes(ms) <= r.n /\ Len(r.st) + Len(ms) <= r.mm

\* the smallest number of oldest messages whose removal makes room for a batch
\* of nb bytes and nm messages (folds instead of recursion: TLC evaluates these
\* on long queues)
DropCount(r, ms) ==
  LET nb == Bytes(ms)
      nm == Len(ms)
      enough(k, u) == u + nb <= r.n /\ (Len(r.st) - k) + nm <= r.mm
      step(a, m) == IF enough(a[1], a[2]) THEN a ELSE <<a[1] + 1, a[2] - m[1]>>
  IN FoldLeft(step, <<0, r.u>>, r.st)[1]

\* the ring after its k oldest messages were dropped (and counted)
Dropped(r, k) ==
  LET z == Bytes(SubSeq(r.st, 1, k)) IN
  [r EXCEPT !.st = SubSeq(r.st, k + 1, Len(r.st)), !.u = @ - z, !.q = @ + k,
            !.c.bd = @ + z, !.c.md = @ + k]

Appended(r, ms) ==
  [r EXCEPT !.st = @ \o ms, !.u = @ + Bytes(ms),
            !.c.bw = @ + Bytes(ms), !.c.mw = @ + Len(ms)]

\* a write of a possible batch takes effect at once?
CanWrite(r, ms) == r.drop \/ Fits(r, ms)
Written(r, ms) ==
  Appended(IF r.drop THEN Dropped(r, DropCount(r, ms)) ELSE r, ms)

--------------------------------------------------------------------------------
(* Reading.  A reader's position is pos (farm rings only; other rings are read *)
(* at the front).                                                              *)

\* first message number a farm reader can still get
FarmPos(r, pos) == IF pos < r.q THEN r.q ELSE pos
\* index in st of the reader's next message, possibly Len(st)+1
NextIdx(r, pos) == IF r.farm THEN FarmPos(r, pos) - r.q + 1 ELSE 1
Available(r, pos) == NextIdx(r, pos) <= Len(r.st)
Lost(r, pos) == IF r.farm THEN FarmPos(r, pos) - pos ELSE 0

\* number of whole messages starting at index i that fit len bytes and niov slots
RunLen(r, i, len, niov) ==
  LET last == Min2(Len(r.st), i + niov - 1)
      step(a, m) == IF a[3] /\ m[1] <= a[2] THEN <<a[1] + 1, a[2] - m[1], TRUE>>
                                            ELSE <<a[1], a[2], FALSE>>
  IN FoldLeft(step, <<0, len, TRUE>>, SubSeq(r.st, i, last))[1]

ReadCount(r, pos, len, niov) == RunLen(r, NextIdx(r, pos), len, niov)
ReadMsgs(r, pos, k) ==
  LET i == NextIdx(r, pos) IN SubSeq(r.st, i, i + k - 1)

\* the ring after k messages were read
AfterRead(r, pos, k) ==
  LET ms == ReadMsgs(r, pos, k)
      b  == Bytes(ms)
      r1 == [r EXCEPT !.c.br = @ + b, !.c.mr = @ + k]
  IN IF r.farm THEN r1
     ELSE [r1 EXCEPT !.st = SubSeq(@, k + 1, Len(@)), !.u = @ - b, !.q = @ + k]

--------------------------------------------------------------------------------
(* Buffered writers: size of the buffer in bytes and messages                  *)
CacheBytes(r) == LET t == r.n \div 10 IN
                 IF t > 1073741824 THEN 1073741824 ELSE IF t < 1024 THEN r.n ELSE t
CacheMsgs(r) == Min2(10000, r.mm)
\* a buffer already holding cb bytes in cm messages can take the batch
CacheTakes(r, cb, cm, ms) ==
  /\ cb + Bytes(ms) <= CacheBytes(r)
  /\ cm + Len(ms) <= CacheMsgs(r)

================================================================================
