------------------------------- MODULE ShrRing -------------------------------
(* How a ring stores messages: bytes in a circular data area, a circular      *)
(* vector of (position, length) slots, the eldest message still present, the  *)
(* next one to read, and sequence numbers for farm readers.  Every state of a *)
(* small ring is explored; the abstract ring of ShrCore is carried along, and *)
(* what can be read from the storage must be what is in the abstract ring.    *)
(* Abstract and concrete outcomes are computed independently of each other.   *)
(*                                                                            *)
(* A cell of the data area holds <<message number, index of the byte>>.       *)
EXTENDS ShrCore, FiniteSets, TLC

CONSTANTS N, MM, Mode,      \* bytes, messages, "n", "d" or "f"
          MaxBatch, Variant

VARIABLES d, mv, i, u, m, mp, r, e, q,   \* the ring file
          sq, sl,                        \* the farm reader's next number and its losses
          abs, pos, lost,                \* the abstract ring and reader
          nxt, ok
vars == <<d, mv, i, u, m, mp, r, e, q, sq, sl, abs, pos, lost, nxt, ok>>
ringvars == <<d, mv, i, u, m, mp, r, e, q>>

Farm == Mode = "f"
Drop == Mode # "n"
Empty == <<0, 0>>
Init ==
  /\ d = [c \in 0..(N - 1) |-> Empty] /\ mv = [s \in 0..(MM - 1) |-> [pos |-> 0, len |-> 0]]
  /\ i = 0 /\ u = 0 /\ m = 0 /\ mp = 0 /\ r = 0 /\ e = 0 /\ q = 0
  /\ sq = 0 /\ sl = 0 /\ abs = NewRing(N, MM, Mode = "d", Farm, FALSE, FALSE, NoApp) /\ pos = 0 /\ lost = 0
  /\ nxt = 1 /\ ok = TRUE

\* the message in a slot, as it would be copied out, and whether its bytes are its own
Cells(s) == [k \in 0..(mv[s].len - 1) |-> d[(mv[s].pos + k) % N]]
Whole(s) == \A k \in 0..(mv[s].len - 1) : Cells(s)[k] = <<Cells(s)[0][1], k>>
Msg(s) == <<mv[s].len, Cells(s)[0][1]>>

Lens == 1..N
Batches == UNION {{b \in [1..k -> Lens] : FoldLeft(LAMBDA a, x : a + x, 0, b) <= N} : k \in 1..(IF MM < MaxBatch THEN MM ELSE MaxBatch)}
Sum(b) == FoldLeft(LAMBDA a, x : a + x, 0, b)

--------------------------------------------------------------------------------
\* the drop loop: from the read position on
RECURSIVE DropLoop(_, _, _, _, _)
DropLoop(need, niov, p, z, k) ==
  IF niov > (MM - m) + k \/ need > (N - u) + z
  THEN DropLoop(need, niov, (p + 1) % MM, z + mv[p].len, k + 1)
  ELSE [p |-> p, z |-> z, k |-> k]
\* the eldest loop: from the eldest present on, what the new bytes or slots will cover
RECURSIVE EldestLoop(_, _, _, _, _)
EldestLoop(len, niov, ee, pp, a) ==
  IF pp = 0 THEN [e |-> ee, mp |-> pp, a |-> a]
  ELSE LET l == IF i > mv[ee].pos THEN (N - i) + mv[ee].pos
                ELSE IF Variant = "pos" /\ i = mv[ee].pos THEN N
                ELSE mv[ee].pos - i IN
       IF len <= l /\ MM - pp >= niov THEN [e |-> ee, mp |-> pp, a |-> a]
       ELSE EldestLoop(len, niov, (ee + 1) % MM, pp - 1, a + 1)

Write(b) ==
  LET len == Sum(b)
      k == Len(b)
      full == N - u < len \/ MM - m < k
      ms == [x \in 1..k |-> <<b[x], nxt + x - 1>>]
      dl == IF full THEN DropLoop(len, k, r, 0, 0) ELSE [p |-> r, z |-> 0, k |-> 0]
      el == EldestLoop(len, k, e, mp, 0)
      first == (el.e + el.mp) % MM
      start(x) == Sum(SubSeq(b, 1, x - 1))
      owner(c) == CHOOSE x \in 1..k : c >= start(x) /\ c < start(x) + b[x]
  IN IF full /\ ~Drop
     THEN ok' = (ok /\ ~CanWrite(abs, ms)) /\ UNCHANGED <<d, mv, i, u, m, mp, r, e, q, sq, sl, abs, pos, lost, nxt>>
     ELSE /\ d' = [c \in 0..(N - 1) |->
                    LET o == (c - i + N) % N IN IF o < len THEN <<nxt + owner(o) - 1, o - start(owner(o))>> ELSE d[c]]
          /\ mv' = [s \in 0..(MM - 1) |->
                    LET o == (s - first + MM) % MM IN IF o < k THEN [pos |-> (i + start(o + 1)) % N, len |-> b[o + 1]] ELSE mv[s]]
          /\ i' = (i + len) % N
          /\ r' = dl.p
          /\ u' = u - dl.z + len /\ m' = m - dl.k + k
          /\ e' = el.e /\ mp' = el.mp + k /\ q' = q + el.a
          /\ nxt' = nxt + k
          /\ ok' = (ok /\ CanWrite(abs, ms) /\ (~Farm => Len(abs.st) - dl.k + k = Len(Written(abs, ms).st)))
          /\ abs' = Written(abs, ms)
          /\ UNCHANGED <<sq, sl, pos, lost>>

--------------------------------------------------------------------------------
\* reading; slot of the next message, or -1
Sq1 == IF sq < q THEN q ELSE sq
Next1(s1, rr, mm) == IF Farm THEN IF s1 < q + mp THEN s1 % MM ELSE -1 ELSE IF mm > 0 THEN rr ELSE -1
RECURSIVE ReadLoop(_, _, _, _, _, _, _)
ReadLoop(len, niov, s1, rr, mm, uu, got) ==
  LET s == Next1(s1, rr, mm) IN
  IF s = -1 \/ niov = 0 \/ mv[s].len > len THEN [s1 |-> s1, rr |-> rr, mm |-> mm, uu |-> uu, got |-> got]
  ELSE ReadLoop(len - mv[s].len, niov - 1, IF Farm THEN s1 + 1 ELSE s1, IF Farm THEN rr ELSE (rr + 1) % MM,
                IF Farm THEN mm ELSE mm - 1, IF Farm THEN uu ELSE uu - mv[s].len, Append(got, s))
Read(len, niov) ==
  LET o == ReadLoop(len, niov, Sq1, r, m, u, <<>>)
      k == ReadCount(abs, pos, len, niov)
      ms == ReadMsgs(abs, pos, k)
  IN /\ sq' = IF Farm THEN o.s1 ELSE sq
     /\ sl' = sl + (Sq1 - sq) * (IF Farm THEN 1 ELSE 0)
     /\ r' = o.rr /\ m' = o.mm /\ u' = o.uu
     \* the same messages, whole
     /\ ok' = (ok /\ Len(o.got) = k /\ \A x \in 1..k : Whole(o.got[x]) /\ Msg(o.got[x]) = ms[x])
     /\ abs' = AfterRead(abs, pos, k)
     /\ pos' = IF Farm THEN FarmPos(abs, pos) + k ELSE pos
     /\ lost' = lost + Lost(abs, pos)
     /\ UNCHANGED <<d, mv, i, mp, e, q, nxt>>
Reopen ==     \* a farm reader starts with what is present
  /\ Farm /\ sq' = q /\ sl' = 0 /\ pos' = abs.q /\ lost' = 0
  /\ UNCHANGED <<d, mv, i, u, m, mp, r, e, q, abs, nxt, ok>>

Next == (\E b \in Batches : Write(b)) \/ (\E l \in 1..N, k \in 1..MM : Read(l, k)) \/ Reopen
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Readable == [x \in 1..(IF Farm THEN mp ELSE m) |-> ((IF Farm THEN e ELSE r) + x - 1) % MM]
\* the storage holds the abstract ring
Refines ==
  /\ ok
  /\ Len(Readable) = Len(abs.st)
  /\ \A x \in 1..Len(abs.st) : Whole(Readable[x]) /\ Msg(Readable[x]) = abs.st[x]
  /\ ~Farm => u = abs.u /\ m = Len(abs.st)
  /\ Farm => /\ sl = lost /\ q = abs.q /\ sq = pos
             /\ e = q % MM            \* slots are found by number
\* what the code asserts, and what keeps the loops inside
Inside == /\ u \in 0..N /\ m \in 0..MM /\ mp \in 0..MM /\ m <= mp /\ i \in 0..(N - 1) /\ r \in 0..(MM - 1) /\ e \in 0..(MM - 1)
          /\ (mp > 0 /\ ~Farm /\ m > 0) => r = (e + mp - m) % MM
          /\ FoldLeft(LAMBDA a, x : a + mv[x].len, 0, [x \in 1..m |-> (r + x - 1) % MM]) = u
          \* present messages lie one behind the other and end at the write position
          /\ \A x \in 1..mp : LET s == (e + x - 1) % MM t == (e + x) % MM IN
               (mv[s].pos + mv[s].len) % N = IF x = mp THEN i ELSE mv[t].pos
\* states that differ only in the numbering are the same
Rel(x) == IF x = Empty THEN Empty ELSE <<nxt - x[1], x[2]>>
Covered == {(mv[s].pos + k) % N : s \in {(e + x - 1) % MM : x \in 1..mp}, k \in 0..(N - 1)} 
View == <<[c \in 0..(N - 1) |-> IF \E x \in 1..mp : LET s == (e + x - 1) % MM IN \E k \in 0..(mv[s].len - 1) : (mv[s].pos + k) % N = c
                                THEN Rel(d[c]) ELSE Empty],
          [x \in 1..mp |-> mv[(e + x - 1) % MM]], i, u, m, mp, r, e,
          IF Farm THEN IF sq < q THEN -1 ELSE sq - q ELSE 0, sl - lost, sq - pos, q - abs.q,
          [x \in 1..Len(abs.st) |-> <<abs.st[x][1], nxt - abs.st[x][2]>>], ok>>
==============================================================================
