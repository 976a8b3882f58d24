------------------------------- MODULE ShrApi -------------------------------
(* The shr programming interface as a state machine: every public call is an  *)
(* action that happens at one instant.  Concurrency inside calls is the       *)
(* subject of ShrConc; here calls follow one another, issued through any      *)
(* number of handles on any number of rings.                                  *)
(*                                                                            *)
(* Variables                                                                  *)
(*   rings  every ring ever created (an "inode"), a sequence of ring records  *)
(*   files  path -> [k: "none" | "bad" | "ring", r: index into rings]         *)
(*   hs     open handles: handle -> handle record                             *)
(*   res    the result of the latest call                                     *)
(*                                                                            *)
(* A handle record has                                                        *)
(*   r      the ring it is open on                                            *)
(*   rd     reader (otherwise writer);  nb non-blocking;  buf buffered        *)
(*   cache, cb   buffered messages and their bytes                            *)
(*   pos, lost   farm reader: next message number, losses not yet collected   *)
(*   quiet  (non-blocking reader) it emptied the ring, or found it empty, and *)
(*          nothing was written since: its descriptor must not be readable    *)
(*   place  the waiting place it holds: "r", "w", "-" none, "?" maybe         *)
EXTENDS ShrCore, FiniteSets, TLC

VARIABLES rings, files, hs, res
apivars == <<rings, files, hs, res>>

WAITING == -3      \* result of a call that has to wait and is interrupted
MaxPlaces == 64

NoFile == [k |-> "none", r |-> 0]
BadFile == [k |-> "bad", r |-> 0]
RingFile(i) == [k |-> "ring", r |-> i]

ApiInit == rings = <<>> /\ files = <<>> /\ hs = <<>> /\ res = [ret |-> 0]

FileIn(F, f) == IF f \in DOMAIN F THEN F[f] ELSE NoFile
FileOf(f) == FileIn(files, f)
SetFile(f, v) == (f :> v) @@ files

Place(r, rd, nb) == IF rd THEN "r" ELSE IF ~nb /\ ~r.drop THEN "w" ELSE "-"
NewHandle(i, rd, nb, buf) ==
  [r |-> i, rd |-> rd, nb |-> nb, buf |-> buf /\ ~rd, cache |-> <<>>, cb |-> 0,
   pos |-> rings[i].q, lost |-> 0, quiet |-> rd /\ nb /\ rings[i].st = <<>>, place |-> Place(rings[i], rd, nb)]

Drop1(H, h) == [x \in DOMAIN H \ {h} |-> H[x]]
\* new messages appeared in ring i: its readers' descriptors may be readable again
Unquiet(H, i) == [x \in DOMAIN H |->
                    IF H[x].r = i /\ H[x].quiet THEN [H[x] EXCEPT !.quiet = FALSE] ELSE H[x]]
\* the state after ring and handle h changed to r and x
Put(h, r, x) ==
  LET i == hs[h].r IN
  /\ rings' = [rings EXCEPT ![i] = r]
  /\ hs' = IF r.c.mw # rings[i].c.mw THEN Unquiet([hs EXCEPT ![h] = x], i)
                                     ELSE [hs EXCEPT ![h] = x]
  /\ UNCHANGED files

--------------------------------------------------------------------------------
(* Creation, opening, closing                                                  *)

CallFails == res' = [ret |-> -1] /\ UNCHANGED <<rings, files, hs>>

\* valid: the parameters are acceptable.  keep: leave an existing file as it is.
Create(f, valid, keep, ring) ==
  IF ~valid THEN CallFails
  ELSE /\ res' = [ret |-> 0]
       /\ UNCHANGED hs
       /\ IF keep /\ FileOf(f).k # "none"
          THEN UNCHANGED <<rings, files>>
          ELSE /\ rings' = Append(rings, ring)
               /\ files' = SetFile(f, RingFile(Len(rings) + 1))

\* handles holding (k), respectively perhaps holding, a waiting place of kind k
Holders(i, k) == {x \in DOMAIN hs : hs[x].r = i /\ hs[x].place = k}
PlaceFree(i, k)  == k = "-" \/ Cardinality(Holders(i, k)) < MaxPlaces
PlaceSure(i, k)  == k = "-" \/ Cardinality(Holders(i, k)) +
                               (IF k = "w" THEN Cardinality(Holders(i, "?")) ELSE 0) < MaxPlaces

\* exactly one of reading and writing, no foreign flags, a complete ring, a place
OpenAllowed(f, rd, wr, other, nb) ==
  /\ rd # wr /\ ~other /\ FileOf(f).k = "ring"
  /\ LET i == FileOf(f).r IN PlaceFree(i, Place(rings[i], rd, nb))
OpenRequired(f, rd, wr, other, nb) ==
  /\ rd # wr /\ ~other /\ FileOf(f).k = "ring"
  /\ LET i == FileOf(f).r IN PlaceSure(i, Place(rings[i], rd, nb))

Open(f, h, rd, wr, other, nb, buf) ==
  \/ /\ OpenAllowed(f, rd, wr, other, nb)
     /\ h \notin DOMAIN hs
     /\ hs' = (h :> NewHandle(FileOf(f).r, rd, nb, buf)) @@ hs
     /\ res' = [ret |-> 0]
     /\ UNCHANGED <<rings, files>>
  \/ ~OpenRequired(f, rd, wr, other, nb) /\ CallFails

--------------------------------------------------------------------------------
(* Writing.  Outcomes are records of the ring, the handle and the result.      *)

DirectOut(r, x, ms) ==
  IF CanWrite(r, ms) THEN [r |-> Written(r, ms), x |-> x, ret |-> Bytes(ms)]
  ELSE [r |-> r, x |-> x, ret |-> IF x.nb THEN 0 ELSE WAITING]

\* hand the buffer to the ring
FlushOut(r, x) ==
  IF x.cb = 0 THEN [r |-> r, x |-> x, ret |-> 0]
  ELSE LET d == DirectOut(r, x, x.cache) IN
       IF d.ret <= 0 THEN d
       ELSE [d EXCEPT !.x.cache = <<>>, !.x.cb = 0]

WriteOut(r, x, ms) ==
  IF ~Possible(r, ms) THEN [r |-> r, x |-> x, ret |-> -1]
  ELSE IF ~x.buf THEN DirectOut(r, x, ms)
  ELSE LET cached(o) == [o EXCEPT !.x.cache = @ \o ms, !.x.cb = @ + Bytes(ms),
                                  !.ret = Bytes(ms)]
           now == [r |-> r, x |-> x, ret |-> 0]
       IN IF CacheTakes(r, x.cb, Len(x.cache), ms) THEN cached(now)
          ELSE LET f == FlushOut(r, x) IN
               IF x.cb > 0 /\ f.ret <= 0 THEN f
               ELSE IF CacheTakes(f.r, 0, 0, ms) THEN cached(f)
               ELSE DirectOut(f.r, f.x, ms)

Write(h, ms) ==
  LET o == WriteOut(rings[hs[h].r], hs[h], ms) IN
  Put(h, o.r, o.x) /\ res' = [ret |-> o.ret]

\* a waiting flush makes a non-blocking handle block for its duration; it needs a
\* waiting place from then on and is refused when there is none
Flush(h, wait) ==
  LET x == hs[h]
      o == FlushOut(rings[x.r], [x EXCEPT !.nb = @ /\ ~wait])
      y == [o.x EXCEPT !.nb = x.nb,
                       !.place = IF wait /\ x.nb /\ x.cb > 0 /\ @ = "-" THEN "?" ELSE @]
  IN \/ Put(h, o.r, y) /\ res' = [ret |-> o.ret]
     \/ wait /\ x.nb /\ x.cb > 0 /\ x.place = "-" /\ ~PlaceSure(x.r, "w") /\ CallFails

Close(h) ==
  LET o == FlushOut(rings[hs[h].r], hs[h])
      i == hs[h].r
      H == Drop1(hs, h)
  IN /\ rings' = [rings EXCEPT ![i] = o.r]
     /\ hs' = IF o.r.c.mw # rings[i].c.mw THEN Unquiet(H, i) ELSE H
     /\ UNCHANGED files
     /\ res' = [ret |-> o.ret]

--------------------------------------------------------------------------------
(* Reading                                                                     *)

ReadOut(r, x, len, niov) ==
  IF len = 0 \/ niov = 0 THEN [r |-> r, x |-> x, ret |-> -1, ms |-> <<>>]
  ELSE LET lost == Lost(r, x.pos)
           x1 == IF r.farm THEN [x EXCEPT !.pos = FarmPos(r, @), !.lost = @ + lost] ELSE x
       IN IF ~Available(r, x.pos)
          THEN [r |-> r, x |-> [x1 EXCEPT !.quiet = x.nb], ms |-> <<>>,
                ret |-> IF x.nb THEN 0 ELSE WAITING]
          ELSE LET k == ReadCount(r, x.pos, len, niov)
                   ms == ReadMsgs(r, x.pos, k)
                   r2 == AfterRead(r, x.pos, k)
                   p2 == IF r.farm THEN x1.pos + k ELSE x1.pos
               IN IF k = 0 THEN [r |-> r, x |-> x1, ret |-> -2, ms |-> <<>>]
                  ELSE [r |-> r2, ms |-> ms, ret |-> Bytes(ms),
                        x |-> [x1 EXCEPT !.pos = p2,
                                         !.quiet = x.nb /\ ~Available(r2, p2)]]

Read(h, len, niov) ==
  LET o == ReadOut(rings[hs[h].r], hs[h], len, niov) IN
  Put(h, o.r, o.x) /\ res' = [ret |-> o.ret, ms |-> o.ms]

\* what the selectable descriptor of a non-blocking reader must / must not show
MustBeReadable(R, x) == Available(R[x.r], x.pos)
MustNotBeReadable(x) == x.quiet

\* losses since last collected
FarmStat(h, reset) ==
  /\ res' = [ret |-> hs[h].lost]
  /\ hs' = IF reset THEN [hs EXCEPT ![h].lost = 0] ELSE hs
  /\ UNCHANGED <<rings, files>>

--------------------------------------------------------------------------------
(* Metrics and application data                                                *)

FlagBits(r) == (IF r.drop THEN 2 ELSE 0) + (IF r.farm THEN 8 ELSE 0)
             + (IF r.sync THEN 32 ELSE 0) + (IF r.mlock THEN 64 ELSE 0)
StatOf(r, x) ==
  [bw |-> r.c.bw, br |-> r.c.br, mw |-> r.c.mw, mr |-> r.c.mr, bd |-> r.c.bd, md |-> r.c.md,
   start |-> r.c.start, bn |-> r.n, mm |-> r.mm, bu |-> r.u, mu |-> Len(r.st),
   cn |-> IF x.buf THEN CacheBytes(r) ELSE 0, cm |-> Len(x.cache), cb |-> x.cb,
   fl |-> FlagBits(r)]

\* reset: start time of a new period, or <<-1, -1>>
Stat(h, reset) ==
  LET r == rings[hs[h].r] IN
  /\ res' = [ret |-> 0, s |-> StatOf(r, hs[h])]
  /\ rings' = IF reset[1] < 0 THEN rings
              ELSE [rings EXCEPT ![hs[h].r].c = [ZeroCounters EXCEPT !.start = reset]]
  /\ UNCHANGED <<files, hs>>

\* sz: size of the caller's buffer (any for a get that allocates it)
AppGet(h, alloc, sz) ==
  LET r == rings[hs[h].r] IN
  IF r.app[1] = 0 \/ (~alloc /\ sz < r.app[1]) THEN CallFails
  ELSE res' = [ret |-> 0, sz |-> r.app[1], old |-> r.app] /\ UNCHANGED <<rings, files, hs>>
AppSet(h, val) ==
  LET r == rings[hs[h].r] IN
  IF r.app[1] = 0 \/ val[1] # r.app[1] THEN CallFails
  ELSE /\ res' = [ret |-> 0]
       /\ rings' = [rings EXCEPT ![hs[h].r].app = val]
       /\ UNCHANGED <<files, hs>>
AppSwap(h, val) ==
  LET r == rings[hs[h].r] IN
  IF r.app[1] = 0 \/ val[1] # r.app[1] THEN CallFails
  ELSE /\ res' = [ret |-> 0, sz |-> r.app[1], old |-> r.app]
       /\ rings' = [rings EXCEPT ![hs[h].r].app = val]
       /\ UNCHANGED <<files, hs>>

--------------------------------------------------------------------------------
(* Environment: the process holding handles H ends without closing them;       *)
(* a file is removed or replaced by something that is not a ring; power fails  *)
(* and file f is what comes back of ring file g.                               *)
Forget(H) == hs' = [x \in DOMAIN hs \ H |-> hs[x]] /\ UNCHANGED <<rings, files, res>>
MakeFile(f, v) == files' = SetFile(f, v) /\ UNCHANGED <<rings, hs, res>>
CopyRing(f, g) ==   \* f becomes a file with the content of ring file g
  /\ rings' = Append(rings, rings[FileOf(g).r])
  /\ files' = SetFile(f, RingFile(Len(rings) + 1))
  /\ UNCHANGED <<hs, res>>
================================================================================
