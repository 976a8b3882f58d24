---------------------------- MODULE ShrConcTrace ----------------------------
(* Recorded concurrent histories of the real library checked against ShrApi.  *)
(*                                                                            *)
(* A history is a sequence of events of several processes that share rings:   *)
(*   call   process p begins an operation (with its arguments; ri is the      *)
(*          index of the event with its result, 0 if it never returned)       *)
(*   ret    the operation returned                                            *)
(*   crash  p was killed (or exited) - all its handles are gone               *)
(*   quiet  nothing can run any more without a new call; b lists the blocked  *)
(*          processes with 1 for those that wait for a ring's lock            *)
(*   look   in a quiet state: the selectable descriptors of p                 *)
(* The history is accepted when the operations can be ordered so that each    *)
(* takes effect, as an action of ShrApi, between its call and its return, with *)
(* the results recorded; a killed process' last operation happened or not.    *)
(* Some operations are more than one step by nature: a buffered write that    *)
(* flushes first, an open that finds a file which is then replaced, a         *)
(* creation (the old file goes, the new one appears), an interrupted wait     *)
(* (it was waiting, then the descriptor was readable).                        *)
EXTENDS ShrApi, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pend, own, pv, pf
\* pend  p -> operation in progress [e: event, st: stage, i: inode found, ov: overlaps a creation]
\* own   handle -> process;  pv  descriptors for interruption: k -> 0/1
\* pf    handle -> the descriptors registered with it
cvars == <<t, l, pend, own, pv, pf>>
vars == <<rings, files, hs, res, t, l, pend, own, pv, pf>>

Ev(i) == Traces[t].ev[i]
ev == Ev(l)
More == l <= Len(Traces[t].ev)
Init0 == ApiInit /\ t \in 1..Len(Traces) /\ l = 1
         /\ pend = <<>> /\ own = <<>> /\ pv = <<>> /\ pf = <<>>

Without(F, x) == [y \in DOMAIN F \ {x} |-> F[y]]
Step == l' = l + 1 /\ UNCHANGED t
Stay == UNCHANGED <<t, l>>
SetSt(p, s) == pend' = [pend EXCEPT ![p].st = s]

OnFile(p, f) == Ev(pend[p].e).op \in {"init"} /\ Ev(pend[p].e).f = f

--------------------------------------------------------------------------------
Call ==
  /\ More /\ ev.k = "call"
  /\ LET isf == ev.op \in {"init", "open"}
         over == isf /\ \E q \in DOMAIN pend : OnFile(q, ev.f)
         mark == [q \in DOMAIN pend |->
                    IF ev.op = "init" /\ Ev(pend[q].e).op \in {"init", "open"} /\ Ev(pend[q].e).f = ev.f
                    THEN [pend[q] EXCEPT !.ov = TRUE] ELSE pend[q]]
     IN pend' = (ev.p :> [e |-> l, st |-> "c", i |-> 0, ov |-> over]) @@ mark
  /\ Step /\ UNCHANGED <<rings, files, hs, res, own, pv, pf>>

Return ==
  /\ More /\ ev.k = "ret"
  /\ pend[ev.p].st = "d"
  /\ pend' = Without(pend, ev.p)
  /\ Step /\ UNCHANGED <<rings, files, hs, res, own, pv, pf>>

--------------------------------------------------------------------------------
(* What the operation in progress of process p may do                          *)
op(p) == Ev(pend[p].e)
Result(p) == Ev(op(p).ri)
Known(p) == op(p).ri # 0

\* the result just computed is the one that was (or will be) returned
Fits1(p, fields) == Known(p) => /\ Result(p).ret = res'.ret
                                /\ \A f \in fields : Result(p)[f] = res'[f]
Done(p) == SetSt(p, "d") /\ Stay /\ UNCHANGED <<own, pv, pf>>

\* is h a buffered writer that has to flush before it can take ms
MustFlush(x, ms) == x.buf /\ x.cb > 0 /\ ~CacheTakes(rings[x.r], x.cb, Len(x.cache), ms)

\* would the operation have to wait now
WouldWait(p) ==
  LET e == op(p) IN
  CASE e.op = "write" -> WriteOut(rings[hs[e.h].r], hs[e.h], e.m).ret = WAITING
    [] e.op = "read"  -> ReadOut(rings[hs[e.h].r], hs[e.h], e.len, e.niov).ret = WAITING
    [] e.op = "flush" -> FlushOut(rings[hs[e.h].r], [hs[e.h] EXCEPT !.nb = @ /\ ~e.wait]).ret = WAITING
    [] e.op = "close" -> FlushOut(rings[hs[e.h].r], hs[e.h]).ret = WAITING
    [] e.op = "pollsel" -> ~MustBeReadable(rings, hs[e.h])
    [] OTHER -> FALSE
Interruptible(h) == h \in DOMAIN pf /\ \E k \in pf[h] : k \in DOMAIN pv /\ pv[k] = 1

\* the buffer enters the ring before the write itself happens
PreFlush(p) ==
  /\ pend[p].st \in {"c", "s"}
  /\ LET e == op(p) IN
     /\ e.op \in {"write", "close"}
     /\ e.op = "write" => Possible(rings[hs[e.h].r], e.m) /\ MustFlush(hs[e.h], e.m)
     /\ e.op = "close" => hs[e.h].cb > 0
     /\ LET o == FlushOut(rings[hs[e.h].r], hs[e.h]) IN
        o.ret > 0 /\ Put(e.h, o.r, o.x) /\ res' = [ret |-> 0]
  /\ SetSt(p, "c") /\ Stay /\ UNCHANGED <<own, pv, pf>>

\* it has to wait ...
Sees(p) ==
  /\ pend[p].st = "c" /\ op(p).op \in {"write", "read", "flush", "close"}
  /\ (Known(p) /\ op(p).op # "close") => Result(p).ret = WAITING
  /\ op(p).h \in DOMAIN pf
  /\ WouldWait(p)
  /\ SetSt(p, "s") /\ Stay /\ UNCHANGED <<rings, files, hs, res, own, pv, pf>>
\* ... and is interrupted
Interrupted(p) ==
  /\ pend[p].st = "s"
  /\ Interruptible(op(p).h)
  /\ IF op(p).op = "close"
     THEN hs' = Drop1(hs, op(p).h) /\ res' = [ret |-> 0] /\ UNCHANGED <<rings, files>>
     ELSE UNCHANGED <<rings, files, hs, res>>
  /\ Done(p)

LinWrite(p) ==
  LET e == op(p) IN
  /\ e.op = "write" /\ pend[p].st = "c"
  /\ MustFlush(hs[e.h], e.m) /\ Possible(rings[hs[e.h].r], e.m)
       => FlushOut(rings[hs[e.h].r], hs[e.h]).ret = 0
  /\ Write(e.h, e.m) /\ res'.ret # WAITING /\ Fits1(p, {}) /\ Done(p)

LinRead(p) ==
  LET e == op(p) IN
  /\ e.op = "read" /\ pend[p].st = "c"
  /\ Read(e.h, e.len, e.niov) /\ res'.ret # WAITING
  /\ Known(p) => Result(p).ret = res'.ret /\ Result(p).m = res'.ms /\ Result(p).ok
  /\ Done(p)

LinFlush(p) ==
  /\ op(p).op = "flush" /\ pend[p].st = "c"
  /\ Flush(op(p).h, op(p).wait) /\ res'.ret # WAITING /\ Fits1(p, {}) /\ Done(p)

LinClose(p) ==
  LET e == op(p) IN
  /\ e.op = "close" /\ pend[p].st = "c"
  /\ FlushOut(rings[hs[e.h].r], hs[e.h]).ret = 0
  /\ Close(e.h) /\ Done(p)

LinStat(p) ==
  /\ op(p).op = "stat" /\ pend[p].st = "c"
  /\ Stat(op(p).h, op(p).reset) /\ Fits1(p, {"s"}) /\ Done(p)
LinFarm(p) ==
  /\ op(p).op = "farmstat" /\ pend[p].st = "c"
  /\ FarmStat(op(p).h, op(p).reset) /\ Fits1(p, {}) /\ Done(p)
LinApp(p) ==
  LET e == op(p) IN
  /\ e.op \in {"appget", "appset", "appswap"} /\ pend[p].st = "c"
  /\ CASE e.op = "appget" -> AppGet(e.h, e.alloc, e.sz)
       [] e.op = "appset" -> AppSet(e.h, e.val)
       [] OTHER -> AppSwap(e.h, e.val)
  /\ Known(p) => /\ Result(p).ret = res'.ret
                 /\ res'.ret = 0 /\ e.op # "appset" => Result(p).old = res'.old /\ Result(p).osz = res'.sz
  /\ Done(p)

\* descriptors
LinObs(p) ==
  LET e == op(p) IN
  /\ e.op = "obs" /\ pend[p].st = "c"
  /\ Known(p) => IF Result(p).ret = 1 THEN ~MustNotBeReadable(hs[e.h])
                                      ELSE ~MustBeReadable(rings, hs[e.h])
  /\ UNCHANGED <<rings, files, hs, res>> /\ Done(p)
LinPoll(p) ==
  LET e == op(p) IN
  /\ e.op = "pollsel" /\ pend[p].st = "c" /\ ~MustNotBeReadable(hs[e.h])
  /\ Known(p) => Result(p).ret = 1
  /\ UNCHANGED <<rings, files, hs, res>> /\ Done(p)
LinSelfd(p) ==
  LET e == op(p) IN
  /\ e.op = "selfd" /\ pend[p].st = "c"
  /\ Known(p) => Result(p).ret = IF hs[e.h].rd /\ hs[e.h].nb THEN 1 ELSE -1
  /\ UNCHANGED <<rings, files, hs, res>> /\ Done(p)
LinPollfd(p) ==
  LET e == op(p) IN
  /\ e.op = "pollfd" /\ pend[p].st = "c" /\ (Known(p) => Result(p).ret = 0)
  /\ pf' = (e.h :> ({e.pk} \union IF e.h \in DOMAIN pf THEN pf[e.h] ELSE {})) @@ pf
  /\ SetSt(p, "d") /\ Stay /\ UNCHANGED <<rings, files, hs, res, own, pv>>
LinPfset(p) ==
  LET e == op(p) IN
  /\ e.op = "pfset" /\ pend[p].st = "c"
  /\ pv' = (e.pk :> e.v) @@ pv
  /\ SetSt(p, "d") /\ Stay /\ UNCHANGED <<rings, files, hs, res, own, pf>>

\* opening: the file is looked up, the ring is opened
Resolve(p) ==
  LET e == op(p) IN
  /\ e.op = "open" /\ pend[p].st = "c" /\ pend[p].ov
  /\ FileOf(e.f).k = "ring"
  /\ pend' = [pend EXCEPT ![p].st = "o", ![p].i = FileOf(e.f).r]
  /\ Stay /\ UNCHANGED <<rings, files, hs, res, own, pv, pf>>
LinOpenFound(p) ==
  LET e == op(p) IN
  /\ e.op = "open" /\ pend[p].st = "o"
  /\ e.rd # e.wr /\ ~e.bad
  /\ PlaceFree(pend[p].i, Place(rings[pend[p].i], e.rd, e.nb))
  /\ hs' = (e.h :> NewHandle(pend[p].i, e.rd, e.nb, e.buf)) @@ hs
  /\ res' = [ret |-> 0] /\ Fits1(p, {})
  /\ own' = (e.h :> p) @@ own
  /\ SetSt(p, "d") /\ Stay /\ UNCHANGED <<rings, files, pv, pf>>
LinOpen(p) ==
  LET e == op(p) IN
  /\ e.op = "open" /\ pend[p].st = "c"
  /\ \/ Open(e.f, e.h, e.rd, e.wr, e.bad, e.nb, e.buf)
     \/ pend[p].ov /\ CallFails       \* it met a ring in the making
  /\ Fits1(p, {})
  /\ own' = IF res'.ret = 0 THEN (e.h :> p) @@ own ELSE own
  /\ SetSt(p, "d") /\ Stay /\ UNCHANGED <<pv, pf>>

\* creation: the old ring goes, then the new one is there
RingOf(e) == NewRing(e.n, e.mm, e.drop, e.farm, e.sync, e.mlock, e.app)
Unlink(p) ==
  LET e == op(p) IN
  /\ e.op = "init" /\ pend[p].st = "c" /\ ~e.bad
  /\ ~e.keep /\ FileOf(e.f).k # "none"
  /\ files' = SetFile(e.f, NoFile)
  /\ SetSt(p, "u") /\ Stay /\ UNCHANGED <<rings, hs, res, own, pv, pf>>
LinInit(p) ==
  LET e == op(p) IN
  /\ e.op = "init"
  /\ \/ /\ pend[p].st = "c"
        /\ Create(e.f, ~e.bad, e.keep, RingOf(e))
     \/ /\ pend[p].st = "u" /\ FileOf(e.f).k = "none"
        /\ Create(e.f, TRUE, FALSE, RingOf(e))
     \/ \* another one was faster; or there was something half made to keep
        /\ pend[p].st \in {"c", "u"} /\ pend[p].ov
        /\ res' \in {[ret |-> -1]} \cup (IF e.keep THEN {[ret |-> 0]} ELSE {})
        /\ UNCHANGED <<rings, files, hs>>
  /\ Fits1(p, {}) /\ Done(p)

Lin(p) ==
  /\ pend[p].st # "d"
  /\ \/ LinWrite(p) \/ LinRead(p) \/ LinFlush(p) \/ LinClose(p) \/ LinStat(p) \/ LinFarm(p)
     \/ LinApp(p) \/ LinObs(p) \/ LinPoll(p) \/ LinSelfd(p) \/ LinPollfd(p) \/ LinPfset(p)
     \/ Resolve(p) \/ LinOpenFound(p) \/ LinOpen(p) \/ Unlink(p) \/ LinInit(p)
     \/ PreFlush(p) \/ Sees(p) \/ Interrupted(p)

\* operations whose place in the order cannot matter (they commute with everything the others
\* do) are put just before their return
Commutes(p) ==
  LET e == op(p) IN
  CASE e.op = "open" -> /\ ~pend[p].ov /\ Cardinality(DOMAIN hs) < 60
                        /\ ~(e.rd /\ e.nb)    \* whether it found the ring empty matters
                        /\ FileOf(e.f).k = "ring" => ~rings[FileOf(e.f).r].farm
    [] e.op = "close" -> hs[e.h].cb = 0 /\ Cardinality(DOMAIN hs) < 60
    [] e.op \in {"selfd", "pollfd", "farmstat"} -> TRUE
    [] OTHER -> FALSE
\* steps happen as late as possible: only when the next event is not a call.  Nothing else
\* has to happen before the return of an operation that is done
Linearize ==
  /\ More /\ ev.k # "call"
  /\ ev.k = "ret" => pend[ev.p].st # "d"
  /\ \E p \in DOMAIN pend :
       /\ pend[p].st # "d"
       /\ Commutes(p) => ev.k \in {"ret", "crash"} /\ ev.p = p
       /\ Lin(p)

--------------------------------------------------------------------------------
Crash ==
  /\ More /\ ev.k = "crash"
  /\ LET p == ev.p
         mine == {h \in DOMAIN hs : own[h] = p}
         H == [x \in DOMAIN hs \ mine |-> hs[x]]
     IN /\ own' = [h \in DOMAIN own \ mine |-> own[h]]
        /\ pf' = [h \in DOMAIN pf \ mine |-> pf[h]]
        /\ IF p \notin DOMAIN pend THEN hs' = H /\ UNCHANGED <<files, pend>>
           ELSE LET e == op(p) IN
             /\ pend' = Without(pend, p)
             /\ \* peers may have been notified of something that did not happen
                hs' = IF e.op \in {"write", "flush", "close"} /\ e.h \in DOMAIN hs
                      THEN Unquiet(H, hs[e.h].r) ELSE H
             /\ IF e.op = "init" /\ pend[p].st # "d"
                THEN files' \in {files, SetFile(e.f, NoFile), SetFile(e.f, BadFile)}
                ELSE UNCHANGED files
  /\ Step /\ UNCHANGED <<rings, res, pv>>

\* nothing can go on: everybody still in a call has to wait, for good reason
Quiet ==
  /\ More /\ ev.k = "quiet"
  /\ {ev.b[i][1] : i \in 1..Len(ev.b)} = DOMAIN pend
  /\ \A i \in 1..Len(ev.b) : ev.b[i][2] = 0
  /\ \A p \in DOMAIN pend : /\ pend[p].st = "c" /\ WouldWait(p)
                            /\ ~Interruptible(op(p).h)
  /\ Step /\ UNCHANGED <<rings, files, hs, res, pend, own, pv, pf>>

Look ==
  /\ More /\ ev.k = "look"
  /\ \A i \in 1..Len(ev.rdy) :
       LET h == ev.rdy[i][1] IN
       /\ MustBeReadable(rings, hs[h]) => ev.rdy[i][2] = 1
       /\ MustNotBeReadable(hs[h]) => ev.rdy[i][2] = 0
  /\ Step /\ UNCHANGED <<rings, files, hs, res, pend, own, pv, pf>>

Finish ==
  /\ l = Len(Traces[t].ev) + 1
  /\ PrintT("ACCEPT " \o Traces[t].id)
  /\ Step /\ UNCHANGED <<rings, files, hs, res, pend, own, pv, pf>>

Next == Call \/ Return \/ Linearize \/ Crash \/ Quiet \/ Look \/ Finish
Spec == Init0 /\ [][Next]_vars

Progress == PrintT("AT " \o Traces[t].id \o " " \o ToString(l))
\* the wanted answer was found: do not explore the other orders
=============================================================================
