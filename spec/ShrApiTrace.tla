---------------------------- MODULE ShrApiTrace ----------------------------
(* Recorded executions of the real library checked against ShrApi.            *)
(*                                                                            *)
(* The file named by the environment variable TRACE holds one JSON object per *)
(* line: [id |-> .., ev |-> <<event, ...>>].  Every event is one completed    *)
(* call: its arguments, its result (ret, contents read, ...) and what was     *)
(* observed after it: rdy, the state of every selectable descriptor, and lk,  *)
(* whether the ring was still locked.  An event is accepted when the action   *)
(* of ShrApi for that call has exactly the recorded result.                   *)
(*                                                                            *)
(* inj marks a call during which a system or memory call was made to fail:    *)
(* it may then return an error instead, but must not change anything.         *)
EXTENDS ShrApi, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<rings, files, hs, res, t, l>>

E(f) == f \in DOMAIN Traces[t].ev[l]
ev == Traces[t].ev[l]

TraceInit == ApiInit /\ t \in 1..Len(Traces) /\ l = 1

IsOp(o) == l <= Len(Traces[t].ev) /\ ev.op = o /\ l' = l + 1 /\ UNCHANGED t

\* some call failed for want of memory or descriptors: draining may have, too
FaultBefore == \E j \in 1..l : LET e == Traces[t].ev[j] IN "inj" \in DOMAIN e /\ e.inj = 1

\* observations common to all calls, evaluated in the state after the call
Observed ==
  /\ ev.lk = 0
  /\ \A i \in 1..Len(ev.rdy) :
       LET h == ev.rdy[i][1] IN
       /\ MustBeReadable(rings', hs'[h]) => ev.rdy[i][2] = 1
       /\ MustNotBeReadable(hs'[h]) => ev.rdy[i][2] = 0 \/ FaultBefore

\* the call waited for nothing, unless it was interrupted
Plain == res'.ret = ev.ret /\ ev.blk = 0
Waited ==
  IF res'.ret = WAITING THEN ev.ret = WAITING /\ (ev.pf = 1 \/ ev.blk = 1)
  ELSE Plain

Faulted == ev.inj = 1 /\ ev.ret = -1 /\ CallFails
\* when synchronising with the disk fails the call fails, its effect is in the ring or not
SyncLost == ev.ms = 1 /\ ev.ret = -1

TInit == /\ IsOp("init")
         /\ \/ /\ Create(ev.f, ~ev.bad, ev.keep,
                         NewRing(ev.n, ev.mm, ev.drop, ev.farm, ev.sync, ev.mlock, ev.app))
               /\ Plain
               /\ ev.ex = (FileIn(files', ev.f).k # "none")
            \/ \* a failed creation may have removed the old ring, but leaves nothing half made
               /\ ev.inj = 1 /\ ev.ret = -1 /\ res' = [ret |-> -1] /\ UNCHANGED <<rings, hs>>
               /\ files' = IF ev.ex THEN files ELSE SetFile(ev.f, NoFile)
               /\ ev.ex => FileOf(ev.f).k # "none"
         /\ Observed

TOpen == /\ IsOp("open")
         /\ \/ Open(ev.f, ev.h, ev.rd, ev.wr, ev.bad, ev.nb, ev.buf) /\ Plain
            \/ Faulted
         /\ ev.ret = -1 /\ (FileOf(ev.f).k # "ring" \/ ev.rd = ev.wr \/ ev.bad) => ev.same
         /\ Observed

TWrite == /\ IsOp("write")
          /\ (Write(ev.h, ev.m) /\ (Waited \/ SyncLost)) \/ Faulted
          /\ Observed

TRead == /\ IsOp("read")
         /\ \/ Read(ev.h, ev.len, ev.niov) /\ Waited /\ ev.m = res'.ms /\ ev.ok
            \/ Read(ev.h, ev.len, ev.niov) /\ SyncLost
            \/ Faulted /\ ev.m = <<>>
         /\ Observed

TFlush == /\ IsOp("flush")
          /\ (Flush(ev.h, ev.wait) /\ (Waited \/ SyncLost)) \/ Faulted
          /\ Observed

\* close has no result, but it may not wait longer than its buffer requires
TClose == /\ IsOp("close")
          /\ \/ Close(ev.h) /\ (ev.blk = 1 => res'.ret = WAITING)
             \/ /\ ev.inj = 1         \* the final flush failed
                /\ hs' = Drop1(hs, ev.h) /\ res' = [ret |-> -1] /\ UNCHANGED <<rings, files>>
          /\ Observed

TStat == /\ IsOp("stat")
         /\ (Stat(ev.h, ev.reset) /\ ((Plain /\ ev.s = res'.s) \/ SyncLost)) \/ Faulted
         /\ Observed

TFarmStat == IsOp("farmstat") /\ FarmStat(ev.h, ev.reset) /\ Plain /\ Observed

TAppGet == /\ IsOp("appget")
           /\ \/ /\ AppGet(ev.h, ev.alloc, ev.sz) /\ (Plain \/ SyncLost)
                 /\ ev.ret = 0 => ev.osz = res'.sz /\ ev.old = res'.old
              \/ Faulted
           /\ Observed
TAppSet == IsOp("appset") /\ ((AppSet(ev.h, ev.val) /\ (Plain \/ SyncLost)) \/ Faulted) /\ Observed
TAppSwap == /\ IsOp("appswap")
            /\ \/ /\ AppSwap(ev.h, ev.val) /\ (Plain \/ SyncLost)
                  /\ ev.ret = 0 => ev.osz = res'.sz /\ ev.old = res'.old
               \/ Faulted
            /\ Observed

TSelfd == /\ IsOp("selfd")
          /\ ev.ret = IF hs[ev.h].rd /\ hs[ev.h].nb THEN 1 ELSE -1
          /\ UNCHANGED apivars /\ Observed
TPollfd == IsOp("pollfd") /\ ev.ret = 0 /\ UNCHANGED apivars /\ Observed
TBadCtl == IsOp("badctl") /\ ev.ret = -1 /\ UNCHANGED apivars /\ Observed
TPfset == IsOp("pfset") /\ UNCHANGED apivars /\ Observed
TEnv == IsOp("env") /\ UNCHANGED apivars /\ Observed

\* with no handle open the process holds nothing it did not hold at first
TLeak == /\ IsOp("leak")
         /\ hs = <<>> => ev.fd = 0 /\ ev.mem <= 0 /\ ev.maps = 0
         /\ UNCHANGED apivars /\ Observed

TNewProc == IsOp("newproc") /\ Forget(DOMAIN hs)

TMkfile == /\ IsOp("mkfile")
           /\ IF ev.kind = "ring" THEN CopyRing(ev.f, ev.g)
              ELSE MakeFile(ev.f, IF ev.kind = "none" THEN NoFile ELSE BadFile)
           /\ Observed
TPowerfail == IsOp("powerfail") /\ CopyRing(ev.f, ev.g) /\ Observed

\* which handles' mappings are locked in memory, entirely; is anything locked
TLocked == /\ IsOp("locked")
           /\ \A i \in 1..Len(ev.lock) :
                rings[hs[ev.lock[i][1]].r].mlock => ev.lock[i][2]
           /\ ev.any => \E h \in DOMAIN hs : rings[hs[h].r].mlock
           /\ UNCHANGED apivars /\ Observed

TraceNext ==
  \/ TInit \/ TOpen \/ TWrite \/ TRead \/ TFlush \/ TClose \/ TStat \/ TFarmStat
  \/ TAppGet \/ TAppSet \/ TAppSwap \/ TSelfd \/ TPollfd \/ TBadCtl \/ TPfset \/ TEnv
  \/ TLeak \/ TNewProc \/ TMkfile \/ TPowerfail \/ TLocked
  \/ /\ l = Len(Traces[t].ev) + 1
     /\ PrintT("ACCEPT " \o Traces[t].id)
     /\ l' = l + 1 /\ UNCHANGED <<rings, files, hs, res, t>>

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* consistency of the abstract state along the trace
Consistent ==
  /\ \A i \in 1..Len(rings) :
       /\ rings[i].u <= rings[i].n /\ Len(rings[i].st) <= rings[i].mm
       /\ rings[i].u = Bytes(rings[i].st)

\* progress report used to explain rejected traces
Progress == PrintT("AT " \o Traces[t].id \o " " \o ToString(l))
================================================================================
