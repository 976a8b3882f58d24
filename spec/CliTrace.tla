------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of shr-tool commands (tools/tooldrv.py) checked against        *)
(* ToolCli.                                                                     *)
EXTENDS ToolCli, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<rg, job, t, l>>

ev == Traces[t].ev[l]
Init == CliInit /\ t \in 1..Len(Traces) /\ l = 1
IsOp(o) == l <= Len(Traces[t].ev) /\ ev.op = o /\ l' = l + 1 /\ UNCHANGED t
Set(s) == {s[i] : i \in 1..Len(s)}

TCreate == /\ IsOp("create")
           /\ Create(ev.fs, ev.size, ev.unit, ev.N, ev.fl, ev.hasapp, ev.app)
           /\ IF CreateOk(ev.size, ev.unit, ev.fl, ev.hasapp, ev.app) THEN Ok(ev.ret) ELSE Fail(ev.ret)
TWrite == IsOp("write") /\ WriteLines(ev.f, IF ev.pre THEN ev.m ELSE LineMsgs(ev.bytes), ev.ret)
THex == IsOp("writehex") /\ WriteHex(ev.f, ev.arg, ev.ret)
TFile == IsOp("writefile") /\ WriteFile(ev.f, ev.m, ev.ret)
TRead == IsOp("read") /\ ev.out = CatAll(ReadMs(ev.f, ev.N)) /\ Read(ev.f, ev.N)
TReadHex == IsOp("readhex") /\ ev.m = ReadMs(ev.f, ev.N) /\ Read(ev.f, ev.N)
TStatus == /\ IsOp("status")
           /\ IF Is(ev.f)
              THEN LET r == rg[ev.f] IN
                   /\ Ok(ev.ret) /\ ev.s = Shown(r) /\ Set(ev.at) = Attributes(r)
                   /\ ev.app = IF ev.asked THEN r.app ELSE Empty
              ELSE Fail(ev.ret) /\ ev.app = Empty
           /\ UNCHANGED clivars
TBgw == IsOp("bgw") /\ StartWrite(ev.f, ev.m)
TJoinw == IsOp("joinw") /\ EndWrite(ev.f, ev.ret)
TBgr == IsOp("bgr") /\ StartRead(ev.f, ev.N)
TJoinr == IsOp("joinr") /\ EndRead(ev.f, ev.ended, ev.out)
\* the driver's own reads and writes meanwhile
TR1 == /\ IsOp("r1")
       /\ LET r == rg[ev.f] IN
          IF Available(r, 0) THEN ev.m = ReadMsgs(r, 0, 1) /\ ev.ret = ev.m[1][1] /\ rg' = [rg EXCEPT ![ev.f] = AfterRead(@, 0, 1)]
          ELSE ev.ret = 0 /\ ev.m = <<>> /\ UNCHANGED rg
       /\ UNCHANGED job
TW1 == /\ IsOp("w1")
       /\ LET r == rg[ev.f] IN
          IF CanWrite(r, ev.m) THEN ev.ret = Bytes(ev.m) /\ rg' = [rg EXCEPT ![ev.f] = Written(@, ev.m)]
          ELSE ev.ret = 0 /\ UNCHANGED rg
       /\ UNCHANGED job
TInternal == l <= Len(Traces[t].ev) /\ Internal /\ UNCHANGED <<t, l>>

Next ==
  \/ TCreate \/ TWrite \/ THex \/ TFile \/ TRead \/ TReadHex \/ TStatus \/ TBgw \/ TJoinw \/ TBgr \/ TJoinr
  \/ TR1 \/ TW1 \/ TInternal
  \/ /\ l = Len(Traces[t].ev) + 1
     /\ PrintT("ACCEPT " \o Traces[t].id)
     /\ l' = l + 1 /\ UNCHANGED <<rg, job, t>>
Spec == Init /\ [][Next]_vars

Consistent == \A i \in DOMAIN rg : rg[i].u <= rg[i].n /\ Len(rg[i].st) <= rg[i].mm
Progress == PrintT("AT " \o Traces[t].id \o " " \o ToString(l))
=============================================================================
