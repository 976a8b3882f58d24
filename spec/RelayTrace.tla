----------------------------- MODULE RelayTrace -----------------------------
(* Recorded executions of shr-tool pub, sub and tee, driven by                  *)
(* tools/tooldrv.py, checked against ToolRelay.  Events that no action takes    *)
(* (the tool ended, the stream broke off, a stranger was served) reject the     *)
(* trace.                                                                       *)
EXTENDS ToolRelay, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l,
          dp,     \* position of the driver's readers, by ring
          sn      \* messages known to leave the tool next: others need not be tried
vars == <<rg, job, t, l, dp, sn>>

ev == Traces[t].ev[l]
Init == RelayInit /\ t \in 1..Len(Traces) /\ l = 1 /\ dp = <<>> /\ sn = <<>>
IsOp(o) == l <= Len(Traces[t].ev) /\ ev.op = o /\ l' = l + 1 /\ UNCHANGED t /\ (o # "start" => UNCHANGED sn)
Keep == UNCHANGED dp

DPos(r) == IF r \in DOMAIN dp THEN dp[r] ELSE 0

TMk == IsOp("mk") /\ Make(ev.r, ev.n, ev.mm, ev.drop, ev.farm) /\ ev.ret = 0 /\ Keep
TW == IsOp("w") /\ ev.ret = WriteRet(ev.r, ev.m) /\ WriteTo(ev.r, ev.m) /\ Keep
TR == /\ IsOp("r")
      /\ LET p == DPos(ev.r) R == rg[ev.r] IN
         /\ IF Available(R, p) THEN ev.m = ReadMsgs(R, p, 1) /\ ev.ret = ev.m[1][1] ELSE ev.ret = 0 /\ ev.m = <<>>
         /\ ReadFrom(ev.r, p)
         /\ dp' = IF R.farm THEN (ev.r :> FarmPos(R, p) + (IF Available(R, p) THEN 1 ELSE 0)) @@ dp ELSE dp
TSt == /\ IsOp("st")
       /\ LET R == rg[ev.r] IN
          /\ ev.bw = R.c.bw /\ ev.br = R.c.br /\ ev.mw = R.c.mw /\ ev.mr = R.c.mr
          /\ ev.bu = R.u /\ ev.mu = Len(R.st)
       /\ UNCHANGED relayvars /\ Keep
TStart == /\ IsOp("start") /\ Keep
          /\ sn' = IF "seen" \in DOMAIN ev THEN ev.seen ELSE <<>>
          /\ \/ ev.kind = "pub" /\ StartPub(ev.prefix)
             \/ ev.kind = "sub" /\ StartSub(ev.frames)
             \/ ev.kind = "relay" /\ StartRelay({ev.outs[i] : i \in 1..Len(ev.outs)})
TConn == IsOp("conn") /\ Connect /\ Keep
TDisc == IsOp("disc") /\ Disconnect /\ Keep
TFrame == IsOp("frame") /\ Frame(ev.hdr, ev.m) /\ Keep
TRaw == IsOp("raw") /\ Raw(ev.s) /\ Keep
TTx == IsOp("tx") /\ Arrive(ev.d) /\ Keep
TQuiet == IsOp("quiet") /\ Quiet(ev.partial) /\ Keep

(* When the tool's own steps happen.  They can be put off until the next event   *)
(* needs them without losing an explanation: until then they only free room in   *)
(* the source and fill the outputs, which nothing recorded contradicts later     *)
(* rather than sooner.  A ring that drops is different: how much was taken from  *)
(* it before a write that drops, and how much was written to it before a read,   *)
(* matters; there all possibilities are tried.  At quiet all steps happen, in    *)
(* any order, so one order is enough.                                            *)
Pull == Take \/ Move
IsOut(j) == job.k = "relay" /\ j \in job.outs
Bring(j) == (job.pend[j] = <<>> /\ Move) \/ Forward(j)
Needed ==
  \/ ev.op = "w" /\ ev.ret > 0 /\ Pull
     /\ IF rg[ev.r].drop THEN ~Fits(rg[ev.r], ev.m) ELSE ~CanWrite(rg[ev.r], ev.m)
  \/ ev.op = "frame" /\ job.wire = <<>> /\ Take
  \/ ev.op = "raw" /\ job.raw[1] < ev.s[1] /\ Take
  \/ ev.op = "disc" /\ Take
  \/ /\ ev.op = "r" /\ ((ev.ret > 0 /\ rg[ev.r].st = <<>>) \/ rg[ev.r].drop)
     /\ Store \/ (IsOut(ev.r) /\ Bring(ev.r))
  \/ ev.op = "st" /\ rg[ev.r].c.mr < ev.mr /\ ev.r = 1 /\ Pull
  \/ ev.op = "st" /\ rg[ev.r].c.mw < ev.mw /\ (Store \/ (IsOut(ev.r) /\ Bring(ev.r)))
  \/ /\ ev.op = "quiet"
     /\ \/ Take \/ Store
        \/ /\ job.k = "relay"
           /\ IF Available(rg[1], job.pos) THEN Move
              ELSE \E j \in job.outs : Forward(j) /\ \A i \in job.outs : i < j => job.pend[i] = <<>>
\* a message taken that is not the next one seen is not to be explained any more
Next1 ==
  LET m == ReadMsgs(rg[1], job.pos, 1)[1] IN
  IF job.k \in {"pub", "relay"} /\ rg'[1].c.mr # rg[1].c.mr
  THEN IF sn = <<>> THEN UNCHANGED sn ELSE m = sn[1] /\ sn' = Tail(sn)
  ELSE UNCHANGED sn
TInternal == l <= Len(Traces[t].ev) /\ Needed /\ Next1 /\ UNCHANGED <<t, l, dp>>

Next ==
  \/ TMk \/ TW \/ TR \/ TSt \/ TStart \/ TConn \/ TDisc \/ TFrame \/ TRaw \/ TTx \/ TQuiet \/ TInternal
  \/ /\ l = Len(Traces[t].ev) + 1
     /\ PrintT("ACCEPT " \o Traces[t].id)
     /\ l' = l + 1 /\ UNCHANGED <<rg, job, t, dp, sn>>
Spec == Init /\ [][Next]_vars

Consistent == \A i \in DOMAIN rg : rg[i].u <= rg[i].n /\ Len(rg[i].st) <= rg[i].mm
Progress == PrintT("AT " \o Traces[t].id \o " " \o ToString(l))
=============================================================================
