----------------------------- MODULE BwConcTrace -----------------------------
(* Recorded concurrent histories of the wait/wake library against BwApi.       *)
(* Events as in ShrConcTrace.  A wake takes effect waiter by waiter: und are    *)
(* the waiters an unfinished wake has still to reach.                           *)
EXTENDS BwApi, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, pend, own
\* pend  p -> operation in progress [e: event, st: stage, und: waiters to reach]
vars == <<bw, wk, pv, t, l, pend, own>>

Ev(i) == Traces[t].ev[i]
ev == Ev(l)
More == l <= Len(Traces[t].ev)
Init0 == BwInit /\ t \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ own = <<>>
Step == l' = l + 1 /\ UNCHANGED t
Stay == UNCHANGED <<t, l>>
op(p) == Ev(pend[p].e)
Known(p) == op(p).ri # 0
Ret(p) == Ev(op(p).ri).ret

Call == /\ More /\ ev.k = "call"
        /\ pend' = (ev.p :> [e |-> l, st |-> "c", und |-> {}]) @@ pend
        /\ Step /\ UNCHANGED <<bw, wk, pv, own>>
Return == /\ More /\ ev.k = "ret" /\ pend[ev.p].st = "d"
          /\ pend' = Drop(pend, {ev.p})
          /\ Step /\ UNCHANGED <<bw, wk, pv, own>>
Done(p) == pend' = [pend EXCEPT ![p].st = "d"] /\ Stay /\ UNCHANGED own
R(p, v) == Known(p) => Ret(p) = v

LinOpen(p) ==
  LET e == op(p) IN
  /\ e.op = "bopen" /\ pend[p].st = "c"
  /\ IF ~e.wait THEN R(p, 0) /\ OpenWake(e.h, e.f)
     ELSE IF RoomFor(e.f) THEN R(p, 0) /\ OpenWait(e.h, e.f)
     ELSE R(p, -1) /\ UNCHANGED bwvars
  /\ own' = IF e.wait /\ ~RoomFor(e.f) THEN own ELSE (e.h :> p) @@ own
  /\ pend' = [pend EXCEPT ![p].st = "d"] /\ Stay
LinClose(p) == op(p).op = "bclose" /\ pend[p].st = "c" /\ CloseH({op(p).h}) /\ Done(p)

WakeBegin(p) ==
  /\ op(p).op = "bwake" /\ pend[p].st = "c"
  /\ pend' = [pend EXCEPT ![p].st = "w", ![p].und = OnFile(wk[op(p).h])]
  /\ Stay /\ UNCHANGED <<bw, wk, pv, own>>
WakeOne(p, h) ==
  /\ op(p).op = "bwake" /\ pend[p].st = "w" /\ h \in pend[p].und
  /\ Notify({h})
  /\ pend' = [pend EXCEPT ![p].und = @ \ {h}]
  /\ Stay /\ UNCHANGED own
WakeEnd(p) ==
  /\ op(p).op = "bwake" /\ pend[p].st = "w" /\ R(p, 0)
  /\ Notify(pend[p].und)
  /\ pend' = [pend EXCEPT ![p].st = "d", ![p].und = {}] /\ Stay /\ UNCHANGED own

LinForce(p) == op(p).op = "bforce" /\ pend[p].st = "c" /\ R(p, 0) /\ Force(op(p).h, op(p).v) /\ Done(p)
LinReady(p) == op(p).op = "bready" /\ pend[p].st = "c" /\ R(p, 0) /\ Take(op(p).h) /\ Done(p)
LinWait(p) ==
  LET e == op(p) IN
  /\ e.op = "bwait" /\ pend[p].st = "c"
  /\ \/ R(p, 0) /\ CanReturn(e.h) /\ Take(e.h)
     \/ R(p, -3) /\ Interruptible(e.h) /\ UNCHANGED bwvars
  /\ Done(p)
LinSel(p) == /\ op(p).op = "bsel" /\ pend[p].st = "c" /\ R(p, 1) /\ CanReturn(op(p).h)
             /\ UNCHANGED bwvars /\ Done(p)
LinLook(p) ==
  /\ op(p).op = "blook" /\ pend[p].st = "c"
  /\ Known(p) => IF Ret(p) = 1 THEN CanReturn(op(p).h) ELSE CanBlock(op(p).h)
  /\ UNCHANGED bwvars /\ Done(p)
LinPf(p) == op(p).op = "bpf" /\ pend[p].st = "c" /\ R(p, 0) /\ Register(op(p).h, op(p).pk) /\ Done(p)
LinPv(p) == op(p).op = "pfset" /\ pend[p].st = "c" /\ SetPv(op(p).pk, op(p).v) /\ Done(p)
LinMk(p) == op(p).op = "binit" /\ pend[p].st = "c" /\ UNCHANGED bwvars /\ Done(p)

Lin(p) == \/ LinOpen(p) \/ LinClose(p) \/ WakeBegin(p) \/ WakeEnd(p) \/ LinForce(p) \/ LinReady(p)
          \/ LinWait(p) \/ LinSel(p) \/ LinLook(p) \/ LinPf(p) \/ LinPv(p) \/ LinMk(p)

\* operations that may as well happen just before they return
Local(p) == \/ op(p).op \in {"bready", "bsel", "bpf"}
            \/ op(p).op = "bwait" /\ bw[op(p).h].pf = {}
Linearize ==
  /\ More /\ ev.k # "call"
  /\ ev.k = "ret" => pend[ev.p].st # "d"
  /\ \/ \E p \in DOMAIN pend : /\ pend[p].st # "d"
                               /\ Local(p) => ev.k \in {"ret", "crash"} /\ ev.p = p
                               /\ Lin(p)
     \* a wake reaches the waiter whose operation returns next
     \/ /\ ev.k = "ret" /\ op(ev.p).op \in {"bready", "bsel", "bwait", "blook"} /\ pend[ev.p].st # "d"
        /\ \E p \in DOMAIN pend : WakeOne(p, op(ev.p).h)

Crash ==
  /\ More /\ ev.k = "crash"
  /\ LET mine == {h \in DOMAIN own : own[h] = ev.p}
         und == IF ev.p \in DOMAIN pend THEN pend[ev.p].und ELSE {}
         B == Perhaps(und)
     IN /\ bw' = Drop(B, mine)
        /\ wk' = Drop(wk, mine)
        /\ own' = Drop(own, mine)
        /\ pend' = Drop(pend, {ev.p})
  /\ Step /\ UNCHANGED pv

Waits(p) == op(p).op = "bwait" \/ op(p).op = "bsel"
Quiet ==
  /\ More /\ ev.k = "quiet"
  /\ {ev.b[i][1] : i \in 1..Len(ev.b)} = DOMAIN pend
  /\ \A i \in 1..Len(ev.b) : ev.b[i][2] = 0
  /\ \A p \in DOMAIN pend : /\ pend[p].st = "c" /\ Waits(p) /\ CanBlock(op(p).h)
                            /\ op(p).op = "bwait" => ~Interruptible(op(p).h)
  /\ Step /\ UNCHANGED <<bw, wk, pv, pend, own>>
Look ==
  /\ More /\ ev.k = "look"
  /\ \A i \in 1..Len(ev.rdy) : IF ev.rdy[i][2] = 1 THEN CanReturn(ev.rdy[i][1]) ELSE CanBlock(ev.rdy[i][1])
  /\ Step /\ UNCHANGED <<bw, wk, pv, pend, own>>
Finish == /\ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o Traces[t].id)
          /\ Step /\ UNCHANGED <<bw, wk, pv, pend, own>>

Next == Call \/ Return \/ Linearize \/ Crash \/ Quiet \/ Look \/ Finish
Spec == Init0 /\ [][Next]_vars
Progress == PrintT("AT " \o Traces[t].id \o " " \o ToString(l))
==============================================================================
