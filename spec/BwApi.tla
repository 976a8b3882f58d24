------------------------------- MODULE BwApi -------------------------------
(* The wait/wake library (lib/bw.h) at its interface: up to 64 waiters and any *)
(* number of wakers share a handle in a file.                                  *)
(*                                                                             *)
(* Variables                                                                   *)
(*   bw   open waiters: handle -> [f: file, m: what its descriptor shows,      *)
(*                                 pf: registered descriptors]                 *)
(*        m  "must"  readable: a wake or force came after the last time        *)
(*                   anything was taken                                        *)
(*           "not"   not readable: forced so, and no wake since                *)
(*           "any"   either: something was taken, more may be queued           *)
(*   wk   open wakers: handle -> file                                          *)
(*   pv   descriptors for interruption: k -> 0/1                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES bw, wk, pv
bwvars == <<bw, wk, pv>>
MaxWaiters == 64

BwInit == bw = <<>> /\ wk = <<>> /\ pv = <<>>

Drop(F, S) == [x \in DOMAIN F \ S |-> F[x]]
OnFile(f) == {h \in DOMAIN bw : bw[h].f = f}
RoomFor(f) == Cardinality(OnFile(f)) < MaxWaiters

OpenWait(h, f) == /\ RoomFor(f)
                  /\ bw' = (h :> [f |-> f, m |-> "any", pf |-> {}]) @@ bw
                  /\ UNCHANGED <<wk, pv>>
OpenWake(h, f) == wk' = (h :> f) @@ wk /\ UNCHANGED <<bw, pv>>
CloseH(H) == bw' = Drop(bw, H) /\ wk' = Drop(wk, H) /\ UNCHANGED pv

\* a wake reaches the waiters in S
Notify(S) == /\ bw' = [h \in DOMAIN bw |-> IF h \in S THEN [bw[h] EXCEPT !.m = "must"] ELSE bw[h]]
             /\ UNCHANGED <<wk, pv>>
\* ... or perhaps not, when the waker died
Perhaps(S) == [h \in DOMAIN bw |-> IF h \in S /\ bw[h].m = "not" THEN [bw[h] EXCEPT !.m = "any"] ELSE bw[h]]

Force(h, v) == /\ bw' = [bw EXCEPT ![h].m = IF v = 0 THEN "not" ELSE "must"]
               /\ UNCHANGED <<wk, pv>>
Take(h) == /\ bw' = [bw EXCEPT ![h].m = IF @ = "must" THEN "any" ELSE @]
           /\ UNCHANGED <<wk, pv>>
Interruptible(h) == \E k \in bw[h].pf : k \in DOMAIN pv /\ pv[k] = 1
\* may a wait return 0, may it go on waiting
CanReturn(h) == bw[h].m # "not"
CanBlock(h) == bw[h].m # "must"
Register(h, k) == bw' = [bw EXCEPT ![h].pf = @ \union {k}] /\ UNCHANGED <<wk, pv>>
SetPv(k, v) == pv' = (k :> v) @@ pv /\ UNCHANGED <<bw, wk>>
============================================================================
