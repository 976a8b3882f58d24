----------------------------- MODULE StableRing -----------------------------
(* A ring in sync mode on a disk: which of its pages have reached the file     *)
(* when a call returns, with a power failure at any moment.                    *)
(*                                                                             *)
(* The mapping has a control page (positions, counts, counters), data pages, a *)
(* page of slots and a page of application data.  A call changes some of them  *)
(* one after another under the lock, synchronises and returns.  The kernel may *)
(* write any page back by itself at any moment, whole.                         *)
(*                                                                             *)
(* What a call must have made durable is all it and its predecessors did:      *)
(* after a power failure while no call is under way the file equals the        *)
(* mapping (Durable).  During a call nothing is promised about that call; that *)
(* earlier calls' effects are not lost to it cannot be had without a log and   *)
(* is not promised either.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Calls, Variant

Pages == {"ctl", "d0", "d1", "slots", "app"}
\* what each kind of call changes, in the order it does
Kinds == [write |-> <<"d0", "slots", "ctl">>, wrap |-> <<"d0", "d1", "slots", "ctl">>, drop |-> <<"ctl", "d1", "slots", "ctl">>,
          read |-> <<"ctl">>, farmread |-> <<"ctl">>, appset |-> <<"app">>, reset |-> <<"ctl">>]

VARIABLES mem, disk,      \* page -> version
          lock, pc, kind, at, left, ver, todo,
          acked           \* page -> version that acknowledged calls rely on
vars == <<mem, disk, lock, pc, kind, at, left, ver, todo, acked>>

Init ==
  /\ mem = [p \in Pages |-> 0] /\ disk = [p \in Pages |-> 0] /\ acked = [p \in Pages |-> 0]
  /\ lock = 0 /\ pc = [x \in Procs |-> "idle"] /\ kind = [x \in Procs |-> "read"]
  /\ at = [x \in Procs |-> 1] /\ left = [x \in Procs |-> Calls] /\ ver = 0 /\ todo = [x \in Procs |-> {}]
Go(x, s) == pc' = [pc EXCEPT ![x] = s]

Start(x) ==
  /\ pc[x] = "idle" /\ left[x] > 0 /\ lock = 0
  /\ \E k \in DOMAIN Kinds : kind' = [kind EXCEPT ![x] = k]
  /\ lock' = x /\ at' = [at EXCEPT ![x] = 1] /\ left' = [left EXCEPT ![x] = @ - 1] /\ Go(x, "change")
  /\ UNCHANGED <<mem, disk, ver, todo, acked>>

Steps(x) == Kinds[kind[x]]
ToSync(x) ==
  CASE Variant = "ctlonly" -> {"ctl"}
    [] Variant = "touched" -> {Steps(x)[i] : i \in 1..Len(Steps(x))}
    [] Variant = "noslots" -> Pages \ {"slots"}
    [] Variant = "readfree" /\ kind[x] \in {"farmread"} -> {}
    [] Variant = "async" -> {}
    [] OTHER -> Pages
\* versions only have to differ: two suffice for each page not yet on disk
Change(x) ==
  /\ pc[x] = "change"
  /\ LET p == Steps(x)[at[x]] IN mem' = [mem EXCEPT ![p] = ver + 1] /\ ver' = ver + 1
  /\ at' = [at EXCEPT ![x] = @ + 1]
  /\ IF Variant = "early" /\ at[x] = Len(Steps(x)) - 1
     THEN Go(x, "sync") /\ todo' = [todo EXCEPT ![x] = ToSync(x)]
     ELSE IF at[x] = Len(Steps(x))
     THEN IF Variant = "early" /\ Len(Steps(x)) > 1 THEN Go(x, "unlock") /\ UNCHANGED todo
          ELSE IF Variant = "unlockfirst" THEN Go(x, "unlock0") /\ UNCHANGED todo
          ELSE Go(x, "sync") /\ todo' = [todo EXCEPT ![x] = ToSync(x)]
     ELSE UNCHANGED <<pc, todo>>
  /\ UNCHANGED <<disk, lock, kind, left, acked>>
\* harmless with respect to Durable as long as the sync comes before the return
Unlock0(x) == pc[x] = "unlock0" /\ lock' = 0 /\ Go(x, "sync") /\ todo' = [todo EXCEPT ![x] = Pages]
              /\ UNCHANGED <<mem, disk, kind, at, left, ver, acked>>
Sync(x) ==
  /\ pc[x] = "sync"
  /\ IF todo[x] # {} THEN \E p \in todo[x] : disk' = [disk EXCEPT ![p] = mem[p]] /\ todo' = [todo EXCEPT ![x] = @ \ {p}] /\ UNCHANGED pc
     ELSE Go(x, IF at[x] <= Len(Steps(x)) THEN "change" ELSE "unlock") /\ UNCHANGED <<disk, todo>>
  /\ UNCHANGED <<mem, lock, kind, at, left, ver, acked>>
Return(x) ==
  /\ pc[x] = "unlock" /\ lock' = (IF lock = x THEN 0 ELSE lock) /\ Go(x, "idle")
  /\ acked' = [p \in Pages |-> IF p \in {Steps(x)[i] : i \in 1..Len(Steps(x))} THEN mem[p] ELSE acked[p]]
  /\ UNCHANGED <<mem, disk, kind, at, left, ver, todo>>
Writeback == \E p \in Pages : disk[p] # mem[p] /\ disk' = [disk EXCEPT ![p] = mem[p]]
             /\ UNCHANGED <<mem, lock, pc, kind, at, left, ver, todo, acked>>

Next == (\E x \in Procs : Start(x) \/ Change(x) \/ Unlock0(x) \/ Sync(x) \/ Return(x)) \/ Writeback
Spec == Init /\ [][Next]_vars

Durable == (\A x \in Procs : pc[x] = "idle") => \A p \in Pages : disk[p] >= acked[p] /\ acked[p] <= mem[p]
Exact == (\A x \in Procs : pc[x] = "idle") => disk = mem
=============================================================================
