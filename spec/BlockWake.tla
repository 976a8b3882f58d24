------------------------------ MODULE BlockWake ------------------------------
(* How processes wait for each other: the mechanism behind blocking reads and *)
(* writes and behind the selectable descriptor, explored completely for small *)
(* numbers of processes, places and names.                                    *)
(*                                                                            *)
(* One lock; a ring of which only the number of unread bytes matters; two     *)
(* tables of waiting places, one for readers ("d", waiting for data) and one  *)
(* for blocking writers ("s", waiting for space).  A waiter owns a socket     *)
(* with a queue of notifications and an automatically chosen name, which it   *)
(* puts in its place; names recur.  A waker keeps sockets connected to the    *)
(* waiters it knows of, brings these up to date when the table's change       *)
(* counter differs from the one it saw last, and sends to every one of them   *)
(* before it changes the ring.  Any process may be killed between any two     *)
(* steps; what the kernel then does is release its lock and its sockets.      *)
(*                                                                            *)
(* ShrConcTrace and BwConcTrace bind the code to the outside of this          *)
(* mechanism; here all interleavings and all points of death are enumerated.  *)
(* Variant selects known wrong designs, which TLC must refute (the model is   *)
(* able to see what it is meant to see).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs,      \* 1..n
          Programs,   \* set of functions process -> sequence of calls
          Cap,        \* bytes in the ring
          Places,     \* waiting places in each table
          Names,      \* how many different socket names there are
          QMax,       \* notifications a queue holds; more are not needed and refused
          Kills,      \* how many processes may be killed
          Variant

VARIABLES prog, lk, u, tab, sock, pr, kills, err
vars == <<prog, lk, u, tab, sock, pr, kills, err>>

\* calls: <<"open", "r" | "rn" | "w" | "wn">>, <<"read", k>>, <<"write", k>>, <<"close">>
Slots == 1..Places
NoWait == [side |-> "-", slot |-> 0, sid |-> 0]
NoWake == [side |-> "-", seq |-> -1, fd |-> [n \in Slots |-> 0], name |-> [n \in Slots |-> 0]]
Proc0 == [alive |-> TRUE, i |-> 1, pc |-> "idle", kind |-> "-", w |-> NoWait, k |-> NoWake, j |-> 1, inc |-> 0]

Init ==
  /\ prog \in Programs
  /\ lk = 0 /\ u = 0 /\ kills = 0 /\ err = ""
  /\ tab = [s \in {"d", "s"} |-> [seq |-> 0, slot |-> [n \in Slots |-> [pid |-> 0, name |-> 0]]]]
  /\ sock = <<>>
  /\ pr = [p \in Procs |-> Proc0]

op(p) == prog[p][pr[p].i]
More(p) == pr[p].alive /\ pr[p].i <= Len(prog[p])
At(p, pc) == pr[p].alive /\ pr[p].pc = pc
Reader(x) == x.kind \in {"r", "rn"}
UsedNames == {sock[s].name : s \in DOMAIN sock}
Live(s) == s \in DOMAIN sock
Gone(s) == [x \in DOMAIN sock \ {s} |-> sock[x]]
Sent(s) == [sock EXCEPT ![s].q = IF @ < QMax THEN @ + 1 ELSE @]
Queue(s, n) == [sock EXCEPT ![s].q = n]

Goto(p, pc) == [pr EXCEPT ![p].pc = pc, ![p].j = 1]
Ends(P, p) == [P EXCEPT ![p].pc = "idle", ![p].j = 1, ![p].i = @ + 1]

--------------------------------------------------------------------------------
\* a call begins by taking the lock (again, after waiting)
Enter(p) ==
  /\ More(p) /\ At(p, "idle") /\ lk = 0
  /\ lk' = p
  /\ pr' = Goto(p, CASE op(p)[1] = "open" -> "o1" [] op(p)[1] = "read" -> "r1"
                     [] op(p)[1] = "write" -> "w1" [] OTHER -> "c1")
  /\ UNCHANGED <<prog, u, tab, sock, kills, err>>

\* does the process in this place exist and own that name
Holds(e) == e.pid # 0 /\ pr[e.pid].alive /\ Live(pr[e.pid].w.sid) /\ sock[pr[e.pid].w.sid].name = e.name
Pruned(t) ==
  IF Variant = "noprune" THEN t ELSE
  LET dead == {n \in Slots : t.slot[n].pid # 0 /\ ~Holds(t.slot[n])} IN
  [seq |-> t.seq + Cardinality(dead),
   slot |-> [n \in Slots |-> IF n \in dead THEN [t.slot[n] EXCEPT !.pid = 0] ELSE t.slot[n]]]

\* opening: prune, take a place (the name first, then the pid, then the counter) ...
O1(p) ==
  /\ At(p, "o1")
  /\ LET kind == op(p)[2]
         s == IF kind \in {"r", "rn"} THEN "d" ELSE "s"
         t == Pruned(tab[s])
         free == {n \in Slots : t.slot[n].pid = 0}
     IN IF kind = "wn"
        THEN /\ pr' = [Goto(p, "o4") EXCEPT ![p].kind = kind, ![p].k = [NoWake EXCEPT !.side = "d"]]
             /\ UNCHANGED <<tab, sock, err>>
        ELSE IF free = {} THEN err' = "no place" /\ UNCHANGED <<pr, tab, sock>>
        ELSE \E nm \in (1..Names) \ UsedNames :
             LET n == CHOOSE x \in free : \A y \in free : x <= y
                 sid == 10 * p + pr[p].inc
             IN /\ sock' = (sid :> [name |-> nm, q |-> 0]) @@ sock
                /\ tab' = [tab EXCEPT ![s] = [t EXCEPT !.slot[n].name = nm]]
                /\ pr' = [Goto(p, "o2") EXCEPT ![p].kind = kind, ![p].w = [side |-> s, slot |-> n, sid |-> sid],
                            ![p].inc = @ + 1, ![p].k = [NoWake EXCEPT !.side = IF s = "d" THEN "s" ELSE "d"]]
                /\ UNCHANGED err
  /\ UNCHANGED <<prog, lk, u, kills>>
O2(p) ==
  /\ At(p, "o2")
  /\ tab' = [tab EXCEPT ![pr[p].w.side].slot[pr[p].w.slot].pid = p]
  /\ pr' = Goto(p, "o3") /\ UNCHANGED <<prog, lk, u, sock, kills, err>>
O3(p) ==
  /\ At(p, "o3")
  /\ tab' = IF Variant = "nocount" THEN tab ELSE [tab EXCEPT ![pr[p].w.side].seq = @ + 1]
  /\ pr' = Goto(p, "o4") /\ UNCHANGED <<prog, lk, u, sock, kills, err>>
\* ... and connect to those who wait on the other side
O4(p) ==
  /\ At(p, "o4")
  /\ tab' = [tab EXCEPT ![pr[p].k.side] = Pruned(@)]
  /\ pr' = Goto(p, "sync") /\ UNCHANGED <<prog, lk, u, sock, kills, err>>
O5(p) ==
  /\ At(p, "o5")
  /\ sock' = IF ~Reader(pr[p]) \/ Variant = "noforce" THEN sock
             ELSE IF u = 0 THEN Queue(pr[p].w.sid, 0)
             ELSE IF sock[pr[p].w.sid].q = 0 THEN Sent(pr[p].w.sid) ELSE sock
  /\ lk' = 0 /\ pr' = Ends(pr, p) /\ UNCHANGED <<prog, u, tab, kills, err>>

\* connect by name: 0 when nobody has it
Find(nm) == IF \E s \in DOMAIN sock : sock[s].name = nm THEN CHOOSE s \in DOMAIN sock : sock[s].name = nm ELSE 0
After(p) == IF op(p)[1] = "open" THEN "o5" ELSE "wake"

\* bring the connected sockets up to date, place by place
Sync(p) ==
  /\ At(p, "sync")
  /\ LET x == pr[p] k == x.k t == tab[k.side] n == x.j IN
     IF x.j = 1 /\ k.seq = t.seq THEN pr' = Goto(p, After(p)) /\ UNCHANGED tab
     ELSE IF x.j > Places THEN pr' = [Goto(p, After(p)) EXCEPT ![p].k.seq = t.seq] /\ UNCHANGED tab
     ELSE LET e == t.slot[n]
              stale == k.fd[n] # 0 /\ (e.pid = 0 \/ (Variant # "nocompare" /\ e.name # k.name[n]))
              fd1 == IF stale THEN 0 ELSE k.fd[n]
              conn == e.pid # 0 /\ fd1 = 0
              to == IF conn THEN Find(e.name) ELSE fd1
          IN /\ pr' = [pr EXCEPT ![p].k.fd[n] = to, ![p].k.name[n] = IF conn THEN e.name ELSE @, ![p].j = @ + 1]
             /\ tab' = IF conn /\ to = 0
                       THEN [tab EXCEPT ![k.side].slot[n].pid = 0, ![k.side].seq = @ + 1] ELSE tab
  /\ UNCHANGED <<prog, lk, u, sock, kills, err>>

\* notify, place by place
Wake(p) ==
  /\ At(p, "wake")
  /\ LET x == pr[p] k == x.k n == x.j IN
     IF n > Places THEN pr' = Goto(p, IF Variant = "late" THEN "unlock" ELSE "apply") /\ UNCHANGED <<tab, sock>>
     ELSE IF k.fd[n] = 0 THEN pr' = [pr EXCEPT ![p].j = @ + 1] /\ UNCHANGED <<tab, sock>>
     ELSE IF Live(k.fd[n]) THEN pr' = [pr EXCEPT ![p].j = @ + 1] /\ sock' = Sent(k.fd[n]) /\ UNCHANGED tab
     ELSE LET to == IF Variant = "noreconnect" THEN 0 ELSE Find(k.name[n]) IN
          /\ pr' = [pr EXCEPT ![p].k.fd[n] = to, ![p].j = @ + 1]
          /\ sock' = IF to = 0 THEN sock ELSE Sent(to)
          /\ tab' = IF to # 0 THEN tab ELSE [tab EXCEPT ![k.side].slot[n].pid = 0, ![k.side].seq = @ + 1]
  /\ UNCHANGED <<prog, lk, u, kills, err>>

--------------------------------------------------------------------------------
Min(a, b) == IF a < b THEN a ELSE b
Check(p, pc, can) ==
  /\ At(p, pc)
  /\ IF can THEN pr' = Goto(p, IF Variant = "late" THEN "apply" ELSE "sync") /\ UNCHANGED <<lk, sock>>
     ELSE IF pr[p].kind \in {"rn", "wn"}
     THEN /\ lk' = 0 /\ pr' = Ends(pr, p)
          /\ sock' = IF pr[p].kind = "rn" THEN Queue(pr[p].w.sid, 0) ELSE sock
     ELSE lk' = 0 /\ pr' = Goto(p, "wait") /\ UNCHANGED sock
  /\ UNCHANGED <<prog, u, tab, kills, err>>
R1(p) == pr[p].pc = "r1" /\ Check(p, "r1", u > 0)
W1(p) == pr[p].pc = "w1" /\ Check(p, "w1", u + op(p)[2] <= Cap)
Wait(p) ==
  /\ At(p, "wait") /\ sock[pr[p].w.sid].q > 0
  /\ sock' = Queue(pr[p].w.sid, sock[pr[p].w.sid].q - 1)
  /\ pr' = Goto(p, "idle") /\ UNCHANGED <<prog, lk, u, tab, kills, err>>

\* the change itself; a reader makes its own descriptor fit what is left
Apply(p) ==
  /\ At(p, "apply")
  /\ LET x == pr[p]
         u2 == IF op(p)[1] = "read" THEN u - Min(u, op(p)[2]) ELSE u + op(p)[2]
     IN /\ u' = u2
        /\ sock' = IF op(p)[1] # "read" THEN sock
                   ELSE IF u2 = 0 THEN Queue(x.w.sid, 0)
                   ELSE IF sock[x.w.sid].q = 0 THEN Sent(x.w.sid) ELSE sock
  /\ pr' = Goto(p, IF Variant = "late" THEN "sync" ELSE "unlock") /\ UNCHANGED <<prog, lk, tab, kills, err>>
Unlock(p) ==
  /\ At(p, "unlock")
  /\ lk' = 0 /\ pr' = Ends(pr, p) /\ UNCHANGED <<prog, u, tab, sock, kills, err>>

\* closing: the socket goes, then the place, then the counter changes
C1(p) ==
  /\ At(p, "c1")
  /\ sock' = Gone(pr[p].w.sid)
  /\ pr' = Goto(p, IF pr[p].w.side = "-" THEN "c4" ELSE "c2") /\ UNCHANGED <<prog, lk, u, tab, kills, err>>
C2(p) ==
  /\ At(p, "c2")
  /\ tab' = [tab EXCEPT ![pr[p].w.side].slot[pr[p].w.slot].pid = 0]
  /\ pr' = Goto(p, "c3") /\ UNCHANGED <<prog, lk, u, sock, kills, err>>
C3(p) ==
  /\ At(p, "c3")
  /\ tab' = [tab EXCEPT ![pr[p].w.side].seq = @ + 1]
  /\ pr' = Goto(p, "c4") /\ UNCHANGED <<prog, lk, u, sock, kills, err>>
C4(p) ==
  /\ At(p, "c4")
  /\ lk' = 0 /\ pr' = [Ends(pr, p) EXCEPT ![p].kind = "-", ![p].w = NoWait, ![p].k = NoWake]
  /\ UNCHANGED <<prog, u, tab, sock, kills, err>>

Kill(p) ==
  /\ kills < Kills /\ pr[p].alive /\ ~(pr[p].pc = "idle" /\ pr[p].i = 1)
  /\ kills' = kills + 1
  /\ sock' = Gone(pr[p].w.sid)
  /\ lk' = IF lk = p THEN 0 ELSE lk
  /\ pr' = [pr EXCEPT ![p] = [Proc0 EXCEPT !.alive = FALSE]]
  /\ UNCHANGED <<prog, u, tab, err>>

Step(p) == \/ Enter(p) \/ O1(p) \/ O2(p) \/ O3(p) \/ O4(p) \/ O5(p) \/ Sync(p) \/ Wake(p)
           \/ R1(p) \/ W1(p) \/ Wait(p) \/ Apply(p) \/ Unlock(p) \/ C1(p) \/ C2(p) \/ C3(p) \/ C4(p)
Next == \E p \in Procs : Step(p) \/ Kill(p)
Fair == \A p \in Procs : WF_vars(Step(p))
Spec == Init /\ [][Next]_vars /\ Fair

--------------------------------------------------------------------------------
Blocked(p) == At(p, "wait") /\ sock[pr[p].w.sid].q = 0
CanGo(p) == IF op(p)[1] = "read" THEN u > 0 ELSE u + op(p)[2] <= Cap
Opened(p) == pr[p].alive /\ pr[p].w.sid # 0

\* C09, C11: whenever the lock is free, nobody sleeps who could proceed
NoneAsleep == lk = 0 => \A p \in Procs : Blocked(p) => ~CanGo(p)
\* C08: a non-blocking reader's descriptor is readable while there is data
Readable == lk = 0 => \A p \in Procs : Opened(p) /\ pr[p].kind = "rn" /\ u > 0 => sock[pr[p].w.sid].q > 0
\* C15: every open waiter is in its place, with its name; nobody is refused a place
InPlace == lk = 0 => \A p \in Procs : Opened(p) =>
             tab[pr[p].w.side].slot[pr[p].w.slot] = [pid |-> p, name |-> sock[pr[p].w.sid].name]
Refused == err = ""
\* nothing is over- or underfilled
Bounded == u \in 0..Cap
\* C22: what a waker does not know of is gone or the counter tells
Known == lk = 0 => \A p \in Procs, q \in Procs :
           Opened(q) /\ pr[p].alive /\ pr[p].k.side = pr[q].w.side /\ pr[p].k.seq = tab[pr[q].w.side].seq =>
             LET n == pr[q].w.slot k == pr[p].k IN
             k.fd[n] # 0 /\ (Live(k.fd[n]) => k.fd[n] = pr[q].w.sid) /\ k.name[n] = sock[pr[q].w.sid].name

\* everything comes to an end: done, dead, or waiting with good reason
AtRest == \A p \in Procs : ~More(p) \/ Blocked(p)
Ends1 == <>[]AtRest
==============================================================================
