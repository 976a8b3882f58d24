------------------------------ MODULE InitOpen ------------------------------
(* Creating a ring while others create or open one at the same path: the       *)
(* steps of both sides on the file system, with death of a process at any      *)
(* step.  Files are inodes; a path leads to at most one; handles keep theirs.  *)
(*                                                                             *)
(* The creator: look whether the path exists, unlink it, create the file       *)
(* exclusively, lock it, give it its size, map it, write the parts of the      *)
(* header (and application data), close (which unlocks).  The opener: open,    *)
(* take the size, map, lock, validate, unlock.                                 *)
(*                                                                             *)
(* Variant "code" is the real order; the others are wrong in one detail.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Creators, Keepers, Openers,  \* processes: creators, creators that keep, openers
          Rounds,                      \* calls per process
          Kills, Old,                  \* how many may die; is there a ring at first?
          Variant

Procs == Creators \cup Keepers \cup Openers
Makers == Creators \cup Keepers
MaxI == Cardinality(Makers) * Rounds + 1
Inodes == 1..MaxI
Parts == IF Variant = "magicfirst" THEN <<"magic", "sizes", "modes", "app">>   \* in the order they are written
         ELSE <<"sizes", "modes", "app", "magic">>
None == 0

VARIABLES path,   \* inode at the path, or None
          ino,    \* per inode: sz (0 none, 1 full), part -> by whom, lock holder
          top,    \* number of inodes made
          pc, n, my, \* per process: step, calls left, inode in hand
          seen,   \* per process: size seen / header part in work
          got,    \* handles: set of [i, by] that opened successfully
          ret,    \* results so far: per process "", "ok", "fail"
          kills, clean  \* clean: since this process' call began, no maker was active
vars == <<path, ino, top, pc, n, my, seen, got, ret, kills, clean>>

Part(i, w) == ino[i].p[CHOOSE x \in 1..Len(Parts) : Parts[x] = w]
Blank == [sz |-> 0, p |-> [x \in 1..Len(Parts) |-> None], lk |-> None, full |-> FALSE]
Whole(i) == ino[i].sz = 1 /\ \E m \in Makers \cup {-1} : \A x \in 1..Len(Parts) : ino[i].p[x] = m
Init ==
  /\ path = (IF Old THEN 1 ELSE None) /\ top = (IF Old THEN 1 ELSE 0)
  /\ ino = [i \in Inodes |-> IF Old /\ i = 1 THEN [Blank EXCEPT !.sz = 1, !.p = [x \in 1..Len(Parts) |-> -1], !.full = TRUE] ELSE Blank]
  /\ pc = [p \in Procs |-> "idle"] /\ n = [p \in Procs |-> Rounds]
  /\ my = [p \in Procs |-> None] /\ seen = [p \in Procs |-> 0]
  /\ got = {} /\ ret = [p \in Procs |-> ""] /\ kills = Kills /\ clean = [p \in Procs |-> FALSE]

Active(p) == pc[p] \notin {"idle", "dead"}
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
\* POSIX locks go when the process closes the file
Unlocked(p, i) == IF i = None \/ ino[i].lk # p THEN ino ELSE [ino EXCEPT ![i].lk = None]
Return(p, r) == /\ Go(p, "idle") /\ n' = [n EXCEPT ![p] = @ - 1] /\ ret' = [ret EXCEPT ![p] = r]
                /\ my' = [my EXCEPT ![p] = None] /\ seen' = [seen EXCEPT ![p] = 0]

Start(p) ==
  /\ pc[p] = "idle" /\ n[p] > 0
  /\ Go(p, IF p \in Makers THEN "access" ELSE "open")
  /\ clean' = [x \in Procs |-> IF x = p THEN ~(\E m \in Makers : Active(m)) /\ p \notin Makers
                               ELSE clean[x] /\ p \notin Makers]
  /\ UNCHANGED <<path, ino, top, n, my, seen, got, ret, kills>>

--------------------------------------------------------------------------------
Access(p) ==
  /\ pc[p] = "access"
  /\ IF path # None /\ p \in Keepers THEN Return(p, "kept")
     ELSE Go(p, IF path # None THEN "unlink" ELSE "create") /\ UNCHANGED <<n, my, seen, ret>>
  /\ UNCHANGED <<path, ino, top, got, kills, clean>>
Unlink(p) ==
  /\ pc[p] = "unlink"
  /\ IF Variant = "reuse"      \* wrong: write into the file that is there
     THEN Go(p, "create") /\ UNCHANGED <<path, n, my, seen, ret>>
     ELSE IF path = None THEN Return(p, "fail") /\ UNCHANGED path
     ELSE path' = None /\ Go(p, "create") /\ UNCHANGED <<n, my, seen, ret>>
  /\ UNCHANGED <<ino, top, got, kills, clean>>
CreateF(p) ==
  /\ pc[p] = "create"
  /\ IF path # None
     THEN IF Variant \in {"noexcl", "reuse"}
          THEN my' = [my EXCEPT ![p] = path] /\ Go(p, "lock") /\ UNCHANGED <<path, ino, top, n, seen, ret>>
          ELSE Return(p, "fail") /\ UNCHANGED <<path, ino, top>>
     ELSE /\ top' = top + 1 /\ path' = top + 1 /\ my' = [my EXCEPT ![p] = top + 1]
          /\ Go(p, "lock") /\ UNCHANGED <<ino, n, seen, ret>>
  /\ UNCHANGED <<got, kills, clean>>
LockC(p) ==
  /\ pc[p] = "lock"
  /\ IF Variant = "nolock" THEN UNCHANGED ino
     ELSE ino[my[p]].lk = None /\ ino' = [ino EXCEPT ![my[p]].lk = p]
  /\ Go(p, "size") /\ UNCHANGED <<path, top, n, my, seen, got, ret, kills, clean>>
\* the size may be refused by the file system: the call fails and takes the file away again
Size(p) ==
  /\ pc[p] = "size"
  /\ \/ ino' = [ino EXCEPT ![my[p]].sz = 1] /\ seen' = [seen EXCEPT ![p] = 1] /\ UNCHANGED path
        /\ Go(p, "write")
     \/ path' = None /\ Go(p, "failed") /\ UNCHANGED <<ino, seen>>
  /\ UNCHANGED <<top, n, my, got, ret, kills, clean>>
WriteH(p) ==
  /\ pc[p] = "write"
  /\ ino' = [(IF Variant = "earlyclose" THEN Unlocked(p, my[p]) ELSE ino) EXCEPT ![my[p]].p[seen[p]] = p]
  /\ IF seen[p] < Len(Parts) THEN seen' = [seen EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
     ELSE Go(p, "close") /\ UNCHANGED seen
  /\ UNCHANGED <<path, top, n, my, got, ret, kills, clean>>
CloseC(p) ==
  /\ pc[p] = "close" /\ ino' = [Unlocked(p, my[p]) EXCEPT ![my[p]].full = TRUE] /\ Return(p, "ok")
  /\ UNCHANGED <<path, top, got, kills, clean>>
Failed(p) ==
  /\ pc[p] = "failed" /\ ino' = Unlocked(p, my[p]) /\ Return(p, "fail")
  /\ UNCHANGED <<path, top, got, kills, clean>>

--------------------------------------------------------------------------------
OpenF(p) ==
  /\ pc[p] = "open"
  /\ IF path = None THEN Return(p, "fail")
     ELSE my' = [my EXCEPT ![p] = path] /\ Go(p, "fstat") /\ UNCHANGED <<n, seen, ret>>
  /\ UNCHANGED <<path, ino, top, got, kills, clean>>
Fstat(p) ==
  /\ pc[p] = "fstat"
  /\ IF ino[my[p]].sz = 0 /\ Variant # "nosize"
     THEN Return(p, "fail")        \* nothing to map
     ELSE seen' = [seen EXCEPT ![p] = ino[my[p]].sz] /\ Go(p, "olock") /\ UNCHANGED <<n, my, ret>>
  /\ UNCHANGED <<path, ino, top, got, kills, clean>>
OLock(p) ==
  /\ pc[p] = "olock"
  /\ IF Variant = "openernolock" THEN UNCHANGED ino
     ELSE ino[my[p]].lk = None /\ ino' = [ino EXCEPT ![my[p]].lk = p]
  /\ Go(p, "validate") /\ UNCHANGED <<path, top, n, my, seen, got, ret, kills, clean>>
\* it looks at the magic and the sizes only
Validate(p) ==
  /\ pc[p] = "validate"
  /\ LET i == my[p] ok == Part(i, "magic") # None /\ Part(i, "sizes") # None IN
     /\ got' = IF ok THEN got \cup {[i |-> i, by |-> ino[i].p, len |-> seen[p]]} ELSE got
     /\ Return(p, IF ok THEN "ok" ELSE "fail")
     /\ ino' = Unlocked(p, i)
  /\ UNCHANGED <<path, top, kills, clean>>

Die(p) ==
  /\ kills > 0 /\ Active(p) /\ kills' = kills - 1
  /\ Go(p, "dead") /\ ino' = Unlocked(p, my[p])
  /\ UNCHANGED <<path, top, n, my, seen, got, ret, clean>>

Step(p) == Start(p) \/ Access(p) \/ Unlink(p) \/ CreateF(p) \/ LockC(p) \/ Size(p) \/ WriteH(p)
           \/ CloseC(p) \/ Failed(p) \/ OpenF(p) \/ Fstat(p) \/ OLock(p) \/ Validate(p)
Next == \E p \in Procs : Step(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

--------------------------------------------------------------------------------
(* An open succeeds only on a complete ring, made by one creator, seen in full  *)
OnlyWhole == \A g \in got : g.len = 1 /\ \E m \in Makers \cup {-1} : \A x \in 1..Len(Parts) : g.by[x] = m
(* ... which stays as it was made for those who have it open                    *)
Undisturbed == \A g \in got : ino[g.i].p = g.by
(* what a maker reports made is whole, at the path or replaced by another's     *)
Made == \A i \in Inodes : ino[i].full => Whole(i)

(* an open during which nobody was making, on a whole ring at the path, succeeds;
   a ring whose creator was killed after it was whole counts too                 *)
MustOpen == [][\A p \in Openers :
                 (pc[p] # "idle" /\ pc'[p] = "idle" /\ ret'[p] = "fail" /\ clean[p])
                   => ~(path # None /\ Whole(path))]_vars
(* keeping leaves what is there                                                  *)
Kept == [][\A p \in Keepers : path # None /\ pc[p] = "access" => path' = path \/ pc'[p] = pc[p]]_vars
(* every call returns, whoever dies where                                        *)
Ends == \A p \in Procs : []<>(pc[p] \in {"idle", "dead"})
=============================================================================
