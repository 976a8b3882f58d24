------------------------------ MODULE ToolCli ------------------------------
(* shr-tool's commands create, write, writehex, writefile, read, readhex and   *)
(* status as actions on abstract rings; each runs to its end, except write     *)
(* with more than fits and read -b, which run beside the others (job).         *)
EXTENDS ShrCore, ToolBytes, FiniteSets, TLC

VARIABLES rg,    \* the ring of every file that is one
          job    \* the command running in the background
clivars == <<rg, job>>
NoJob == [k |-> "none"]
CliInit == rg = <<>> /\ job = NoJob

Is(f) == f \in DOMAIN rg
\* exit statuses: success, failure (signals and sanitizer reports are neither)
Ok(ret) == ret = 0
Fail(ret) == ret \in 1..255 /\ ret # 77

--------------------------------------------------------------------------------
Units == [u \in {"", "k", "K", "m", "M", "g", "G"} |->
            CASE u = "" -> 1 [] u \in {"k", "K"} -> 1024 [] u \in {"m", "M"} -> 1048576 [] OTHER -> 1073741824]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x

CreateOk(size, unit, fl, hasapp, app) ==
  /\ size > 0 /\ unit \in DOMAIN Units
  /\ \A i \in 1..Len(fl) : fl[i] \in {"d", "f", "k", "s", "l"}
  /\ hasapp => app[1] > 0

Create(fs, size, unit, mm, fl, hasapp, app) ==
  IF ~CreateOk(size, unit, fl, hasapp, app) THEN UNCHANGED clivars
  ELSE LET ring == NewRing(size * Units[unit], mm, Has(fl, "d"), Has(fl, "f"), Has(fl, "s"), Has(fl, "l"),
                           IF hasapp THEN app ELSE Empty)
           made == {f \in {fs[i] : i \in 1..Len(fs)} : ~(Has(fl, "k") /\ Is(f))}
       IN rg' = [f \in made |-> ring] @@ rg /\ UNCHANGED job

--------------------------------------------------------------------------------
(* Writing                                                                      *)

\* one message after the other until one can never be stored:
\* <<ring, number stored>>; none of them may have to wait
StoreAll(r, ms) ==
  FoldLeft(LAMBDA a, m : IF a[3] /\ Possible(a[1], <<m>>) THEN <<Written(a[1], <<m>>), a[2] + 1, TRUE>>
                                                           ELSE <<a[1], a[2], FALSE>>,
           <<r, 0, TRUE>>, ms)
NoWait(r, ms) ==
  r.drop \/ LET s == StoreAll(r, ms)[2] IN Fits(r, SubSeq(ms, 1, s))

WriteLines(f, ms, ret) ==
  IF ~Is(f) THEN Fail(ret) /\ UNCHANGED clivars
  ELSE /\ NoWait(rg[f], ms)
       /\ LET s == StoreAll(rg[f], ms) IN
          /\ rg' = [rg EXCEPT ![f] = s[1]]
          /\ IF s[3] THEN Ok(ret) ELSE Fail(ret)
       /\ UNCHANGED job

\* the lines of a text, without their ends and without empty ones
Lines(s) ==
  LET step(a, x) == IF x = 10 THEN <<Append(a[1], a[2]), <<>>>> ELSE <<a[1], Append(a[2], x)>>
      p == FoldLeft(step, <<<<>>, <<>>>>, s)
      all == Append(p[1], p[2])
  IN SelectSeq(all, LAMBDA l : l # <<>>)
LineMsgs(s) == LET ls == Lines(s) IN [i \in 1..Len(ls) |-> OfBytes(ls[i])]

\* hexadecimal digits
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
HexOk(a) == a # <<>> /\ Len(a) % 2 = 0 /\ \A i \in 1..Len(a) : Digit(a[i]) >= 0
Unhex(a) == [i \in 1..(Len(a) \div 2) |-> 16 * Digit(a[2 * i - 1]) + Digit(a[2 * i])]
WriteHex(f, a, ret) ==
  IF ~HexOk(a) THEN Fail(ret) /\ UNCHANGED clivars ELSE WriteLines(f, <<OfBytes(Unhex(a))>>, ret)

WriteFile(f, m, ret) ==
  IF m[1] = 0 THEN Fail(ret) /\ UNCHANGED clivars ELSE WriteLines(f, <<m>>, ret)

--------------------------------------------------------------------------------
(* Reading.  A new reader of a farm ring starts at the oldest message.          *)
TakeCount(f, N) == IF N = 0 THEN Len(rg[f].st) ELSE Min2(N, Len(rg[f].st))
ReadMs(f, N) == IF Is(f) THEN ReadMsgs(rg[f], 0, TakeCount(f, N)) ELSE <<>>
Read(f, N) == IF Is(f) THEN rg' = [rg EXCEPT ![f] = AfterRead(@, 0, TakeCount(f, N))] /\ UNCHANGED job
              ELSE UNCHANGED clivars

--------------------------------------------------------------------------------
(* status                                                                       *)
Attributes(r) == (IF r.drop THEN {"drop"} ELSE {}) \cup (IF r.farm THEN {"farm"} ELSE {}) \cup
                 (IF r.mlock THEN {"mlock"} ELSE {}) \cup (IF r.sync THEN {"sync"} ELSE {})
Shown(r) ==
  [bytes_written |-> r.c.bw, bytes_read |-> r.c.br, bytes_dropped |-> r.c.bd,
   messages_written |-> r.c.mw, messages_read |-> r.c.mr, messages_dropped |-> r.c.md,
   ring_size |-> r.n, bytes_ready |-> r.u, max_messages |-> r.mm, messages_ready |-> Len(r.st),
   app_data |-> r.app[1]]

--------------------------------------------------------------------------------
(* In the background                                                            *)
StartWrite(f, ms) == job = NoJob /\ Is(f) /\ job' = [k |-> "write", f |-> f, pend |-> ms] /\ UNCHANGED rg
StoreNext ==
  /\ job.k = "write" /\ job.pend # <<>>
  /\ LET m == Head(job.pend) IN
     /\ Possible(rg[job.f], <<m>>) /\ CanWrite(rg[job.f], <<m>>)
     /\ rg' = [rg EXCEPT ![job.f] = Written(@, <<m>>)]
  /\ job' = [job EXCEPT !.pend = Tail(@)]
EndWrite(f, ret) == job.k = "write" /\ job.f = f /\ job.pend = <<>> /\ Ok(ret) /\ job' = NoJob /\ UNCHANGED rg

StartRead(f, N) == job = NoJob /\ Is(f) /\ job' = [k |-> "read", f |-> f, N |-> N, got |-> 0, out |-> Empty] /\ UNCHANGED rg
TakeNext ==
  /\ job.k = "read" /\ Available(rg[job.f], 0) /\ (job.N = 0 \/ job.got < job.N)
  /\ rg' = [rg EXCEPT ![job.f] = AfterRead(@, 0, 1)]
  /\ job' = [job EXCEPT !.got = @ + 1, !.out = Cat(@, ReadMsgs(rg[job.f], 0, 1)[1])]
\* it ended by itself exactly when it had what it was asked for; otherwise it had
\* taken all there was
EndRead(f, ended, out) ==
  /\ job.k = "read" /\ job.f = f /\ out = job.out
  /\ ended = (job.N > 0 /\ job.got = job.N)
  /\ ~ended => ~Available(rg[f], 0)
  /\ job' = NoJob /\ UNCHANGED rg
Internal == StoreNext \/ TakeNext
=============================================================================
