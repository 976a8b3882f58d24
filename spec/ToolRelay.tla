----------------------------- MODULE ToolRelay -----------------------------
(* shr-tool's long-running modes as a state machine over abstract rings:       *)
(*   pub    takes messages from ring 1 while a client is connected and sends   *)
(*          each as its length and bytes, or the bytes alone                   *)
(*   sub    stores each frame of the stream it receives in ring 1, when the    *)
(*          frame is complete and the ring takes it                            *)
(*   relay  moves messages from ring 1 to every ring in outs: tee (two         *)
(*          outputs), or a publisher and a subscriber put together (one)       *)
(* The tool's own steps (Take, Store, Forward) happen at any time; the other   *)
(* actions are those of the environment: writers and readers of the rings,     *)
(* the network.                                                                *)
(*                                                                             *)
(* Quiet states what must have happened once the tool has had enough time:     *)
(* everything that can be done has been done.                                  *)
EXTENDS ShrCore, ToolBytes, FiniteSets, TLC

VARIABLES rg,    \* the rings by number
          job    \* what the tool is doing
relayvars == <<rg, job>>

NoJob == [k |-> "none"]
RelayInit == rg = <<>> /\ job = NoJob

Make(r, n, mm, drop, farm) ==
  /\ rg' = (r :> NewRing(n, mm, drop, farm, FALSE, FALSE, NoApp)) @@ rg
  /\ UNCHANGED job

--------------------------------------------------------------------------------
(* The environment: non-blocking writes and single reads                        *)
WriteRet(r, ms) == IF ~Possible(rg[r], ms) THEN -1 ELSE IF CanWrite(rg[r], ms) THEN Bytes(ms) ELSE 0
WriteTo(r, ms) ==
  /\ rg' = IF WriteRet(r, ms) > 0 THEN [rg EXCEPT ![r] = Written(@, ms)] ELSE rg
  /\ UNCHANGED job

\* pos: the reader's position (farm rings are read only by the tool and, as
\* sinks, by one reader of the driver that starts at 0)
ReadFrom(r, pos) ==
  /\ rg' = IF Available(rg[r], pos) THEN [rg EXCEPT ![r] = AfterRead(@, pos, 1)] ELSE rg
  /\ UNCHANGED job

--------------------------------------------------------------------------------
(* The publisher                                                                *)
StartPub(prefix) == job = NoJob /\ job' = [k |-> "pub", prefix |-> prefix, conn |-> FALSE, wire |-> <<>>, raw |-> Empty, pos |-> 0] /\ UNCHANGED rg

Connect == job.k = "pub" /\ ~job.conn /\ job' = [job EXCEPT !.conn = TRUE] /\ UNCHANGED rg
\* what it was sending is lost
Disconnect == job.k = "pub" /\ job.conn /\ job' = [job EXCEPT !.conn = FALSE, !.wire = <<>>, !.raw = Empty] /\ UNCHANGED rg

Take ==
  /\ job.k = "pub" /\ job.conn /\ Available(rg[1], job.pos)
  /\ LET m == ReadMsgs(rg[1], job.pos, 1)[1] IN
     /\ rg' = [rg EXCEPT ![1] = AfterRead(@, job.pos, 1)]
     /\ job' = [job EXCEPT !.wire = IF job.prefix THEN Append(@, m) ELSE @,
                           !.raw = IF job.prefix THEN @ ELSE Cat(@, m),
                           !.pos = IF rg[1].farm THEN FarmPos(rg[1], @) + 1 ELSE @]

\* a frame arrives at the client
Frame(hdr, m) ==
  /\ job.k = "pub" /\ job.conn /\ job.prefix /\ job.wire # <<>>
  /\ m = job.wire[1] /\ hdr = LE32(m[1])
  /\ job' = [job EXCEPT !.wire = Tail(@)]
  /\ UNCHANGED rg
\* s is everything the client received since it connected
Raw(s) == job.k = "pub" /\ job.conn /\ ~job.prefix /\ s = job.raw /\ UNCHANGED relayvars

--------------------------------------------------------------------------------
(* The subscriber                                                               *)
\* frames: what the publisher at the other end sends, in full
StartSub(frames) == job = NoJob /\ job' = [k |-> "sub", frames |-> frames, tx |-> 0, stored |-> 0] /\ UNCHANGED rg
\* the first d bytes of the stream have arrived
Arrive(d) == job.k = "sub" /\ d >= job.tx /\ job' = [job EXCEPT !.tx = d] /\ UNCHANGED rg
Complete ==
  LET step(a, m) == IF a[3] /\ a[2] + 4 + m[1] <= job.tx THEN <<a[1] + 1, a[2] + 4 + m[1], TRUE>> ELSE <<a[1], a[2], FALSE>>
  IN FoldLeft(step, <<0, 0, TRUE>>, job.frames)[1]
Store ==
  /\ job.k = "sub" /\ job.stored < Complete
  /\ LET m == job.frames[job.stored + 1] IN
     /\ Possible(rg[1], <<m>>) /\ CanWrite(rg[1], <<m>>)
     /\ rg' = [rg EXCEPT ![1] = Written(@, <<m>>)]
     /\ job' = [job EXCEPT !.stored = @ + 1]

--------------------------------------------------------------------------------
(* tee, and publisher with subscriber                                           *)
StartRelay(outs) == job = NoJob /\ job' = [k |-> "relay", outs |-> outs, pend |-> [j \in outs |-> <<>>], pos |-> 0] /\ UNCHANGED rg
Move ==
  /\ job.k = "relay" /\ Available(rg[1], job.pos)
  /\ LET m == ReadMsgs(rg[1], job.pos, 1)[1] IN
     /\ rg' = [rg EXCEPT ![1] = AfterRead(@, job.pos, 1)]
     /\ job' = [job EXCEPT !.pend = [j \in job.outs |-> Append(@[j], m)],
                           !.pos = IF rg[1].farm THEN FarmPos(rg[1], @) + 1 ELSE @]
Forward(j) ==
  /\ job.k = "relay" /\ j \in job.outs /\ job.pend[j] # <<>>
  /\ LET m == Head(job.pend[j]) IN
     /\ Possible(rg[j], <<m>>) /\ CanWrite(rg[j], <<m>>)
     /\ rg' = [rg EXCEPT ![j] = Written(@, <<m>>)]
     /\ job' = [job EXCEPT !.pend[j] = Tail(@)]

--------------------------------------------------------------------------------
Internal == Take \/ Store \/ Move \/ (job.k = "relay" /\ \E j \in job.outs : Forward(j))

\* nothing is left to do.  partial: bytes of an incomplete frame at the client.
\* The outputs are read while waiting for this.
Quiet(partial) ==
  /\ partial = 0
  /\ \/ job.k = "pub" /\ job.conn /\ ~Available(rg[1], job.pos) /\ job.wire = <<>>
     \/ job.k = "sub" /\ job.stored = Complete
     \/ /\ job.k = "relay"
        /\ ~Available(rg[1], job.pos) /\ \A j \in job.outs : job.pend[j] = <<>>
  /\ UNCHANGED relayvars
=============================================================================
