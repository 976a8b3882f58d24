#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
S, B, U, T, W = "src/shr.c", "lib/bw.c", "lib/ux.c", "util/shr-tool.c", "lib/bw.h"
P = []
def p(id, title, statement, over, text, why, files, symbols, mech=None, obs=None, hook=None):
    a = {"files": files, "symbols": symbols}
    a["mechanism"] = [{"name": m, "where": w} for m, w in (mech or [(symbols[0], files[0])])]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Normal rings deliver each accepted message once, intact, in order",
  "On a ring created without drop or farm mode, the messages returned by reads, taken together over all readers, are exactly the messages whose writes were reported accepted: each once, in the order accepted, with its boundaries and every byte preserved. This holds for every ring size, message limit and message length, at every position of a message relative to the end of the storage, for any number of wraps, and for any sequence of opening and closing handles in between.",
  ["histories", "inputs", "configurations"], "all operation sequences, message lengths, ring sizes and message limits",
  "The tests run a few dozen fixed scripts on a handful of sizes; the ring has a separate internal state for every combination of write offset, slot offset, present and unread messages, and only a few of them are ever entered.",
  [S], ["shr_write", "shr_writev", "shr_read", "shr_readv", "next_msg_info"],
  [("message vector (slot -> offset,length) and unread counters", "src/shr.c shr_writev/shr_readv"), ("wrap handling", "src/shr.c next_msg_info")],
  ["return values, buffers and iovecs of shr_read/shr_readv"])
p("C02", "A write is accepted exactly when it fits; unread data is never overwritten",
  "On a ring without drop or farm mode, a write or batch is accepted exactly when its bytes and its message count both fit beside the bytes and messages still unread; otherwise a non-blocking write returns 0, a blocking one waits, and nothing in the ring changes. On every ring, a write that could never be accepted (no messages, an empty message anywhere in the batch, more bytes than the ring holds, or more messages than its limit) returns -1 and changes nothing.",
  ["inputs", "histories", "configurations"], "all fill levels, message lengths and batch shapes, on byte-limited and message-limited rings",
  "Acceptance depends on two limits and the exact fill level; tests try a few exact fits and never an empty message inside a batch.",
  [S], ["shr_writev", "shr_write", "shr_flush"],
  [("free-space test under lock", "src/shr.c shr_writev"), ("argument validation loop", "src/shr.c shr_writev")],
  ["return values, later reads, shr_stat"])
p("C03", "Drop mode discards only the oldest messages, and only as many as needed",
  "On a drop-mode ring every write or batch that could fit in an empty ring succeeds at once. It discards oldest unread messages, whole, exactly as many as the new ones need in order to fit both the byte and the message limit, and none when they already fit; all other messages stay readable, intact and in order. The dropped-message and dropped-byte counters grow by exactly what was discarded.",
  ["histories", "inputs", "configurations"], "all sequences of reads and writes, all sizes, both limits",
  "Which messages go depends on the lengths of the oldest messages and on read but not yet overwritten ones; tests cover a few arrangements.",
  [S], ["drop_unread", "shr_writev"],
  [("drop loop", "src/shr.c drop_unread"), ("eldest advance", "src/shr.c shr_writev")],
  ["reads, shr_stat md/bd/mu/bu"])
p("C04", "Farm readers each see every message in order, with losses counted exactly",
  "On a farm ring each reader receives, in write order and intact, every message from the oldest one present when it opened, except messages overwritten before it reached them, and no reader's activity affects what another receives. Messages a reader misses always form one run ending directly before the oldest message still present, and the loss count reported to that reader grows by exactly the length of that run when it next reads.",
  ["histories", "inputs", "configurations"], "all interleavings of writes and reads by several farm readers, including readers opened late, reopened or far behind",
  "Losses depend on how far each reader is behind relative to wraps of data and slots; tests use one or two readers in fixed scripts.",
  [S], ["next_msg_info", "shr_readv", "shr_farm_stat", "shr_writev", "shr_open"],
  [("sequence number of eldest slot and per-reader sequence number", "src/shr.c next_msg_info")],
  ["reads, shr_farm_stat"])
p("C05", "Batch writes are all-or-nothing, batch reads return the longest fitting run",
  "A batch write enters the ring completely, its messages adjacent and in order, or not at all, also when other processes write at the same time. A batch read returns the longest run of whole messages from the front that fits both the caller's buffer and the number of iovecs, places them back to back, describes each one's address and length exactly, and returns their total size and count. When even the first does not fit it returns -2 and consumes nothing.",
  ["inputs", "histories", "schedules"], "all batch shapes, buffer sizes and iovec counts in every ring state",
  "The cut-off point depends on the lengths at the front of the ring, buffer size and iovec count together; tests use equal-length messages.",
  [S], ["shr_writev", "shr_readv"],
  [("copy-out loop", "src/shr.c shr_readv"), ("single critical section per batch", "src/shr.c shr_writev")],
  ["iovecs, counts and return values"])
p("C06", "Metrics always agree with the history of operations",
  "The reported metrics are exact at every moment: written, read and dropped message and byte counts equal what happened since the last reset, unread bytes and messages equal what is in the ring, and ring size, message limit, mode flags and the calling handle's own buffer figures are right. A reset returns the figures of the period it ends, starts a new period at the given time with zero counts, and changes neither ring content nor the figures describing it.",
  ["histories", "configurations"], "all operation sequences on all ring modes",
  "Tests print metrics at the end of short scripts; an update missed on one path (drop, batch, failed read, farm) shows only in particular sequences.",
  [S], ["shr_stat", "shr_readv", "shr_writev", "drop_unread"],
  [("stat struct updated under lock", "src/shr.c")], ["shr_stat"])
p("C07", "Buffered writers lose, duplicate and reorder nothing",
  "Messages written through a buffered handle stay invisible to readers until its buffer cannot take the next write, or it is flushed or closed; they then enter the ring in write order, each accepted message exactly once. A write or flush that returns 0 because the ring is full, or that is interrupted, loses and duplicates nothing. A flush asked to wait delivers the buffer even on a non-blocking handle, blocking if needed, and the handle is non-blocking again afterwards.",
  ["histories", "inputs", "configurations"], "all sequences of buffered writes, batches, flushes and closes against any ring fill level",
  "The buffered path has several outcomes (buffer, flush then buffer, flush then direct, refuse); tests reach most once but not their sequences or failures.",
  [S], ["shr_writev", "shr_flush", "shr_close", "init_cache"],
  [("cache of iovecs", "src/shr.c shr_writev"), ("flag toggling around flush", "src/shr.c shr_flush")],
  ["reads by another handle, shr_stat cm/cb"])
p("C08", "The selectable descriptor is readable whenever data is available",
  "Whenever a message is available to a non-blocking reader its selectable descriptor polls readable: from the moment of opening, after reads that leave messages behind, and after a write by any process, under every interleaving. Once a reader has opened an empty ring, or has made a read that found nothing or took the last message, its descriptor is not readable until something new is written. Only non-blocking readers are given a descriptor.",
  ["schedules", "histories", "configurations"], "all interleavings of readers and writers, all ring modes",
  "A descriptor cleared at the wrong moment loses a wakeup only if a write lands in a small window; tests poll after fixed scripts.",
  [S, B], ["shr_get_selectable_fd", "bw_force", "bw_wake", "shr_readv", "shr_open"],
  [("bw_force under the ring lock", "src/shr.c shr_readv")], ["poll() on the descriptor"])
p("C09", "Blocked readers and writers are always woken",
  "A process blocked in a read returns once a message is available to it, and a process blocked in a write or a waiting flush returns once enough space is free. This holds whatever the interleaving with other processes that open, close, read and write the ring: no wakeup is lost, and processes are never all left waiting although one of them could proceed.",
  ["schedules", "histories"], "all interleavings of several blocking and non-blocking readers and writers, including handles opened and closed during the run",
  "Lost wakeups need a particular interleaving of test-and-wait with wake; tests order processes with one-second sleeps.",
  [S, B], ["shr_readv", "shr_writev", "shr_flush", "bw_wait_ul", "bw_wake", "bw_sync", "bw_open"],
  [("queued datagram per waiter", "lib/bw.c"), ("seqno-triggered resync of waker sockets", "lib/bw.c bw_sync")],
  ["which calls are still blocked when nothing can move any more"])
p("C10", "Concurrent processes see the ring operations as one sequence",
  "For any number of processes sharing a ring and any interleaving, all calls behave as if they were executed one at a time in an order consistent with real time. In particular each message of a normal ring goes to exactly one reader, no reader ever sees part of a write or of a batch, and no write, read or counter update of one process is lost through another.",
  ["schedules", "histories"], "all interleavings of calls by several processes, at system calls and at unprotected accesses to shared memory",
  "Requires enumerating interleavings; the tests have at most three processes ordered by sleeps.",
  [S, B], ["lock", "unlock", "shr_writev", "shr_readv", "shr_stat", "shr_appdata", "shr_flush"],
  [("POSIX file lock around every access", "src/shr.c lock")], ["call/return histories of all processes"])
p("C11", "A killed process never harms the others",
  "If a process using a ring is killed between calls, while blocked in one, or while a call is acquiring or releasing the lock or notifying peers, the others carry on: none of them hangs, fails or loses data because of it. The call it was in has either taken effect completely or not at all, and the waiting place it held becomes available again, even while the dead process has not yet been reaped by its parent.",
  ["crash_points", "schedules", "histories"], "death of any process at any system call of any operation, followed by any activity of the others",
  "No test kills a process.",
  [S, B, U], ["prune_handle", "open_socket", "wake_one", "bw_sync", "has_pid_socket", "lock"],
  [("lock released by the kernel", "src/shr.c lock"), ("dead waiters pruned", "lib/bw.c prune_handle, wake_one; lib/ux.c")],
  ["histories of the surviving processes"])
p("C12", "Rings persist; creating and keeping rings affects exactly what it should",
  "Unread messages, limits, modes, application data and counters of a ring outlive the processes using it and are found unchanged on the next open. Creating a ring where one exists yields a new empty ring with the requested properties, while handles open on the old one keep working on the old one undisturbed; with keep-existing the existing ring is left exactly as it is and the call succeeds. Invalid creation parameters return -1 and leave an existing ring alone.",
  ["histories", "configurations", "inputs"], "all sequences of create/open/use/close over several rings and all creation flags and sizes",
  "Tests recreate a ring once and never look at the old handle, its content or limits.",
  [S], ["shr_init", "shr_open", "validate_ring"],
  [("unlink and exclusive create", "src/shr.c shr_init")], ["reads, shr_stat, shr_appdata after reopening"])
p("C13", "Application data is stored exactly and kept apart from messages",
  "Application data reads back exactly as last stored, whatever traffic and wraps the ring sees, and storing it never alters messages or metrics. A get reports the true length and accepts any buffer at least that large; a smaller buffer, a set whose size differs from the reserved one, and any access on a ring without application data return -1 and change nothing. A combined get-and-set returns the old and stores the new content in one indivisible step.",
  ["inputs", "histories", "configurations"], "all sizes of application data, ring and buffers, interleaved with ring traffic",
  "Tests store and fetch one small buffer of exactly the right size.",
  [S], ["shr_appdata", "shr_init"], [("region after the message vector", "src/shr.c shr_appdata")], ["shr_appdata results"])
p("C14", "A registered descriptor interrupts waiting, only waiting, without side effects",
  "On a blocking handle a read or write that has to wait returns -3 once a descriptor registered for interruption is readable, having consumed or written nothing. It never returns -3 when it can complete without waiting or when no registered descriptor is readable. Afterwards the handle works as before, including being woken from later waits.",
  ["histories", "schedules", "inputs"], "all ring states, both directions, any number of interruptions interleaved with other operations",
  "One test per direction exercises a single interruption.",
  [S, B], ["shr_ctl", "bw_ctl", "bw_wait_ul", "shr_readv", "shr_writev"],
  [("epoll set with extra descriptors", "lib/bw.c bw_wait_ul")], ["return values and later operations"])
p("C15", "64 waiting readers and 64 waiting writers, each notified, places reused",
  "A ring accepts up to 64 concurrently open readers and 64 concurrently open blocking writers; one more is refused with an error that disturbs no other handle. Closing handles, in any order, makes their places available again without limit. Every open waiting handle, in whichever place and however often its place was reused, is notified of new data or space by every process that makes some available.",
  ["histories", "configurations"], "all open/close orders at any occupancy, with writers and readers that stay open across them",
  "No test opens more than three handles at a time or reuses a place while a peer stays open.",
  [B, S, W], ["bw_open", "bw_close", "bw_reserve", "bw_sync", "bw_wake"],
  [("slot array and change counter in the shared handle", "lib/bw.c")], ["open results, readability of every reader"])
p("C16", "Only complete rings open, in one direction; opening races creation safely",
  "Opening succeeds only with exactly one of read and write mode and only on a complete ring file; a missing, empty, truncated or foreign file, or invalid flags, make it return an error without a crash and without altering the file. A process that opens a ring while another creates or re-creates it either gets an error or a complete ring, old or new, never a half-made one, under every interleaving and wherever the creating process may be killed.",
  ["schedules", "inputs", "configurations"], "all truncation lengths and foreign contents; all interleavings of the steps of creation and opening",
  "Tests open only well-formed rings and never concurrently with creation.",
  [S], ["shr_open", "validate_ring", "validate_flags", "shr_init"],
  [("the magic goes in last, under the lock", "src/shr.c shr_init"), ("validation under lock", "src/shr.c validate_ring")],
  ["shr_open results"])
p("C17", "Calls leave the ring unlocked and closing leaves nothing behind",
  "Every call, on success and on every failure, returns with the ring unlocked so that other processes are never held up. Closing handles, and opens or creations that fail, leave the process with no additional file descriptor, memory mapping or allocated memory, however often they are repeated.",
  ["histories", "inputs", "fault_sequences"], "all sequences of calls including refused opens, failed writes, interrupted waits, flushes; repeated any number of times",
  "A leak or a missed unlock on an error path is invisible in a short single run.",
  [S, B, U], ["shr_open", "shr_close", "bw_open", "bw_close", "has_pid_socket", "unlock"],
  [("goto done cleanup", "src/shr.c, lib/bw.c, lib/ux.c")], ["/proc/self/fd, /proc/self/maps, lock state"])
p("C18", "Synced rings are on stable storage when a call returns",
  "On a ring created in sync mode, when a write, flush, read, application-data update or metrics reset returns success, the ring's backing file already holds its effect: after a power failure at that moment, reopening the file gives exactly the acknowledged messages, metrics and application data. This includes writes that wrap, batches, drops and buffered flushes.",
  ["crash_points", "histories"], "power failure after any call of any history, on sync-mode rings in each mode",
  "Sync mode is used by no test, and power failure cannot be tested in-process.",
  [S], ["shr_sync", "shr_writev", "shr_readv", "shr_appdata", "shr_stat"],
  [("msync before unlock", "src/shr.c shr_sync")], ["content of last synced image, reopened"])
p("C19", "Publishing a ring over TCP reproduces it exactly at the subscriber",
  "Messages that the publisher takes from its ring arrive in the subscriber's ring exactly once, in order and byte for byte, whatever their lengths up to 1 MiB (on the publishing side up to 1,000,000 bytes) and however the TCP stream is split or merged in transit. The publisher sends each message as a native 32-bit length followed by the bytes, or the bytes alone when prefixes are turned off; the subscriber stores a message as soon as its last byte arrives, also when the connection ends right behind it. A client that goes away, even in the middle of a message, neither ends the publisher nor costs anything but the messages that were under way to it: the next client is served from the next message on.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences and all segmentations of the byte stream",
  "The tools are not tested at all.",
  [T], ["decode_frames", "do_subscriber", "handle_io", "accept_client"],
  [("partial frame kept in the buffer", "util/shr-tool.c decode_frames")], ["bytes on the socket, content of the destination ring"])
p("C20", "Tee copies a ring completely into both outputs",
  "While tee runs, every message of the source ring is moved to both output rings exactly once, intact and in order, including messages present before it started and bursts larger than an output ring, for which it waits until readers make room. Neither output misses, duplicates or reorders a message relative to the other.",
  ["histories", "schedules", "inputs"], "all message sequences, sizes and reader speeds on the outputs",
  "The tools are not tested at all.",
  [T], ["handle_io", "main"], None, ["content of the three rings"])
p("C21", "shr-tool commands act on rings exactly as described",
  "create makes rings with the requested size (with suffix), message limit, modes and application data; write stores each non-empty stdin line, writefile a file's bytes and writehex the decoded argument as one message each, and a malformed hex argument stores nothing. read outputs exactly the stored messages' bytes in order (readhex their dump), up to the requested number of messages and leaving the others in the ring; status reports the ring's true metrics, attributes and application data.",
  ["inputs", "histories", "configurations"], "all command sequences with all message contents and option combinations",
  "The tools are not tested at all.",
  [T], ["main", "unhex", "hexdump", "handle_io"], None, ["ring content, stdout, exit status"])
p("C22", "The wait/wake library never loses a wake and forces readiness exactly",
  "A wake makes the descriptor of every waiter that is open at that time readable, including waiters opened or reopened after the waker, and a later or current blocking wait by any of them returns; waiters that have closed or died are skipped without error. Forcing makes the caller's own descriptor readable or not readable as asked, whatever was queued before, and affects no other waiter.",
  ["histories", "schedules", "configurations"], "all sequences of open, close, wake, wait, force and death over up to 64 waiters and several wakers",
  "The library has no tests of its own; ring tests use at most two waiters.",
  [B, U, W], ["bw_open", "bw_close", "bw_wake", "bw_wait_ul", "bw_ready_ul", "bw_force", "bw_ctl"],
  [("unix datagram socket per waiter", "lib/bw.c")], ["poll() on each waiter's descriptor"])
p("C23", "Memory-locked rings are locked entirely while open, others never",
  "A ring created memory-locked has its whole mapping locked in memory by every process that opens it, for as long as the handle is open, and opening fails rather than succeed unlocked. Rings created without that mode are never locked, and the mode persists with the ring.",
  ["configurations", "histories", "fault_sequences"], "all ring modes and sizes, both directions, success and failure of locking",
  "No test creates a memory-locked ring.",
  [S], ["shr_open", "shr_init"], None, ["VmLck / lock calls of the process"])

if __name__ == "__main__":
    for x in P: print(json.dumps(x))
