#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The text of the properties lives here.
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SHR="src/shr.c"; BW="lib/bw.c"; UX="lib/ux.c"; TOOL="util/shr-tool.c"; BWT="lib/bw-tool.c"

prop("C01","Messages arrive whole and intact",
 "Every message a reader receives is byte-for-byte and length-for-length one message that some writer passed to a single write (or one element of a vector write): never a part of one, never two merged, never bytes of another message. A vector read describes its messages exactly: the returned count, the elements' lengths and positions in the caller's buffer and the returned byte total all agree, and nothing outside the caller's buffer is touched. This holds for every ring size, message size, wrap position, mapping address and interleaving of processes.",
 ["inputs","schedules","histories"],"all ring geometries, message-size sequences, wrap positions and interleavings of several processes",
 "The tests use a few fixed sizes on fixed turn-taking schedules (each process waits for its second); they never overlap a read with a write in time, nor place messages at arbitrary wrap offsets.",
 [SHR],[("ring lock around every copy","shr.c lock/unlock"),("two-part copy at wrap","shr.c shr_writev, next_msg_info, shr_readv")],["shr_read","shr_readv"],
 [("i","next write offset","shr_ctrl"),("mv","message position/length slots","shr_ctrl tail")])
prop("C02","A consuming ring is an exactly-once FIFO queue",
 "On a ring created without drop or farm mode, the concurrent history of all reads and writes by any number of processes is equivalent to one order of whole operations on a single FIFO queue that respects real time: each accepted message is delivered to exactly one reader exactly once, and none is lost, duplicated, reordered or invented. A vector write is all-or-nothing and its messages are adjacent; a read takes the longest run of oldest messages that fits the caller's buffer and element count. A read whose buffer cannot hold the oldest message reports that (-2) and consumes nothing.",
 ["schedules","histories","inputs"],"all interleavings of concurrent readers and writers, blocking and non-blocking, over all histories of operations",
 "Tests check printed output of two or three processes run in lock step; no test has two operations in flight on the ring lock, so races and cross-process ordering are unexplored.",
 [SHR],[("POSIX file lock per operation","shr.c lock"),("read slot / unread counts","shr.c shr_readv"),("append at eldest+present","shr.c shr_writev")],["shr_write","shr_writev","shr_read","shr_readv"],
 [("r,u,m","read slot, unread bytes, unread messages","shr_ctrl")])
prop("C03","Unread data is never overwritten; fullness is exact",
 "Without drop mode a write never overwrites or displaces unread data: it is accepted only when the free bytes and the free message slots both suffice for the whole batch, and up to exactly the ring's byte size and message limit can be unread at once. A non-blocking write returns 0, changing nothing, exactly when the batch does not fit at that moment; a blocking one then waits. A batch that could never fit, or that contains an empty message, is refused with -1 and changes nothing.",
 ["inputs","histories","schedules"],"all sequences of batch sizes against all ring sizes and message limits, with concurrent consumers freeing space",
 "The tests fill a handful of rings of fixed size; the two limits, the wrap offset and the batch shape interact combinatorially and concurrently with readers.",
 [SHR],[("free-space test","shr.c shr_writev"),("eldest advance","shr.c shr_writev"),("argument checks","shr.c shr_writev head")],["shr_write","shr_writev","shr_stat"],
 [("u,m,n,mm","unread bytes/messages and limits","shr_ctrl")])
prop("C04","Drop mode: writes always succeed, only oldest data goes",
 "On a drop-mode ring any batch that could fit an empty ring is accepted without waiting; to make room exactly the oldest unread messages are discarded, whole and as few as suffice for both the byte and the message limit. The messages that survive are delivered once, in order, and every accepted message ends up exactly one of read, still unread, or counted as dropped.",
 ["inputs","histories","schedules"],"all sequences of writes and concurrent reads on drop rings of all sizes",
 "Tests cover a few fixed drop sequences; whether the byte or slot limit binds, at which wrap position, with a reader racing, is unbounded.",
 [SHR],[("oldest-first discard","shr.c drop_unread"),("eldest advance","shr.c shr_writev")],["shr_write","shr_writev","shr_read","shr_stat"])
prop("C05","Farm mode: each reader independently sees every message",
 "On a farm ring every reader starts at the oldest message present when it opens and receives every later message in writing order, without duplicates, whatever other readers do. It skips a message only if that message was overwritten before this reader read it, then continuing at the oldest one present, and its missed-message count grows by exactly the number skipped (and restarts from zero when reset).",
 ["histories","schedules","inputs"],"all interleavings of a writer and several independently paced readers, opened and closed at any time",
 "Tests have at most a couple of farm readers in lock step; lag by arbitrary amounts, slot-vector wrap and late opening in combination are not sampled.",
 [SHR],[("per-reader sequence number","shr.c next_msg_info"),("eldest sequence number","shr.c shr_writev"),("missed counter","shr.c shr_farm_stat")],["shr_read","shr_readv","shr_farm_stat"],
 [("q,e,mp","sequence/slot of eldest message, messages present","shr_ctrl"),("q,md","reader's next sequence number and misses","struct shr")])
prop("C06","A blocked reader or writer is always resumed",
 "No wakeup is ever lost: a process blocked reading never stays blocked while a message is available to it, and a process blocked writing (or flushing) never stays blocked while its batch would fit, however operations, opens and closes of other processes interleave and however many wakeups are already queued. No operation returns while still holding the ring lock, and none waits for data or space while holding it.",
 ["schedules","histories"],"all interleavings of blocking and waking operations, including peers that open, close and reuse waiting slots",
 "A lost wakeup needs a wake to fall between the emptiness test and the wait, or a stale connection to a reused slot; the tests' one-second turns cannot produce either.",
 [SHR,BW],[("wake all waiters after each change","bw.c bw_wake"),("connection refresh on slot change","bw.c bw_sync"),("wait on a datagram socket","bw.c bw_wait_ul")],["shr_read","shr_write","shr_flush"],
 [("seqno, wr[]","waiter table and its change counter","bw_handle")])
prop("C07","The selectable descriptor tells when to read",
 "Whenever a message is available to a non-blocking reader its selectable descriptor polls readable, from the moment it is opened, after every partial read, and no matter how writes and reads of other processes interleave. A read that finds or leaves nothing to read clears the descriptor, so an event loop neither misses data nor spins. Spurious readiness caused by others' activity is allowed, and the read it triggers returns 0 rather than blocking. Only a non-blocking reader is given such a descriptor.",
 ["schedules","histories"],"all interleavings of polling readers with writers and with competing readers",
 "The tests poll the descriptor at quiet moments only; the races between a write, its wakeup and the clearing of old wakeups need overlapped schedules.",
 [SHR,BW],[("readability forced under lock","bw.c bw_force"),("drain of queued wakeups","bw.c drain_msgs"),("initial readability","shr.c open_blockwake")],["shr_get_selectable_fd","poll/epoll","shr_read"])
prop("C08","Buffered writes keep order and lose nothing",
 "Messages accepted by a buffered writer reach the ring exactly once, in the order accepted, each flush batch whole: when a flush or close by a blocking writer succeeds all of them are in the ring, and a flush that reports it wrote nothing or failed leaves them buffered for a later one. A later write is never visible before an earlier buffered one of the same handle. A waiting flush on a non-blocking writer waits for space, and afterwards the handle is non-blocking and buffered again.",
 ["histories","schedules","inputs"],"all sequences of buffered writes, vector writes, flushes and closes, with concurrent readers and other writers",
 "Eleven tests exercise buffering on fixed sequences; cache-overflow boundaries (bytes and message count), full rings and interleaved flush outcomes are not covered.",
 [SHR],[("write cache","shr.c shr_writev, init_cache"),("flush","shr.c shr_flush"),("final flush","shr.c shr_close")],["shr_write","shr_writev","shr_flush","shr_close","shr_stat"])
prop("C09","Ring statistics are exact",
 "The byte and message counts a status query returns (written, read, dropped, currently unread, capacity, mode) equal those of the operations completed before it, as one consistent snapshot, under any concurrency. A reset starts a new period at the given time with zero counters, losing no activity between what the old period reported and what the new one counts, and never disturbs the ring's content.",
 ["schedules","histories"],"all interleavings of queries, resets and I/O by any processes",
 "Tests print counters at quiet points of fixed scripts; consistency under concurrent I/O and resets is a statement about every schedule.",
 [SHR],[("counters updated under lock","shr.c shr_writev, shr_readv, drop_unread"),("snapshot and reset under lock","shr.c shr_stat")],["shr_stat"])
prop("C10","Application data is an atomic register of its own",
 "The application-data area holds exactly the bytes last stored (initially those given at creation): concurrent gets, sets and get-and-sets by any processes behave as if each happened at one instant, so no reader ever sees a mix of two values. Ring traffic never alters it and using it never alters ring traffic. A get into a larger buffer returns just the area's bytes and length; a size mismatch is refused with no effect.",
 ["schedules","histories","inputs"],"all interleavings of application-data and ring operations, and all buffer sizes",
 "One or two tests set and get it in turn in one process; tearing appears only under overlapped access.",
 [SHR],[("copy under ring lock","shr.c shr_appdata"),("layout after message vector","shr.c shr_init")],["shr_appdata"])
prop("C11","Creating and opening rings is safe at any moment",
 "A successful open always yields a complete, valid ring: an open that races with creation, or that meets a file which is truncated, empty or not a ring, fails cleanly instead. Creation with keep-existing never alters or replaces an existing ring even when creators race; creation without it gives a fresh empty ring while processes that have the old ring open go on using it undisturbed; a failed creation leaves no ring file behind. Invalid flag combinations are refused.",
 ["schedules","fault_sequences","inputs"],"all interleavings of creators and openers, file contents, and failing system calls during creation",
 "Tests create the ring before any process opens it; creation races, truncation and creation failures are never exercised.",
 [SHR],[("exclusive create, lock while initializing","shr.c shr_init"),("validation under lock","shr.c validate_ring, shr_open")],["shr_init","shr_open"])
prop("C12","The ring outlives the processes that use it",
 "Unread messages, their order, statistics, farm backlog and application data are unaffected by processes closing, exiting and new processes opening the ring at different addresses, in any order and number, including when no process has it open. A handle opened later behaves exactly as one opened from the start, apart from a farm reader's own position.",
 ["histories","schedules","configurations"],"all histories of opens, closes and process restarts interleaved with I/O",
 "Tests open each handle once or twice around short fixed scripts; long histories of reopen and slot reuse with I/O in between are not covered.",
 [SHR,BW],[("all shared state lives in the file","shr.c shr_ctrl"),("pointer-free wait table","bw.h bw_handle")],["shr_open","shr_close","shr_read","shr_stat"])
prop("C13","A process dying does not harm the others",
 "If a process using the ring is killed at any instant, the remaining and later processes can still open, read, write and wait: nothing previously accepted is lost, duplicated or corrupted, the dead process's operation took effect entirely or not at all, no survivor fails, hangs or misses a wakeup because of it, and its waiting slot becomes usable again. This holds also while the corpse is an unreaped zombie, when its process id or wakeup address has been taken over by something unrelated, and after a reboot with stale entries in the ring file.",
 ["crash_points","schedules","histories"],"all kill points of any process, followed by any activity of survivors and restarted processes",
 "No test kills a process; recovery of stale slots depends on the order of death, reuse and reopening.",
 [BW,UX,SHR],[("stale slot detection","ux.c has_pid_socket"),("prune on open","bw.c prune_handle"),("purge on failed wake/connect","bw.c wake_one, open_socket"),("kernel releases the lock on death","shr.c lock")],["survivors' shr_open/read/write results"],
 [("wr[].pid/name","who waits and at which address","bw_handle")])
prop("C14","Waiting slots: 64 of each kind, refused cleanly, reusable",
 "Up to 64 readers, and up to 64 writers that may block, can have the ring open at the same time and every one of them is woken; an open beyond that fails without disturbing any existing user. As soon as a holder closes or dies its place can be taken by a new open, repeatedly and in any order; writers that never block (drop mode or non-blocking) do not use up places.",
 ["histories","schedules","crash_points"],"all histories of opens, closes and deaths at and around the limit",
 "No test opens more than a few handles.",
 [BW,SHR],[("slot reservation","bw.c bw_reserve"),("release","bw.c bw_close"),("prune","bw.c prune_handle"),("slot only when it may block","shr.c open_blockwake")],["shr_open","shr_read/shr_write of all holders"])
prop("C15","A failed operation has no effect",
 "When a library call reports an error because a system call or memory allocation failed, the ring is exactly as if the call had not been made (only a failed sync to disk may report an error after a complete effect), the ring lock is not held, and the same call succeeds once the failure has gone away. A transient failure while notifying peers never makes a live peer miss later wakeups.",
 ["fault_sequences","schedules","histories"],"all failing system calls and allocations, singly and repeatedly, at every call site reached by any operation, interleaved with other processes",
 "The tests inject no failure; almost every error branch is unexecuted by them.",
 [SHR,BW,UX],[("error exits","shr.c goto done paths"),("non-fatal notification","bw.c bw_wake, wake_one, open_socket"),("indeterminate means keep","ux.c has_pid_socket")],["return values and ring content seen by later operations"])
prop("C16","Handles release everything they acquired",
 "After a handle is closed, and after an open or any other call that failed at any point, the process holds no descriptor, mapping, memory, lock or waiting slot it did not hold before, so a process can open, use, fail and close indefinitely. Descriptors returned to the caller are closed by the library exactly once and the library never closes one it does not own.",
 ["fault_sequences","histories"],"all histories of opens, uses and closes with failures injected at any point",
 "Tests end after one open/close and check no resource count.",
 [SHR,BW,UX],[("close","shr.c shr_close, bw.c bw_close"),("error cleanup","shr.c shr_open, bw.c bw_open, ux.c get_socket_inodes")],["the process's descriptor table, mappings, heap; the ring's wait table through later opens"])
prop("C17","A synced ring survives power loss",
 "On a ring created with the sync flag, once a write, read, flush, application-data change or statistics reset has returned successfully, a power loss at any later moment at which no operation is in progress does not undo any part of it (as long as syncing to disk itself succeeds): after reboot the ring opens and continues from exactly that state.",
 ["crash_points","histories","fault_sequences"],"all power-loss instants between operations and all subsets of unsynced pages or sectors that happened to reach the disk",
 "No test uses the sync flag or loses power.",
 [SHR],[("msync of the whole mapping under lock","shr.c shr_sync and its callers")],["ring content after simulated reboot"])
prop("C18","Waits can be interrupted without losing data",
 "If a caller-supplied descriptor, registered on a handle that may block, becomes readable while a read or write is blocked (or already is when it blocks) the call returns -3, and if a signal interrupts the wait it returns -1; either way the call had no effect on ring or write buffer, the lock is free, and calling again behaves normally. While data or space is available the call does not wait and completes normally. A registration that cannot be made, or a request that does not exist, is refused.",
 ["schedules","histories","fault_sequences"],"all instants at which the descriptor or signal fires relative to the wait and to other processes' operations",
 "Two tests use a descriptor that is made ready at one fixed time.",
 [SHR,BW],[("extra descriptor in epoll set","bw.c bw_ctl, bw_wait_ul"),("propagation","shr.c shr_readv, shr_writev, shr_flush, shr_ctl")],["shr_read","shr_write","shr_flush","shr_ctl"])
prop("C19","The TCP publisher streams every message, whole, in order",
 "While a client is connected the publisher sends it the ring's messages (up to the tool's 1 MiB buffer) as they become available, each exactly once, in order and whole (each preceded by its 4-byte length unless prefixes are off), however the connection splits or delays the bytes and whenever the publisher is suspended and resumed. Messages wait in the ring while no client is connected; a client that disconnects, resets or stalls at any point costs at most what was already on its way to it, the publisher keeps running, and the next client's stream begins at a message boundary. A second simultaneous client is turned away without disturbing the first.",
 ["schedules","fault_sequences","histories"],"all interleavings of ring writes, client connects, disconnects and resets, and all splittings of the byte stream",
 "No test runs the tool at all.",
 [TOOL],[("frame writing","shr-tool.c handle_io"),("client handling","shr-tool.c accept_client, handle_client, close_client")],["bytes received by TCP clients; ring content"])
prop("C20","The TCP subscriber stores exactly the frames it is sent",
 "The subscriber writes to its ring exactly the complete frames of the byte stream it receives, in order, each once and intact, no matter how the stream is cut into reads or how frames are bunched together, provided each frame is non-empty, at most 1 MiB, and by itself fits the ring; it waits while the ring is full, and being suspended and resumed changes nothing. A partial frame at the end of the stream is not stored.",
 ["schedules","inputs","fault_sequences"],"all segmentations of the stream, frame-size sequences, ring sizes and consumer speeds",
 "No test runs the tool; segmentation is decided by the network.",
 [TOOL],[("frame reassembly","shr-tool.c decode_frames, do_subscriber")],["content of the subscriber's ring"])
prop("C21","Tee copies every message to both outputs",
 "The tee command moves each message of its input ring (messages that fit both outputs and the tool's 1 MiB buffer), exactly once, in order and whole, to both output rings, under any pacing of the input's writers and the outputs' readers and of itself, suspension included: when an output is full it waits and loses nothing, and it takes no message from the input that it does not deliver to both.",
 ["schedules","histories"],"all interleavings of producers, the tee and the two consumers, and all ring sizes that can hold each message",
 "No test runs the tool.",
 [TOOL],[("copy loop","shr-tool.c handle_io")],["content of both output rings"])
prop("C22","Command-line reads and writes move exact messages",
 "The read command writes exactly the bytes of the messages (up to the tool's 1 MiB buffer) it takes from the ring, in order and nothing else, even when its output accepts only part of a write; it takes no more than the requested number of messages, and if output fails it stops rather than emit anything that is not message data. The readhex command prints each message it takes, in order, as lines of offset, sixteen hexadecimal bytes and their characters. Without the wait option it ends when the ring is empty, with it it waits for more. The write command stores each non-empty input line as one message, in order, waiting while the ring is full. Suspending and resuming either changes nothing.",
 ["schedules","fault_sequences","inputs"],"all short writes and output errors, ring contents, message limits and interleavings with other ring users",
 "No test runs the tool.",
 [TOOL],[("output loop","shr-tool.c handle_io"),("event loop","shr-tool.c main")],["standard output; ring content"])
prop("C23","A wake reaches every waiter on a shared handle",
 "With the block/wake library used directly, a wake issued under the lock makes the descriptor of every process that currently has the handle open for waiting readable, whoever opened, closed or died before in whatever order, and a waiter blocked in the wait call returns, while a waiter that nothing woke stays blocked. Opening for waiting succeeds whenever fewer than 64 live waiters have it open. A waiter can clear or set the readability of its own descriptor at will and affects only its own. An open for neither or both kinds, a request that does not exist and a descriptor that is not open are refused.",
 ["schedules","histories","crash_points"],"all histories of waiters and wakers opening, closing, dying and waking on one handle",
 "The library has a manual tool only; the tests reach it through the ring with one or two waiters.",
 [BW,UX],[("per-slot connected sockets","bw.c bw_sync, open_socket"),("broadcast","bw.c bw_wake"),("self-wake and drain","bw.c bw_force")],["bw_wait_ul","poll on the waiter's descriptor"],
 [("seqno, wr[]","waiter table and change counter","bw_handle")])
prop("C24","A created ring has all its storage",
 "Creation succeeds only if the whole ring has its storage reserved: afterwards no read or write fails or kills its process because the file system is full, and if there is no room creation fails and leaves no file. On a ring created with the memory-lock flag a successful open has the entire ring locked in memory, and an open that cannot lock it fails.",
 ["fault_sequences","configurations"],"all amounts of free space, failing calls during creation and opening, and all ring sizes",
 "Tests never run on a full file system nor use the memory-lock flag.",
 [SHR],[("size at creation","shr.c shr_init"),("mlock at open","shr.c shr_open")],["shr_init","shr_open","stores to the mapped ring"])
prop("C25","One-shot tool commands do exactly what they report",
 "The tool's create, status, writehex and writefile commands exit with status zero exactly when they did all they were asked to. create makes each named ring with exactly the size (and its unit), message limit, mode flags and app-data given, replacing an existing ring by an empty one, or leaving it entirely untouched when told to keep it; with unusable arguments it touches nothing. writehex stores exactly the bytes its digits (of either case) denote and writefile exactly the content of the file, each as one message, waiting while the ring is full; malformed digits, an empty or missing file, or a message larger than the ring store nothing and fail. status prints the counters as they were at one instant while it ran, with the ring's capacity, attributes and app-data size, and its copy of the app-data is complete or the command fails. All this while other processes use the ring, when the command is suspended and resumed, and when system calls fail, transfer less than asked, or the command is killed (its message is then in the ring whole or not at all).",
 ["schedules","fault_sequences","inputs"],"all arguments, ring contents, interleavings with other ring users, short writes, failing calls and kill points",
 "No test runs the tool.",
 [TOOL],[("commands","shr-tool.c main"),("hex conversion","shr-tool.c unhex"),("file mapping","shr-tool.c map"),("statistics","shr.c shr_stat"),("creation","shr.c shr_init")],["exit status; standard output; ring content; copied file"])
prop("C26","Mount never stacks RAM disks; unknown commands run only their own program",
 "shr-tool mount puts a RAM disk only on an existing directory that is not already the mount point of a RAM disk, whatever spelling names it (relative, through symbolic links, '.', 'sub/..', trailing slashes), and refuses (changing nothing) when the directory cannot be examined. It exits with status zero exactly when one RAM disk of the requested type and, for tmpfs, size (with its unit) is mounted there, every subdirectory asked for with -d has been made inside it and nowhere else, and the requested number of huge pages has been set. -q tells whether the directory is a RAM disk, of which type, and for tmpfs its size and utilization, and changes nothing. -u exits with status zero exactly when it has unmounted what was mounted there, and leaves mounted what is in use. A command the tool does not know runs the program of that name next to the tool, with the remaining arguments, and no other program; otherwise, and for arguments that make no sense, it fails without any effect. All this while other users mount, unmount, fill and change directories, when system calls fail and when the command is killed. (Not for the file system root itself, bind mounts, or changes others make to the same place while the command runs.)",
 ["fault_sequences","schedules","inputs","configurations"],"all states and histories of the mount namespace, directory spellings, arguments, failing calls, kill points and interleavings with other invocations",
 "No test runs the tool, and none can mount.",
 [TOOL],[("mount point test","shr-tool.c suitable_mountpoint"),("commands","shr-tool.c main"),("query","shr-tool.c query_ramdisk"),("delegation","shr-tool.c try_delegate")],["mount, umount, mkdir, execve system calls; exit status; standard output"])
prop("C27","bw-tool: a wait ends only by a wake, a signal or its timer, and says which",
 "bw-tool wake exits with status zero only when it has woken every process that waits on the file by the time it wakes, those that registered after it opened the table included, and fails only for a missing table or a failing system call. bw-tool wait, with or without the library's own wait call (-w), exits with status zero only after it registered and another process woke it, and always ends so once woken. It ends with another status when one of HUP, TERM, INT, QUIT arrives or its timer (-a) expires, never earlier and for no other signal, or when the table is missing or full or a system call fails. Before it ends it reports its descriptor ready or clear: as forced by -f or -c, otherwise ready exactly if it was woken more than once. bw-tool make makes a file usable as a table and leaves those who wait on an existing one registered. Commands that end, fail or are killed never keep later ones from waiting and waking, whatever the delays (-d), reused names and pids.",
 ["schedules","fault_sequences","crash_points","histories"],"all interleavings of make, wait and wake commands with their options, signals, timers, suspensions, kills, failing calls and other users of the table",
 "The tests do not run the tool.",
 [BWT,BW],[("commands","bw-tool.c main"),("waiting","bw-tool.c await_readiness; bw.c bw_wait_ul"),("table file","bw-tool.c map"),("broadcast","bw.c bw_wake")],["exit status; standard error"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
