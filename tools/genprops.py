import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech],"hook_needed":None}
    if obs:a["observe_at"]=obs
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="yamux/src/connection.rs";S="yamux/src/connection/stream.rs";F="yamux/src/connection/stream/flow_control.rs"
IO="yamux/src/frame/io.rs";H="yamux/src/frame/header.rs";FR="yamux/src/frame.rs";CH="yamux/src/chunks.rs"
CL="yamux/src/connection/closing.rs";CU="yamux/src/connection/cleanup.rs";R="yamux/src/connection/rtt.rs";L="yamux/src/lib.rs";T="yamux/src/tagged_stream.rs"
p("C01","Stream bytes arrive intact, in order and on the right stream",
 "For every stream and direction, the bytes a reader obtains are exactly a prefix of the bytes the writer's successful writes accepted, in order, with no loss, duplication, corruption or mixing with another stream, whether read as byte slices of any size or as packets. If the writer closes its half and neither side resets, drops or fails, the reader obtains every accepted byte before end-of-stream.",
 ["schedules","inputs","histories","configurations"],
 "Every interleaving of several streams' reads and writes in both directions, every split of the transport into short reads/writes, every write size, read size and split-size setting.",
 "The existing tests send random messages over an ideal loopback under one schedule; they do not enumerate short reads/writes, partial frame writes, chunk boundaries against read sizes, or the interleaving of several streams.",
 [S,C,IO,CH,FR],[("AsyncWrite::poll_write / AsyncRead::poll_read / Stream::poll_next",S),("frame reader and writer state machines",IO),("chunk buffer cursor arithmetic",CH)],
 ["poll_read / poll_next results compared to the bytes accepted by the peer's poll_write"])
p("C02","A sender never exceeds the credit the remote granted",
 "On every stream, at every moment, the total payload bytes an endpoint has put on the wire never exceed the initial 256 KiB plus all credit received in window updates for that stream (including credit carried by the frame that opened it). A write with no credit left waits, accepts at most the remaining credit otherwise, and sending resumes when credit arrives.",
 ["inputs","histories","schedules"],
 "All sequences of writes and incoming window updates (0, 1, half, full, maximal credit), on streams opened by either side, with any transport back-pressure.",
 "Tests only transfer between two well-behaved copies of this crate and never look at the wire, so an overshoot that the peer happens to tolerate (or a stall only at exact exhaustion) is not seen.",
 [S,F,C],[("send window accounting",F),("on_window_update",C),("poll_write credit check",S)],["emitted Data frames versus consumed WindowUpdate frames"])
p("C03","A receiver enforces its window against any sender",
 "If the remote sends more payload on a stream than the credit it was granted, the excess frame is never delivered to the reader and the endpoint answers with an error GoAway; payload within the granted credit is always accepted. Consequently, unread bytes buffered for a stream never exceed its current receive window, whatever the remote does.",
 ["inputs","histories","fault_sequences"],
 "All sequences of incoming data frames with boundary sizes (0, 1, window-1, window, window+1), reads of any size in between, on new and existing streams.",
 "No existing test plays a misbehaving sender.",
 [C,S,F,CH],[("consume_receive_window in on_data",C),("receive window accounting",F)],["GoAway frame emitted; bytes readable afterwards"])
p("C04","Credit is granted only for consumed data, and promptly",
 "At every moment the credit a receiver has granted on a stream, minus the bytes the application has read from it, is at most the stream's current window (256 KiB unless auto-tuned up). Once the application has consumed at least half of the window and keeps reading, an update restoring the full window is sent, so a reader that has drained everything it received never leaves the sender with less than half of the window.",
 ["inputs","histories","schedules"],
 "All sequences of incoming data and reads of any size, via both read interfaces, with transport back-pressure delaying the updates.",
 "The unit test of the window computation checks internal invariants on random inputs for one call; no test relates credit on the wire to bytes actually read over a history.",
 [S,F,CH],[("send_window_update",S),("next_window_update",F),("Chunks::len",CH)],["emitted WindowUpdate frames versus bytes returned by reads"])
p("C05","Auto-tuned receive windows respect the configured limits",
 "The sum of the receive windows of all live streams of a connection never exceeds the configured connection limit and every stream is always allowed at least 256 KiB. A window grows only when a round-trip time has been measured and half of the window was consumed within two round-trips, at most doubling per update, and the budget used by a stream becomes available again when the stream goes away.",
 ["histories","inputs","configurations"],
 "All histories of data, reads, pongs, clock advances, stream opens and drops over 1-3 streams, for limits with no slack, little slack, ample slack and no limit.",
 "The quickcheck unit test samples one isolated window computation with an arbitrary state; interaction of several streams, drops, reopening and RTT changes is not covered.",
 [F,R,C,L],[("next_window_update auto-tuning and accumulated window counter",F),("FlowController::drop",F),("RTT measurement",R)],["credit exposure per stream reconstructed from the wire and reads"])
p("C06","Two driven endpoints never deadlock or stall",
 "If both endpoints keep being polled, the transport keeps moving bytes, and applications keep reading what they receive, then every started open, write, close, ping and read eventually completes, for any transport capacity (down to one byte) and any scheduling. In particular simultaneous writing in both directions, pings crossing, and flow-control exhaustion never leave both sides waiting for each other.",
 ["schedules","configurations","histories"],
 "All schedules up to a deviation bound of two endpoints running small symmetric and asymmetric workloads over transports with capacities from 1 byte to unbounded, with flush-buffering and short reads/writes.",
 "One test (write_deadlock) exercises one workload with one buffer size under one schedule.",
 [C,S,IO,F],[("Active::poll loop",C),("pending read/write frame slots",C),("window updates",F)],["all scripted tasks complete"])
p("C07","No lost wake-ups",
 "Whenever an operation returned pending (reading, writing, closing or flushing a stream, opening a stream, driving or closing the connection), the most recent waker given to that operation is woken as soon as the operation can make progress or has failed. This holds when reader, writer, opener and connection driver are different tasks, and regardless of the event that enables progress (data, credit, acknowledgement, close, reset, drop, connection end, transport readiness, new local streams).",
 ["schedules","histories"],
 "All orders of operations and events up to a bound, with each operation in its own task and only the newest waker counted.",
 "Tests run under executors which re-poll combined tasks for unrelated reasons, hiding missing wake-ups, and never separate reader, writer and opener into distinct tasks systematically.",
 [C,S,T],[("reader/writer wakers in the shared stream state",S),("no_streams_waker, new_outbound_stream_waker",C),("bounded command channel",S)],["waker flags at quiescence; progress made by a forced extra poll"])
p("C08","Half-close works in both directions independently",
 "Closing a stream's write half delivers all previously accepted bytes and then exactly an end-of-stream to the remote, after which local writes fail while reading continues until the remote closes too. Receiving the remote's end-of-stream ends local reading only after all earlier bytes were read and leaves writing usable; once both halves are closed the stream reports itself closed, and closing works even if the stream was never written to.",
 ["histories","schedules"],
 "All orders of write, close, read on both sides, on streams opened by either side, with data, credit exhaustion and back-pressure around the close.",
 "prop_send_recv_half_closed covers a single order of events.",
 [S,C,CL],[("poll_close and CloseStream command",S),("State transitions",S),("FIN handling in on_data / on_window_update",C)],["FIN frames on the wire, read/write results, is_closed/is_write_closed"])
p("C09","Dropping or resetting a stream affects only that stream",
 "Dropping a stream that is not closed in both directions informs the remote, so that the remote's reads and writes on it end; a reset received from the remote ends that stream's pending and future reads (after buffered bytes) and writes. Other streams, their data and the connection are unaffected, and late frames for the vanished stream are ignored without ending the connection or reaching any other stream.",
 ["histories","schedules","inputs"],
 "All orders of dropping/resetting one stream relative to frames in flight in both directions, with other streams active, including frames arriving after the drop.",
 "close_through_drop_of_stream_propagates_to_remote checks one drop on one stream with no concurrent traffic.",
 [C,S],[("on_drop_stream",C),("RST handling",C),("unknown-stream handling",C)],["RST/FIN frames, behaviour of remaining streams"])
p("C10","Graceful connection close flushes, signs off and ends",
 "Closing a connection first transmits every frame of data accepted before the close (complete and in per-stream order), then exactly one normal-termination GoAway, then closes the transport, and sends nothing afterwards. Afterwards local streams refuse writes and their readers finish (pending readers are woken), closing again succeeds, and no further streams can be opened or accepted; the remote sees an orderly end rather than an error.",
 ["schedules","histories","fault_sequences"],
 "Close requested at every point of small histories, with queued frames on several streams, partially written frames, pending pongs, blocked transports and parked readers/writers.",
 "One unit test closes with three queued frames over an ideal sink; parked readers, partial frames and back-pressure are not explored.",
 [CL,C,S],[("Active::close / Closing future",CL),("Connection::poll_close",C)],["frames on the wire during close; stream results afterwards"])
p("C11","A failing connection is reported once and releases everything",
 "When the transport ends or fails (read or write error, end-of-file at or inside a frame, undecodable frame) or the remote says GoAway, driving the connection reports it: clean ends as end-of-connections, failures as an error, exactly once, and all later calls return promptly. Every stream operation that was waiting is woken and ends, buffered bytes stay readable by default, later writes fail, and the transport is not used again.",
 ["fault_sequences","histories","schedules"],
 "A fault of every kind injected at every transport call (and every byte boundary) of small histories, with parked readers, writers, openers and closers.",
 "No test injects transport errors.",
 [C,CU,IO,S],[("error paths of Active::poll",C),("Cleanup future",CU),("poll_ready/poll_next error handling",IO)],["driver results, stream results, transport calls after the failure"])
p("C12","Hostile input never panics, spins or over-allocates",
 "Whatever bytes the remote sends, in whatever state, the endpoint neither panics nor loops without consuming input, and never allocates memory for a frame body beyond 1 MiB; a frame with unknown version or type, or a data frame announcing a body over 1 MiB, ends the connection with a decode error before anything of it is delivered. All other frames, with any combination of flags, ids and lengths, are either processed, ignored or answered with an error GoAway.",
 ["inputs","fault_sequences","histories"],
 "All headers over boundary values of every field, alone and in pairs, in each of a set of connection states, truncated at each byte, followed by further traffic.",
 "Existing decoder tests only round-trip valid frames.",
 [IO,H,C,F],[("header decode",H),("MAX_FRAME_BODY_LEN",IO),("on_frame dispatch",C)],["driver results; allocation sizes; panics"])
p("C13","Illegal stream opens and updates are refused without side effects",
 "An incoming frame opening a stream with a wrong-parity or zero id, with an id already in use, with an initial payload above 256 KiB, or with credit overflowing the 32-bit window, is refused with an error GoAway, as are window updates overflowing the send window; none creates a stream or changes an existing one. Legal opens are always accepted and each is handed to the application exactly once, including reuse of an id whose earlier stream is fully gone.",
 ["inputs","histories"],
 "All sequences up to a bound of open/data/update frames with boundary ids, lengths and credits, both endpoint roles, intermixed with local opens and drops.",
 "No existing test sends a hand-crafted illegal open.",
 [C,F],[("is_valid_remote_id and SYN checks in on_data/on_window_update",C),("increase_send_window_by",F)],["GoAway frames; streams returned by poll_next_inbound"])
p("C14","Everything emitted is valid yamux wire format",
 "The emitted byte stream is always a sequence of whole, well-formed yamux frames: version 0, a known type, flags legal for the type, session frames on id 0 and stream frames on a non-zero id, data length equal to the payload that follows, no payload on other types. Data payloads never exceed the configured split size, and frames are never interleaved or torn, whatever the transport's write sizes or pauses.",
 ["inputs","schedules","configurations"],
 "All histories of the other checks: every short write and pause position, split sizes from 1 byte upwards, both roles.",
 "The round-trip tests only check that the crate's decoder accepts what its encoder produced.",
 [IO,H,FR,S],[("header::encode",H),("Io writer states",IO),("split_send_size",S)],["independent parser over all emitted bytes"])
p("C15","Stream identifiers are unique and of the right parity",
 "Locally opened streams get non-zero ids, odd for the client and even for the server, strictly increasing and never reused within a connection, whatever happened to earlier streams. The id reported by each stream handle is the id used on the wire, and an accepted stream reports the id the remote chose.",
 ["histories","configurations"],
 "All sequences of opens, failed opens, drops, resets and closes in both roles up to a bound, including hundreds of opens.",
 "Tests never inspect ids.",
 [C,H,S],[("next_stream_id",C),("StreamId parity",H)],["Stream::id and wire ids"])
p("C16","Streams are opened and acknowledged exactly once",
 "The first frame of a locally opened stream that is used carries the open (SYN) flag and no other frame of it does; an accepted stream acknowledges (ACK) exactly once, on the first frame the application's use of it produces, and never a stream it opened itself. A handle reports it is awaiting acknowledgement exactly until the ACK was received (opened streams) or queued (accepted streams) or the stream ends.",
 ["histories","schedules"],
 "All orders of write, read-driven window update, close and drop as the first use of a stream, for both roles, with remote ACKs arriving on data or window-update frames.",
 "ack_timing checks one order (first write).",
 [S,C],[("add_flag",S),("CloseStream{ack}",S),("ACK handling in on_frame",C)],["SYN/ACK flags on the wire; is_pending_ack"])
p("C17","At most 256 unacknowledged outbound streams",
 "An endpoint never has more than 256 locally opened, still open streams that the remote has not acknowledged: the next open waits. A waiting open proceeds, and is woken, as soon as the number falls below the limit, whether by acknowledgement, reset, closing or dropping of such a stream, and it fails if the connection ends.",
 ["histories","schedules"],
 "All event orders up to a bound around the limit (255/256/257 outstanding), with opens in their own task, both roles.",
 "honours_ack_backlog_of_256 only checks that the limit exists and that an acknowledgement from a well-behaved peer releases it.",
 [C],[("ack_backlog, MAX_ACK_BACKLOG, new_outbound_stream_waker",C)],["poll_new_outbound results and waker"])
p("C18","The stream-count limit holds in both directions",
 "A connection never holds more live streams (opened plus accepted) than configured: a remote open beyond the limit is refused with an error GoAway and not handed out, a local open beyond it fails with the too-many-streams error. Opens below the limit succeed, and a stream's slot is available again once its handle has been dropped.",
 ["histories","configurations","inputs"],
 "All orders of local opens, remote opens, closes, resets and drops for limits 0-3, both roles.",
 "prop_max_streams only opens local streams up to the limit.",
 [C,L],[("max_num_streams checks",C),("on_drop_stream removal",C)],["poll_new_outbound / poll_next_inbound / GoAway"])
p("C19","Pings are answered and own pings are paced",
 "Every incoming ping is answered by exactly one pong carrying the same opaque value, in order, even while data is flowing or writes are blocked for a while. An endpoint has at most one own ping outstanding and sends the next no sooner than 10 seconds after the previous pong, with a fresh value; a pong that matches no outstanding ping is answered with an error GoAway.",
 ["histories","inputs","schedules"],
 "All sequences of pings, matching/mismatching/duplicate pongs, clock advances around the interval, data traffic and transport blocking.",
 "No test covers pings.",
 [R,C],[("next_ping/handle_pong",R),("on_ping and pending frame slot",C)],["Ping frames on the wire"])
p("C20","Local and remote demand cannot grow queues without bound",
 "While the transport accepts nothing, only a small constant number of frames per stream (at most 16) is accepted from the application before its writes and closes wait, and only a small constant number (at most 4) of remote pings is taken in without having been answered before reading stops. Memory held for a connection is therefore bounded by its configured windows and limits plus constants.",
 ["histories","inputs","fault_sequences"],
 "All sequences of writes of any size, closes, pings and unblock events on a blocked or slow transport up to a bound that exceeds the limits.",
 "Tests use transports that always make progress.",
 [C,S],[("bounded per-stream command channel",C),("pending read frame gate",C)],["accepted-but-unsent frames; consumed-but-unanswered pings"])
p("C21","Nothing is left unflushed when the connection goes idle",
 "Whenever driving the connection returns pending although the transport could make progress, every frame accepted so far has been handed to the transport and flushed. A buffering transport therefore never holds back the last frames of a burst, including pongs, window updates, closes, resets and GoAway.",
 ["schedules","histories"],
 "All histories up to a bound over a transport that only releases bytes on flush, with flushes that complete at once or later.",
 "All tests use transports that deliver written bytes without flush.",
 [C,IO],[("poll_flush in Active::poll",C),("Io::poll_flush",IO)],["bytes written but not flushed at quiescence"])
p("C22","Streams share the connection fairly and independently",
 "A stream with queued frames is never starved: while it has a frame waiting, no other stream gets more than a small constant number of frames sent ahead of it. A stream whose reader does not consume, or whose remote grants no credit, never stops other streams, inbound processing never stops outbound sending, and blocked sending does not stop delivery of inbound data.",
 ["schedules","histories"],
 "All interleavings up to a bound of 2-3 streams with full queues, slow readers and blocked transports.",
 "Throughput tests finish as long as everything eventually completes; they do not observe order or stalls of one stream.",
 [C,T],[("SelectAll round-robin over stream receivers",C),("poll loop order",C)],["order of frames on the wire; progress of other streams"])
p("C23","Handles may be used from different threads concurrently",
 "Streams and their connection may be driven from different threads at the same time: every interleaving of their internal synchronisation steps yields results that some sequential order could, with no deadlock, panic, lost wake-up, lost or duplicated data, or credit miscount. This includes streams being dropped or closed, and the connection being closed, dropped or failing, while other threads are mid-operation.",
 ["schedules"],
 "All interleavings, up to a preemption bound, of a driver thread and 1-2 stream threads at every lock and channel operation.",
 "Tests run on a multi-threaded runtime but observe only the few interleavings that happen to occur.",
 [C,S,F],[("Arc<Mutex<Shared>> stream state",S),("mpsc command channel",S),("accumulated window mutex",F)],["results of all operations under a controlled thread scheduler"])
p("C24","Reading after connection end follows the configuration",
 "After the connection ended (closed locally, by the remote, by error, or dropped) a stream still yields all bytes received before the end and then end-of-stream if reading after close is enabled (the default); if it is disabled, reads report end-of-stream at once without yielding buffered bytes. In neither case does a read fail, hang, or yield bytes that were not received.",
 ["configurations","histories"],
 "Both settings x every way the connection can end x every amount of buffered/partially read data x both read interfaces.",
 "No test uses the option after a close.",
 [S,L,C],[("read_after_close check in poll_read/poll_next",S)],["read results after the connection end"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
