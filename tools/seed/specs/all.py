import os
S={}
def spec(i, prop, needs, breaks, edits, demo):
    open(f'{i}.py','w').write(f"ID={i!r}\nPROPERTY={prop!r}\nNEEDS={needs!r}\nBREAKS={breaks!r}\nEDITS={edits!r}\nDEMO={demo!r}\n")
H='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n'
C='yamux/src/connection.rs'; ST='yamux/src/connection/stream.rs'; FC='yamux/src/connection/stream/flow_control.rs'; IO='yamux/src/frame/io.rs'; CH='yamux/src/chunks.rs'; RT='yamux/src/connection/rtt.rs'

spec('fin-credit','C02','a window update that carries both credit and FIN',
 'Credit granted by the frame with which the remote half-closes is ignored, the writer stalls for ever',
 [(C,'''            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {
                log::error!(
                    "{}/{}: could not increase the send window, {err}",
                    self.id,
                    stream_id
                );
                return Action::Terminate(Frame::protocol_error());
            }
            if is_finish {
''','''            if !is_finish {
                if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {
                    log::error!(
                        "{}/{}: could not increase the send window, {err}",
                        self.id,
                        stream_id
                    );
                    return Action::Terminate(Frame::protocol_error());
                }
            } else {
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    let mut n = 0;
    while let Poll::Ready(Ok(k)) = write(&mut s, &[1; 16384]) {
        n += k;
        drive(&mut c);
    }
    check(n == 262144, "initial credit");
    net.send(WINDOW, ACK | FIN, 1, 100, &[]);
    drive(&mut c);
    check(matches!(write(&mut s, &[1; 200]), Poll::Ready(Ok(100))), "credit arriving with FIN is usable");
}
''')

spec('budget-race','C05','two streams of one connection growing their windows on two threads at the same time',
 'The shared budget is read and charged in two separate critical sections, so concurrent growth exceeds the connection limit',
 [(FC,'''            // Account for the additional credit on the accumulated connection counter.
            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;
            drop(accumulated_max_stream_windows);
''','''            drop(accumulated_max_stream_windows);
'''),(FC,'''                new_max as f64 / crate::MIB as f64
            );

            self.max_receive_window = new_max;
''','''                new_max as f64 / crate::MIB as f64
            );

            // Account for the additional credit on the accumulated connection counter.
            *self.accumulated_max_stream_windows.lock() +=
                (new_max - self.max_receive_window) as usize;
            self.max_receive_window = new_max;
'''),(FC,'let mut accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally','let accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally')],H+'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static IN: AtomicUsize = AtomicUsize::new(0);
// the first thread to compute a new maximum waits for the other one
fn hook(m: &str) {
    if m.contains("new window_max") {
        IN.fetch_add(1, SeqCst);
        let t = std::time::Instant::now();
        while IN.load(SeqCst) < 2 && t.elapsed().as_secs() < 2 {
            std::thread::yield_now();
        }
    }
}
static HOOK: Hook = Hook(hook);
fn main() {
    let net = Net::new();
    let mut cfg = Config::default();
    cfg.set_max_num_streams(2).set_max_connection_receive_window(Some(2 * 262144 + 262144));
    let mut c = client(&net, cfg);
    let mut a = open(&mut c);
    let mut b = open(&mut c);
    let _ = (write(&mut a, b"x"), write(&mut b, b"x"));
    drive(&mut c);
    let ping = net.frames().into_iter().find(|f| f.ty == PING).unwrap();
    std::thread::sleep(std::time::Duration::from_secs(3));
    net.send(PING, ACK, 0, ping.len, &[]);
    for id in [1, 3] {
        net.data(ACK, id, &vec![7; 200_000]);
    }
    drive(&mut c);
    let _ = log::set_logger(&HOOK);
    log::set_max_level(log::LevelFilter::Debug);
    let t: Vec<_> = [a, b].into_iter().map(|mut s| std::thread::spawn(move || {
        let _ = read(&mut s, 200_000);
        let _ = read(&mut s, 1);
        s
    })).collect();
    let keep: Vec<_> = t.into_iter().map(|t| t.join()).collect();
    log::set_max_level(log::LevelFilter::Off);
    check(keep.iter().all(|k| k.is_ok()), "no panic");
    drive(&mut c);
    let granted: u32 = net.frames().iter().filter(|f| f.ty == WINDOW).map(|f| f.len).sum();
    println!("granted {granted}");
    check(granted <= 400_000 + 262144, "both windows stay within the connection limit");
}
''')

spec('stale-writer-waker','C07','a writer polled again with another waker while it waits for credit',
 'Only the first waker of a writer waiting for credit is remembered, so a task that took over the write half is never woken',
 [(ST,'''                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                shared.writer = Some(cx.waker().clone());
''','''                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                if shared.writer.is_none() {
                    shared.writer = Some(cx.waker().clone());
                }
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {
        drive(&mut c);
    }
    let (a, b) = (Count::new(), Count::new());
    for w in [&a, &b] {
        check(Pin::new(&mut s).poll_write(&mut Context::from_waker(&w.waker()), &[1]).is_pending(), "no credit");
    }
    net.send(WINDOW, ACK, 1, 10, &[]);
    drive(&mut c);
    check(b.get() > 0, "latest waker woken");
}
''')

spec('drop-recvclosed','C09','dropping a stream after the remote closed its half',
 'Dropping a stream that already received FIN sends nothing, the remote never learns that its reads are over',
 [(C,'''                State::RecvClosed => {
                    let mut header = Header::data(stream_id, 0);
                    header.fin();
                    Some(Frame::new(header))
                }
''','''                State::RecvClosed => None,
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    let _ = write(&mut s, b"x");
    drive(&mut c);
    net.data(ACK | FIN, 1, b"bye");
    drive(&mut c);
    drop(s);
    drive(&mut c);
    check(net.frames().iter().any(|f| f.id == 1 && f.flags & (FIN | RST) != 0), "the remote is told");
}
''')

spec('close-blocked-frame','C10','closing the connection while a frame taken from a stream waits for a blocked transport',
 'A frame already taken out of its stream but not yet handed to the transport is lost by a graceful close',
 [(C,'''            .into_iter()
            .chain(self.pending_write_frame)
            .collect::<VecDeque<Frame<()>>>();
''','''            .into_iter()
            .collect::<VecDeque<Frame<()>>>();
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    let _ = write(&mut s, b"a");
    drive(&mut c);
    net.room(0);
    for b in [b"b", b"c", b"d"] {
        check(matches!(write(&mut s, b), Poll::Ready(Ok(1))), "accepted");
        drive(&mut c);
    }
    check(cx(|cx| c.poll_close(cx)).is_pending(), "blocked");
    net.room(usize::MAX);
    check(matches!(cx(|cx| c.poll_close(cx)), Poll::Ready(Ok(()))), "closed");
    let got: Vec<u8> = net.frames().into_iter().filter(|f| f.ty == DATA).flat_map(|f| f.body).collect();
    check(got == b"abcd", "all accepted data is transmitted");
}
''')

spec('eof-in-body','C11','the transport ending between a frame header and its body',
 'An end-of-file directly after the header of a data frame is reported as a clean end of the connection',
 [(IO,'''                    let buf = &mut buffer[*offset..body_len];
                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {
                        0 => {
''','''                    let buf = &mut buffer[*offset..body_len];
                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {
                        0 => {
                            if *offset == 0 {
                                return Poll::Ready(None);
                            }
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, b"hello");
    drive(&mut c);
    net.send(DATA, 0, 1, 5, &[]);
    net.eof();
    check(matches!(drive(&mut c).1, End::Error(_)), "a truncated frame is an error");
}
''')

spec('wu-dup-open','C13','a window update with SYN for an id that is already in use',
 'A second open of a live stream through a window update replaces the stream instead of being refused',
 [(C,'''            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {
                log::error!("{}: invalid stream id {}", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.contains_key(&stream_id) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
''','''            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {
                log::error!("{}: invalid stream id {}", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, b"hello");
    let (a, _) = drive(&mut c);
    net.send(WINDOW, SYN, 1, 0, &[]);
    let (b, _) = drive(&mut c);
    check(a.len() == 1 && b.is_empty(), "no second stream");
    check(net.frames().iter().any(|f| f.ty == GOAWAY && f.len != 0), "refused");
}
''')

spec('wu-limit','C18','remote opens by window update beyond the stream limit',
 'Streams opened by a window update are not counted against max_num_streams',
 [(C,'''            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());
            }

''','''''')],H+'''
fn main() {
    let net = Net::new();
    let mut cfg = Config::default();
    cfg.set_max_num_streams(2);
    let mut c = server(&net, cfg);
    net.send(WINDOW, SYN, 1, 0, &[]);
    net.data(SYN, 3, b"x");
    net.send(WINDOW, SYN, 5, 0, &[]);
    let (s, _) = drive(&mut c);
    check(s.len() == 2, "two streams at most");
}
''')

spec('backlog-server','C17','a server opening streams which the client does not acknowledge',
 'The backlog counts client-initiated streams in both modes: a server may open any number of unacknowledged streams',
 [(C,'''            .filter(|(id, _)| match self.mode {
                Mode::Client => id.is_client(),
                Mode::Server => id.is_server(),
            })
            .filter(|(_, s)| s.lock().is_pending_ack())''','''            .filter(|(id, _)| id.is_client())
            .filter(|(_, s)| s.lock().is_pending_ack())''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    let mut v = vec![];
    for _ in 0..256 {
        v.push(open(&mut c));
    }
    check(cx(|cx| c.poll_new_outbound(cx)).is_pending(), "the 257th open waits");
}
''')

spec('ping-pace','C19','a pong arriving late, followed by traffic less than ten seconds later',
 'The ping interval is counted from the moment the ping was sent instead of the pong',
 [(RT,'''            next: Instant::now() + PING_INTERVAL,
''','''            next: sent_at + PING_INTERVAL,
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    drive(&mut c);
    let p = net.frames()[0].clone();
    check(p.ty == PING, "first ping");
    std::thread::sleep(std::time::Duration::from_millis(10_300));
    net.send(PING, ACK, 0, p.len, &[]);
    drive(&mut c);
    drive(&mut c);
    check(net.frames().iter().filter(|f| f.ty == PING && f.flags & SYN != 0).count() == 1, "no ping right after the pong");
}
''')

spec('rac-packet','C24','reading packets of a stream after the end with reading after close disabled',
 'With read_after_close disabled the packet interface still yields buffered data after the end',
 [(ST,'''    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
        if !self.config.read_after_close && self.sender.is_closed() {
            return Poll::Ready(None);
        }

''','''    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
''')],H+'''
fn main() {
    let net = Net::new();
    let mut cfg = Config::default();
    cfg.set_read_after_close(false);
    let mut c = server(&net, cfg);
    net.data(SYN, 1, b"hello");
    let (mut s, _) = drive(&mut c);
    drop(c);
    let mut s = s.remove(0);
    check(matches!(cx(|cx| s.poll_next_unpin(cx)), Poll::Ready(None)), "nothing is yielded after the end");
}
''')

spec('packet-offset','C01','mixing byte reads and packet reads on one stream',
 'A packet read after a partial byte read yields the bytes already read again',
 [(ST,'''                vec = vec.split_off(off)
''','''                vec.shrink_to_fit()
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, b"hello");
    let (mut s, _) = drive(&mut c);
    let mut s = s.remove(0);
    check(matches!(read(&mut s, 2), Poll::Ready(Ok(v)) if v == b"he"), "two bytes");
    match cx(|cx| s.poll_next_unpin(cx)) {
        Poll::Ready(Some(Ok(p))) => check(p.as_ref() == b"llo", "the rest"),
        x => check(false, &format!("{x:?}")),
    }
}
''')

spec('chunks-len','C04','reading a large chunk in several pieces',
 'Bytes already read from a partly consumed chunk still count as buffered, so credit is withheld from the sender',
 [(CH,'''        self.len - self.seq.front().map(|c| c.offset()).unwrap_or(0)
''','''        self.len
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, &vec![1; 262_144]);
    let (mut s, _) = drive(&mut c);
    let mut s = s.remove(0);
    for _ in 0..3 {
        let _ = read(&mut s, 87_000);
    }
    drive(&mut c);
    let n: u32 = net.frames().iter().filter(|f| f.ty == WINDOW).map(|f| f.len).sum();
    check(n >= 131_072, "credit is returned while reading");
}
''')

spec('credit-lost-wakeup','C23','credit arriving from another thread between the check for credit and the registration of the waker',
 'A writer that found no credit registers its waker after releasing the lock; credit arriving in between never wakes it',
 [(ST,'''            if shared.send_window() == 0 {
                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                shared.writer = Some(cx.waker().clone());
                return Poll::Pending;
            }
''','''            if shared.send_window() == 0 {
                drop(shared);
                log::trace!("{}/{}: no more credit left", self.conn, self.id);
                self.shared().writer = Some(cx.waker().clone());
                return Poll::Pending;
            }
''')],H+'''
use std::sync::Mutex;
static CONN: Mutex<Option<(Conn, Net)>> = Mutex::new(None);
fn hook(m: &str) {
    if m.contains("no more credit left") {
        if let Some((mut c, net)) = CONN.lock().unwrap().take() {
            // another thread gives credit right now
            let t = std::thread::spawn(move || {
                net.send(WINDOW, ACK, 1, 10, &[]);
                drive(&mut c);
                Box::leak(Box::new(c));
            });
            let s = std::time::Instant::now();
            while !t.is_finished() && s.elapsed().as_millis() < 1000 {
                std::thread::yield_now();
            }
        }
    }
}
static HOOK: Hook = Hook(hook);
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {
        drive(&mut c);
    }
    *CONN.lock().unwrap() = Some((c, net));
    let _ = log::set_logger(&HOOK);
    log::set_max_level(log::LevelFilter::Trace);
    let w = Count::new();
    check(Pin::new(&mut s).poll_write(&mut Context::from_waker(&w.waker()), &[1]).is_pending(), "no credit");
    log::set_max_level(log::LevelFilter::Off);
    std::thread::sleep(std::time::Duration::from_millis(1500));
    check(w.get() > 0, "woken by the credit");
}
''')

spec('flush-once','C21','a buffering transport whose flush is pending when the last frame of a burst was written',
 'A flush that was pending is not repeated unless a frame was sent in the meantime',
 [(C,'''    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
        loop {
''','''    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
        let mut dirty = false;
        loop {
'''),(C,'''                if let Some(frame) = self.rtt.next_ping() {
                    self.socket.start_send_unpin(frame.into())?;
                    continue;
                }
''','''                if let Some(frame) = self.rtt.next_ping() {
                    self.socket.start_send_unpin(frame.into())?;
                    dirty = true;
                    continue;
                }
'''),(C,'''                    self.socket.start_send_unpin(frame)?;
                    continue;
                }
            }

            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }
''','''                    self.socket.start_send_unpin(frame)?;
                    dirty = true;
                    continue;
                }
            }

            if dirty && self.socket.poll_flush_unpin(cx)?.is_ready() {
                dirty = false;
            }
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    net.flush_blocked(true);
    let _ = write(&mut s, b"x");
    drive(&mut c);
    net.flush_blocked(false);
    drive(&mut c);
    let i = net.0.lock().unwrap();
    check(i.flushed == i.tx.len(), "everything is flushed");
}
''')

spec('inbound-first','C22','a remote that keeps sending while local frames are queued',
 'Inbound frames are processed before frames of streams are taken, so a remote that keeps sending stops all outbound data',
 [(C,'''            if self.pending_write_frame.is_none() {
                match self.stream_receivers''','''            if self.pending_write_frame.is_none() && !self.read_more {
                match self.stream_receivers'''),
  (C,'''                        match self.on_frame(frame?)? {
                            Action::None => {}''','''                        self.read_more = true;
                        match self.on_frame(frame?)? {
                            Action::None => {}'''),
  (C,'''                        return Poll::Ready(Err(ConnectionError::Closed));
                    }
                    Poll::Pending => {}
                }
''','''                        return Poll::Ready(Err(ConnectionError::Closed));
                    }
                    Poll::Pending => {
                        if std::mem::take(&mut self.read_more) {
                            continue;
                        }
                    }
                }
'''),(C,'''    no_streams_waker: Option<Waker>,
''','''    no_streams_waker: Option<Waker>,
    /// There may be more to read.
    read_more: bool,
'''),(C,'''            no_streams_waker: None,
''','''            no_streams_waker: None,
            read_more: false,
''')],H+'''
static NET: std::sync::Mutex<Option<Net>> = std::sync::Mutex::new(None);
// the remote makes room as soon as its first frame is taken
fn hook(m: &str) {
    if m.contains("received:") {
        if let Some(n) = NET.lock().unwrap().take() {
            n.room(usize::MAX);
        }
    }
}
static HOOK: Hook = Hook(hook);
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    let _ = write(&mut s, b"x");
    drive(&mut c);
    net.room(0);
    for b in ["one", "two", "data"] {
        check(matches!(write(&mut s, b.as_bytes()), Poll::Ready(Ok(_))), "accepted");
        drive(&mut c);
    }
    // a long run of inbound frames ending in one that must not be reached before our data was sent
    for _ in 0..5000 {
        net.send(WINDOW, 0, 1, 0, &[]);
    }
    net.send(GOAWAY, 0, 0, 0, &[]);
    *NET.lock().unwrap() = Some(net.clone());
    let _ = log::set_logger(&HOOK);
    log::set_max_level(log::LevelFilter::Trace);
    drive(&mut c);
    log::set_max_level(log::LevelFilter::Off);
    check(net.frames().iter().any(|f| f.body == b"data"), "queued data is sent in between");
}
''')

spec('deep-queue','C20','writing while the transport accepts nothing',
 'The queue of a locally opened stream holds as many frames as there may be streams',
 [(C,'''    fn make_new_outbound_stream(&mut self, id: StreamId) -> Stream {
        let config = self.config.clone();

        let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
''','''    fn make_new_outbound_stream(&mut self, id: StreamId) -> Stream {
        let config = self.config.clone();

        let (sender, receiver) = mpsc::channel(config.max_num_streams);
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    let mut s = open(&mut c);
    let _ = write(&mut s, b"x");
    drive(&mut c);
    net.room(0);
    let mut n = 0;
    while n < 100 && matches!(write(&mut s, b"y"), Poll::Ready(Ok(1))) {
        n += 1;
        drive(&mut c);
    }
    check(n <= 16, "writes wait while nothing is sent");
}
''')

spec('ack-update','C16','an accepted stream whose first frame is a window update',
 'The window update with which a purely reading application first uses an accepted stream carries no ACK',
 [(ST,'''        let mut frame = Frame::window_update(self.id, credit).right();
        self.add_flag(frame.header_mut());
''','''        let mut frame = Frame::window_update(self.id, credit).right();
        if self.flag == Flag::Syn {
            self.add_flag(frame.header_mut());
        }
''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, &vec![1; 200_000]);
    let (mut s, _) = drive(&mut c);
    let mut s = s.remove(0);
    let _ = read(&mut s, 200_000);
    let _ = read(&mut s, 1);
    drive(&mut c);
    let f = net.frames().into_iter().find(|f| f.ty == WINDOW).unwrap();
    check(f.flags & ACK != 0, "acknowledged by its first frame");
}
''')

spec('short-write-header','C14','a transport accepting part of a frame header',
 'After a short write of a header the rest of the header is taken for complete when the frame has no body',
 [(IO,'''                        if *offset == header.len() {
                            if !buffer.is_empty() {''','''                        if *offset == header.len() || (buffer.is_empty() && *offset >= 8) {
                            if !buffer.is_empty() {''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = client(&net, Config::default());
    net.room(9);
    drive(&mut c);
    net.room(usize::MAX);
    drive(&mut c);
    check(net.0.lock().unwrap().tx.len() == 12, "the ping is sent completely");
}
''')

spec('send-window-frame','C03','a first data frame bigger than the window left by earlier data of the same stream',
 'Data frames of at most one split size are accepted although the window is exhausted',
 [(FC,'''        self.receive_window = self
            .receive_window
            .checked_sub(i)
            .ok_or(ConnectionError::InvalidWindowUpdate)?;
        Ok(())''','''        if i > self.receive_window && i > self.config.split_send_size as u32 {
            return Err(ConnectionError::InvalidWindowUpdate);
        }
        self.receive_window = self.receive_window.saturating_sub(i);
        Ok(())''')],H+'''
fn main() {
    let net = Net::new();
    let mut c = server(&net, Config::default());
    net.data(SYN, 1, &vec![1; 262_144]);
    let (_s, _) = drive(&mut c);
    net.data(0, 1, &[1; 100]);
    drive(&mut c);
    check(net.frames().iter().any(|f| f.ty == GOAWAY && f.len != 0), "excess data is refused");
}
''')
