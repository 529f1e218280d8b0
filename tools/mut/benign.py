#!/usr/bin/env python3
"""Behaviour-preserving edits: no check may raise an alarm on them. Usage: benign.py WORKDIR [edit...]"""
import sys, os, subprocess, shutil
C = 'connection.rs'; S = 'connection/stream.rs'; F = 'connection/stream/flow_control.rs'; R = 'connection/rtt.rs'
CL = 'connection/closing.rs'; CU = 'connection/cleanup.rs'; IO = 'frame/io.rs'; H = 'frame/header.rs'; CH = 'chunks.rs'
B = []
def b(id, *edits): B.append((id, [(edits[i], edits[i + 1], edits[i + 2]) for i in range(0, len(edits), 3)]))

# one frame is read before the queues of the streams are looked at
b('read-first', C, """        loop {
            if self.socket.poll_ready_unpin(cx)?.is_ready() {""", """        let mut read = false;
        loop {
            if !read && self.pending_read_frames.is_empty() {
                read = true;
                match self.socket.poll_next_unpin(cx) {
                    Poll::Ready(Some(frame)) => match self.on_frame(frame?)? {
                        Action::None => {}
                        Action::New(stream) => return Poll::Ready(Ok(stream)),
                        Action::Ping(f) => self.pending_read_frames.push_back(f.into()),
                        Action::Terminate(f) => self.pending_read_frames.push_back(f.into()),
                    },
                    Poll::Ready(None) => return Poll::Ready(Err(ConnectionError::Closed)),
                    Poll::Pending => {}
                }
            }
            if self.socket.poll_ready_unpin(cx)?.is_ready() {""")
# wakes in another order, and more of them
b('wake-both', C, """            shared.buffer.push(frame.into_body());
            if let Some(w) = shared.reader.take() {
                w.wake()
            }
        } else {""", """            shared.buffer.push(frame.into_body());
            let wakers = [shared.writer.take(), shared.reader.take()];
            drop(shared);
            wakers.into_iter().flatten().for_each(Waker::wake);
        } else {""")
# a wake after the lock has been released
b('wake-late', C, """            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        } else {""", """            let w = shared.writer.take();
            drop(shared);
            if let Some(w) = w {
                w.wake()
            }
        } else {""")
# the connection yields after some frames
b('budget', C, """    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
        loop {
""", """    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 200 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
""")
# chunks are merged
b('merge-chunks', CH, """        if !x.is_empty() {
            self.seq.push_back(Chunk {
                cursor: io::Cursor::new(x),
            })
        }""", """        if x.is_empty() {
            return;
        }
        match self.seq.back_mut() {
            Some(c) if c.cursor.get_ref().len() + x.len() < 64 => c.cursor.get_mut().extend_from_slice(&x),
            _ => self.seq.push_back(Chunk { cursor: io::Cursor::new(x) }),
        }""")
# a bigger queue between stream and connection is an implementation detail
b('queue-20', C, "        let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound(", "        let (sender, receiver) = mpsc::channel(12);\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound(",
  C, "        let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(", "        let (sender, receiver) = mpsc::channel(8);\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(")
# flush only when there is nothing to write
b('flush-late', C, """            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }

            if self.pending_write_frame.is_none() {""", """            if self.pending_write_frame.is_none() {""",
  C, """            // Apart from an ACK, a reset or the (half-)closing""", """            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }

            // Apart from an ACK, a reset or the (half-)closing""")
# window updates computed under a single lock, sent after the data has been copied
b('read-reorder', S, """        // Nothing can be copied to an empty buffer, there may well be data left to read.
        if n > 0 || buf.is_empty() {
            log::trace!("{}/{}: read {} bytes", self.conn, self.id, n);
            return Poll::Ready(Ok(n));
        }""", """        // Nothing can be copied to an empty buffer, there may well be data left to read.
        let done = n > 0 || buf.is_empty();
        if done {
            drop(shared);
            let _ = self.send_window_update(cx);
            return Poll::Ready(Ok(n));
        }""")
# the state is looked at before waiting for room
b('write-check-first', S, """        ready!(self.poll_sender_ready(cx))?;
        let body = {""", """        if !self.shared().state().can_write() {
            return Poll::Ready(Err(self.write_zero_err()));
        }
        ready!(self.poll_sender_ready(cx))?;
        let body = {""")
# body buffers grow
b('grow-body', IO, "                            buffer: vec![0; body_len],", "                            buffer: { let mut v = Vec::with_capacity(body_len); v.resize(body_len, 0); v },")
# a stream id is computed by a helper
b('helper-id', C, """        let proposed = StreamId::new(self.next_id);
        self.next_id = self
            .next_id
            .checked_add(2)
            .ok_or(ConnectionError::NoMoreStreamIds)?;
""", """        let Some(next) = self.next_id.checked_add(2) else {
            return Err(ConnectionError::NoMoreStreamIds);
        };
        let proposed = StreamId::new(std::mem::replace(&mut self.next_id, next));
""")
# the backlog is checked before the limit only after a look at the streams
b('wake-outbound', C, """            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {
                self.wake_new_outbound();
            }""", """            if let Some(w) = self.new_outbound_stream_waker.take() {
                if self.ack_backlog() < MAX_ACK_BACKLOG {
                    w.wake();
                } else {
                    self.new_outbound_stream_waker = Some(w);
                }
            }""")
# dropping notices the remote before the local halves
b('drop-order', C, """            if let Some(w) = shared.reader.take() {
                w.wake()
            }
            if let Some(w) = shared.writer.take() {
                w.wake()
            }
            frame
        };
        frame.map(Into::into)""", """            let (r, w) = (shared.reader.take(), shared.writer.take());
            drop(shared);
            for w in [w, r].into_iter().flatten() {
                w.wake();
            }
            frame
        };
        frame.map(Into::into)""")
# close: no early look at the state
b('close-noearly', S, """        if self.is_closed() || self.is_write_closed() {
            return Poll::Ready(Ok(())); // closed already, a stream has a single FIN
        }
        ready!(self.poll_sender_ready(cx))?;
        if self.is_closed() {""", """        if !self.shared().state().can_write() {
            return Poll::Ready(Ok(())); // closed already, a stream has a single FIN
        }
        match self.poll_sender_ready(cx) {
            Poll::Ready(r) => r?,
            Poll::Pending => return Poll::Pending,
        }
        if !self.shared().state().can_write() {""")
b('flow-helper', F, "        let bytes_received = self.max_receive_window - self.receive_window;\n        let", "        let bytes_received = self.max_receive_window.checked_sub(self.receive_window).unwrap_or_default();\n        let")

if __name__ == '__main__':
    w = os.path.abspath(sys.argv[1]); args = sys.argv[2:]
    if not os.path.exists(w):
        os.makedirs(w); subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    os.makedirs(w + '/v', exist_ok=True); subprocess.check_call(['rsync', '-a', '--delete', '--exclude=target', '/verif/mc/', w + '/v/mc/'])
    shutil.copy('/verif/known_findings.txt', w + '/v/')
    p = w + '/v/mc/Cargo.toml'; s = open(p).read().replace('"/repo/yamux"', f'"{w}/repo/yamux"'); open(p, 'w').write(s)
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', CARGO_TARGET_DIR=w + '/target', RUSTFLAGS='--cfg yamux_verif', MC_ROOT=w + '/v')
    env.setdefault('MC_BUDGET', '15')
    subprocess.call(['git', '-C', w + '/repo', 'checkout', '-q', '--', '.'])
    src = w + '/repo/yamux/src/'
    for id, eds in B:
        if args and id not in args: continue
        eds = [e for e in eds if e[1]]
        if not eds: continue
        bad = False; old = {}
        for f, a, n in eds:
            s = open(src + f).read(); old.setdefault(f, s)
            if s.count(a) != 1: print(f'{id}: text found {s.count(a)} times: {a[:60]!r}', flush=True); bad = True
            open(src + f, 'w').write(s.replace(a, n, 1))
        try:
            if bad: continue
            r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q', '--manifest-path', w + '/v/mc/Cargo.toml'], env=env, capture_output=True, text=True)
            if r.returncode: print(f'{id}: does not build\n' + '\n'.join([l for l in r.stderr.splitlines() if 'error' in l][:5]), flush=True); continue
            al = []
            for k in range(1, 25):
                p = f'C{k:02}'
                r = subprocess.run([w + '/target/release/mc', 'run', p], env=env, capture_output=True, text=True, cwd=w + '/v')
                if r.returncode: al.append(p + ' ' + ' '.join(x[:160] for x in r.stdout.splitlines() if x.startswith('scenario')))
            print(f'{id}: ' + ('quiet' if not al else 'ALARMS ' + ' | '.join(al)), flush=True)
        finally:
            for f, s in old.items(): open(src + f, 'w').write(s)
