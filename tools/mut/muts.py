# (id, properties expected to notice, file, [(old, new), ...])
M = []
def m(id, props, file, *reps, count=1):
    M.append((id, props.split(), file, [(reps[i], reps[i+1]) for i in range(0, len(reps), 2)]))

C = 'connection.rs'; S = 'connection/stream.rs'; F = 'connection/stream/flow_control.rs'; R = 'connection/rtt.rs'
CL = 'connection/closing.rs'; CU = 'connection/cleanup.rs'; IO = 'frame/io.rs'; H = 'frame/header.rs'; CH = 'chunks.rs'; T = 'tagged_stream.rs'; FR = 'frame.rs'; L = 'lib.rs'

# ---- frame/io.rs
m('io-w-offset-body', 'C01 C14', IO, "                        *offset += n;\n\n                        if *offset > buffer.len() {", "                        *offset = n.max(*offset);\n\n                        if *offset > buffer.len() {")
m('io-w-header-early', 'C14', IO, "if *offset == header.len() {\n                            if !buffer", "if *offset >= 11 {\n                            if !buffer")
m('io-flush-skip-ready', 'C21', IO, "        ready!(this.poll_ready_unpin(cx))?;\n        Pin::new(&mut this.io).poll_flush(cx)", "        if this.poll_ready_unpin(cx)?.is_pending() {\n            return Poll::Pending;\n        }\n        let _ = Pin::new(&mut this.io).poll_flush(cx)?;\n        Poll::Ready(Ok(()))")
m('io-close-skip-ready', 'C10 C14', IO, "        ready!(this.poll_ready_unpin(cx))?;\n        Pin::new(&mut this.io).poll_close(cx)", "        let _ = this.poll_ready_unpin(cx)?;\n        Pin::new(&mut this.io).poll_close(cx)")
m('io-eof-header', 'C11', IO, "                            if *offset == 0 {\n                                return Poll::Ready(None);\n                            }\n", "                            if *offset < 2 {\n                                return Poll::Ready(None);\n                            }\n")
m('io-max-body', 'C12', IO, "if body_len > MAX_FRAME_BODY_LEN {", "if body_len > 2 * MAX_FRAME_BODY_LEN {")
m('io-max-body-ge', 'C12', IO, "if body_len > MAX_FRAME_BODY_LEN {", "if body_len >= MAX_FRAME_BODY_LEN {")
m('io-body-reset-pending', 'C01 C14', IO, "                    let buf = &mut buffer[*offset..body_len];\n                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {", "                    let buf = &mut buffer[*offset..body_len];\n                    let polled = Pin::new(&mut this.io).poll_read(cx, buf);\n                    if polled.is_pending() && *offset < 4 {\n                        *offset = 0;\n                    }\n                    match ready!(polled)? {")
m('io-tag-body', 'C12 C14', IO, "if header.tag() != header::Tag::Data {", "if header.tag() != header::Tag::Data || (header.len().val() == 0 && false) || header.stream_id().is_session() {")
m('io-zero-write', 'C11', IO, "                        if n == 0 {\n                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));\n                        }\n                        *offset += n;\n\n                        if *offset > buffer.len() {", "                        *offset += n;\n\n                        if *offset > buffer.len() {")
# ---- header.rs
m('hd-ver', 'C12', H, "if buf[0] != 0 {", "if buf[0] > 1 {")
m('hd-type', 'C12', H, "            t => return Err(HeaderDecodeError::Type(t)),", "            4 => Tag::GoAway,\n            t => return Err(HeaderDecodeError::Type(t)),")
m('hd-flag-byte', 'C12 C09', H, "self.0 & other.0 == other.0", "self.0 & other.0 != 0 || self.0 == other.0")
m('hd-flag-lossy', 'C12', H, "flags: Flags(u16::from_be_bytes([buf[2], buf[3]])),", "flags: Flags(u16::from_be_bytes([buf[2], buf[3]]) & !(((buf[2] != 0) as u16) * 1)),")
m('hd-goaway-code', 'C14', H, "Self::go_away(2)", "Self::go_away(3)")
m('hd-goaway-int0', 'C18 C10', H, "Self::go_away(2)", "Self::go_away(0)")
# ---- chunks
m('ch-pop-len', 'C04 C03', CH, "self.len -= chunk.as_ref().map(|c| c.len() + c.offset()).unwrap_or(0);", "self.len -= chunk.as_ref().map(|c| c.len()).unwrap_or(0);")
m('ch-push-front', 'C01', CH, "self.seq.push_back(Chunk {", "if self.seq.len() == 3 { let b = self.seq.pop_back().unwrap(); self.seq.push_front(b); }\n            self.seq.push_back(Chunk {")
m('ch-empty', 'C01 C08', CH, "        if !x.is_empty() {\n            self.seq", "        {\n            self.seq")
m('ch-len-chunk', 'C04', CH, "self.len - self.seq.front().map(|c| c.offset()).unwrap_or(0)", "self.len - self.seq.front().map(|c| c.offset() / 2).unwrap_or(0)")
# ---- flow control
m('fc-half', 'C04', F, "if next_window_update < self.max_receive_window / 2 {", "if next_window_update <= self.max_receive_window / 2 + 1 {")
m('fc-half-default', 'C04', F, "if next_window_update < self.max_receive_window / 2 {", "if next_window_update < self.max_receive_window.saturating_sub(DEFAULT_CREDIT / 2) {")
m('fc-bufignored', 'C04', F, "        let mut next_window_update =\n            bytes_received.saturating_sub(buffer_len.try_into().unwrap_or(u32::MAX));", "        let _ = buffer_len;\n        let mut next_window_update = bytes_received;")
m('fc-grow-buf', 'C04 C05', F, "            let bytes_received = self.max_receive_window - self.receive_window;\n            next_window_update =\n                bytes_received.saturating_sub(buffer_len.try_into().unwrap_or(u32::MAX));", "            next_window_update = self.max_receive_window - self.receive_window;")
m('fc-rtt3', 'C05', F, "self.last_window_update.elapsed() < rtt * 2", "self.last_window_update.elapsed() < rtt * 3")
m('fc-rtt1', 'C05', F, "self.last_window_update.elapsed() < rtt * 2", "self.last_window_update.elapsed() < rtt")
m('fc-mul4', 'C05', F, "saturating_mul(2);", "saturating_mul(4);")
m('fc-nolimit-acc', 'C05', F, "                    - *accumulated_max_stream_windows,", "                    ,")
m('fc-nomin', 'C05', L, "let guaranteed = self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize);\n\n        self.max_connection_receive_window\n", "let guaranteed = DEFAULT_CREDIT as usize;\n\n        self.max_connection_receive_window\n")
m('fc-noacc', 'C05', F, "            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n", "            if new_max == self.max_receive_window.saturating_mul(2) {\n                *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n            }\n")
m('fc-lastupd', 'C05', F, "        self.last_window_update = Instant::now();\n        self.receive_window", "        if self.rtt.get().is_some() {\n            self.last_window_update = Instant::now();\n        }\n        self.receive_window")
m('fc-dropbudget', 'C05', F, "        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT) as usize;", "        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT).min(DEFAULT_CREDIT) as usize;")
m('fc-inc-sat', 'C13 C02', F, "            .checked_add(i)\n", "            .checked_add(i).or(Some(u32::MAX))\n")
m('fc-inc-wrap', 'C02 C13', F, "            .checked_add(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;", "            .wrapping_add(i);")
m('fc-rcv-sat', 'C03', F, "        self.receive_window = self\n            .receive_window\n            .checked_sub(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;", "        if i > self.max_receive_window {\n            return Err(ConnectionError::InvalidWindowUpdate);\n        }\n        self.receive_window = self.receive_window.saturating_sub(i);")
m('fc-inc-i32', 'C13 C02', F, "        self.send_window = self\n            .send_window\n            .checked_add(i)", "        self.send_window = self\n            .send_window\n            .checked_add(i).filter(|w| *w <= i32::MAX as u32)")
# ---- rtt
m('rtt-interval', 'C19', R, "Duration::from_secs(10);", "Duration::from_secs(9);")
m('rtt-nextid', 'C19', R, "let id = self.next_id.fetch_add(1, Ordering::Relaxed);", "let id = self.next_id.load(Ordering::Relaxed);")
m('rtt-any-id', 'C19', R, "if received_id != expected_id {", "if received_id > expected_id {")
m('rtt-unexpected', 'C19', R, "                log::error!(\"received unexpected pong {received_id}\");\n                return Action::Terminate(Frame::protocol_error());", "                log::error!(\"received unexpected pong {received_id}\");\n                return Action::None;")
m('rtt-from-sent', 'C19', R, "next: Instant::now() + PING_INTERVAL,", "next: sent_at + PING_INTERVAL,")
m('rtt-min', 'C05', R, "inner.rtt = Some(rtt);", "inner.rtt = Some(inner.rtt.map_or(rtt, |r| r.max(rtt)));")
m('rtt-bad-clears', 'C19', R, "            log::error!(\"received pong with {received_id} but expected {expected_id}\");\n", "            inner.state = RttState::Waiting { next: Instant::now() };\n")
# ---- closing
m('cl-no-drain', 'C10', CL, "                                ready!(this.poll_drain_receivers(cx));", "                                let _ = this.poll_drain_receivers(cx);")
m('cl-term-first', 'C10', CL, "this.pending_frames.push_back(Frame::term().into());", "this.pending_frames.push_front(Frame::term().into());")
m('cl-noack', 'C10 C16', CL, "                            this.pending_frames\n                                .push_back(Frame::close_stream(id, ack).into());", "                            let _ = ack;\n                            this.pending_frames\n                                .push_back(Frame::close_stream(id, false).into());")
m('cl-no-closesock', 'C10', CL, "                        None => this.state = State::ClosingSocket,", "                        None => {\n                            ready!(this.socket.poll_flush_unpin(cx))?;\n                            return Poll::Ready(Ok(()));\n                        }")
m('cl-read-eof-end', 'C10', CL, "Poll::Ready(None) | Poll::Pending => Poll::Pending,", "Poll::Ready(None) => Poll::Ready(Err(crate::ConnectionError::Closed)),\n            Poll::Pending => Poll::Pending,")
m('cl-nodiscard', 'C06', CL, "                    if this.socket.poll_ready_unpin(cx)?.is_pending() {\n                        ready!(this.poll_discard_frame(cx))?;\n                        continue;\n                    }", "                    ready!(this.socket.poll_ready_unpin(cx))?;")
m('cl-nodiscard2', 'C06', CL, "                    if this.socket.poll_close_unpin(cx)?.is_pending() {\n                        ready!(this.poll_discard_frame(cx))?;\n                        continue;\n                    }", "                    ready!(this.socket.poll_close_unpin(cx))?;")
m('cl-drop-none', 'C10', CL, "Poll::Ready(Some((_, None))) => {}", "Poll::Ready(Some((_, None))) => { this.pending_frames.truncate(6); }")
# ---- cleanup
m('cu-noclose', 'C11 C07 C24', CU, "                        stream.inner_mut().close();", "                        let _ = stream.inner_mut();")
m('cu-pending', 'C11', CU, "                    Poll::Ready(None) | Poll::Pending => {", "                    Poll::Pending => return Poll::Pending,\n                    Poll::Ready(None) => {")
m('cu-nodrain', 'C11 C07', CU, "                    Poll::Ready(Some(cmd)) => {\n                        drop(cmd);\n                    }\n                    Poll::Ready(None) | Poll::Pending => {", "                    _ => {")
# ---- tagged
m('ts-none', 'C09', T, "*this.reported_none = true;\n\n                Poll::Ready(Some((*this.key, None)))", "*this.reported_none = true;\n\n                Poll::Ready(None)")
# ---- connection: api level
m('co-out-closing-err', 'C10', C, "                    self.inner = ConnectionState::Closing(inner);\n                    return Poll::Ready(Err(ConnectionError::Closed));", "                    self.inner = ConnectionState::Closing(inner);\n                    return Poll::Pending;")
m('co-cleanup-err-none', 'C11', C, "                    Poll::Ready(other) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Some(Err(other)));", "                    Poll::Ready(ConnectionError::Io(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(None);\n                    }\n                    Poll::Ready(other) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Some(Err(other)));")
m('co-close-cleanup', 'C10 C11', C, "                        log::warn!(\"Failure while closing connection: {reason}\");\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Ok(()));", "                        log::warn!(\"Failure while closing connection: {reason}\");\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Err(reason));")
m('co-closed-err', 'C10 C11', C, "                ConnectionState::Closed => {\n                    self.inner = ConnectionState::Closed;\n                    return Poll::Ready(Ok(()));", "                ConnectionState::Closed => {\n                    self.inner = ConnectionState::Closed;\n                    return Poll::Ready(Err(ConnectionError::Closed));")
m('co-drop-nostreams', 'C24 C07', C, "ConnectionState::Active(active) => active.drop_all_streams(),", "ConnectionState::Active(_) => {}")
m('co-drop-nowake', 'C07', C, "            let mut shared = s.lock();\n            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake_new_outbound();", "            let mut shared = s.lock();\n            if shared.update_state(self.id, id, State::Closed).can_write() {\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n        }\n        self.wake_new_outbound();")
m('co-drop-nowake2', 'C07 C11', C, "            let mut shared = s.lock();\n            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake_new_outbound();", "            let mut shared = s.lock();\n            if shared.update_state(self.id, id, State::Closed).can_write() {\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake_new_outbound();")
m('co-drop-noopener', 'C07 C17', C, "                w.wake()\n            }\n        }\n        self.wake_new_outbound();", "                w.wake()\n            }\n        }")
m('co-close-nostreams', 'C10', C, "        // Nothing will be received anymore, do not leave readers and writers waiting.\n        self.drop_all_streams();\n", "        self.streams.clear();\n")
m('co-close-pendorder', 'C10', C, "            .pending_read_frames\n            .into_iter()\n            .chain(self.pending_write_frame)", "            .pending_write_frame\n            .into_iter()")
m('co-ping-starve', 'C19 C20', C, "if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {", "if self.pending_read_frames.is_empty() {")
m('co-ping-unbounded', 'C20', C, "if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {", "if self.pending_read_frames.len() < 64 * MAX_PENDING_READ_FRAMES {")
m('co-pong-lifo', 'C19', C, "                    .pop_front()\n                    .or_else", "                    .pop_back()\n                    .or_else")
m('co-pong-after', 'C19 C06', C, "                    .pending_read_frames\n                    .pop_front()\n                    .or_else(|| self.pending_write_frame.take())", "                    .pending_write_frame\n                    .take()\n                    .or_else(|| self.pending_read_frames.pop_front())")
m('co-flush-pending-ret', 'C06 C22', C, "                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }\n\n            if self.pending_write_frame", "                Poll::Ready(()) => {}\n                Poll::Pending if self.pending_write_frame.is_some() => return Poll::Pending,\n                Poll::Pending => {}\n            }\n\n            if self.pending_write_frame")
m('co-noflush-idle', 'C21', C, "            match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }\n", "            if self.pending_write_frame.is_some() || self.streams.is_empty() {\n                let _ = self.socket.poll_flush_unpin(cx)?;\n            }\n")
m('co-waker-only-none', 'C07', C, "                    Poll::Ready(None) | Poll::Pending => {\n                        self.no_streams_waker = Some(cx.waker().clone());\n                    }", "                    Poll::Ready(None) => {\n                        self.no_streams_waker = Some(cx.waker().clone());\n                    }\n                    Poll::Pending => {}")
m('co-waker-keep', 'C07', C, "                        self.no_streams_waker = Some(cx.waker().clone());", "                        self.no_streams_waker.get_or_insert_with(|| cx.waker().clone());")
m('co-opener-keep', 'C07 C17', C, "            self.new_outbound_stream_waker = Some(cx.waker().clone());", "            self.new_outbound_stream_waker.get_or_insert_with(|| cx.waker().clone());")
m('co-opener-ackonly', 'C17 C07', C, "            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {\n                self.wake_new_outbound();\n            }\n", "")
m('co-backlog-gt', 'C17', C, "        if self.ack_backlog() >= MAX_ACK_BACKLOG {\n            log", "        if self.ack_backlog() > MAX_ACK_BACKLOG {\n            log")
m('co-backlog-inb', 'C17', C, "            .filter(|(id, _)| match self.mode {\n                Mode::Client => id.is_client(),\n                Mode::Server => id.is_server(),\n            })\n", "            .filter(|(id, _)| match self.mode {\n                Mode::Client => true,\n                Mode::Server => id.is_server(),\n            })\n")
m('co-limit-out', 'C18', C, "if self.streams.len() >= self.config.max_num_streams {", "if self.streams.len() > self.config.max_num_streams {")
m('co-limit-data', 'C18', C, "            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());", "            if self.streams.len() > self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());")
m('co-rst-rm', 'C18 C09', C, "            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {", "            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                } else if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {")
m('co-drop-rst-sendclosed', 'C09', C, "                State::SendClosed => {\n", "                State::SendClosed if shared.buffer.len() > 0 => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))\n                }\n                State::SendClosed => {\n")
m('co-drop-open-fin', 'C09', C, "                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))", "                    let mut header = Header::data(stream_id, 0);\n                    if shared.is_pending_ack() { header.rst() } else { header.fin() }\n                    Some(Frame::new(header))")
m('co-drop-rst-acked', 'C09', C, "                State::Open { .. } => {\n                    let mut header", "                State::Open { acknowledged: false } if shared.buffer.len() == 0 => None,\n                State::Open { .. } => {\n                    let mut header")
m('co-ack-any', 'C16 C17', C, "        if frame.header().flags().contains(header::ACK)\n            && matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate)", "        if frame.header().flags().contains(header::ACK)\n            && matches!(frame.header().tag(), Tag::WindowUpdate)")
m('co-ack-nowake', 'C17 C07', C, "                    .update_state(self.id, id, State::Open { acknowledged: true });\n            }\n            self.wake_new_outbound();", "                    .update_state(self.id, id, State::Open { acknowledged: true });\n            }\n            if self.ack_backlog() == MAX_ACK_BACKLOG - 1 {\n                self.wake_new_outbound();\n            }")
m('co-fin-before-consume', 'C03', C, "            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",\n                    self.id,\n                    stream_id\n                );\n\n                return Action::Terminate(Frame::protocol_error());\n            }\n\n            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n            }\n", "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n            }\n\n            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",\n                    self.id,\n                    stream_id\n                );\n\n                return Action::Terminate(Frame::protocol_error());\n            }\n")
m('co-data-wake-empty', 'C07 C08', C, "            shared.buffer.push(frame.into_body());\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n        } else {", "            let got_data = frame.body_len() > 0;\n            shared.buffer.push(frame.into_body());\n            if got_data {\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            }\n        } else {")
m('co-syn-noconsume', 'C03', C, "                if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                    log::error!(\n                        \"{}/{}: 1st body of stream exceeds default credit\",\n                        self.id,\n                        stream_id\n                    );\n\n                    return Action::Terminate(Frame::protocol_error());\n                }\n", "")
m('co-syn-fin', 'C08', C, "                if is_finish {\n                    shared.update_state(self.id, stream_id, State::RecvClosed);\n                }\n                if let Err(_err)", "                if let Err(_err)")
m('co-syn-wu-fin', 'C08', C, "            if is_finish {\n                stream\n                    .shared()\n                    .update_state(self.id, stream_id, State::RecvClosed);\n            }\n", "            let _ = is_finish;\n")
m('co-syn-data-size', 'C13', C, "if frame.body().len() > DEFAULT_CREDIT as usize {", "if frame.body().len() >= DEFAULT_CREDIT as usize {")
m('co-syn-credit', 'C02 C13', C, "let Some(credit) = frame.header().credit().checked_add(DEFAULT_CREDIT) else {", "let Some(credit) = Some(frame.header().credit().max(DEFAULT_CREDIT)).filter(|c| *c <= u32::MAX - DEFAULT_CREDIT) else {")
m('co-syn-credit-zero', 'C02', C, "let stream = self.make_new_inbound_stream(stream_id, credit);", "let stream = self.make_new_inbound_stream(stream_id, if is_finish { DEFAULT_CREDIT } else { credit });")
m('co-syn-dup', 'C13', C, "            if !self.is_valid_remote_id(stream_id, Tag::Data) {\n                log::error!(\"{}: invalid stream id {}\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.contains_key(&stream_id) {", "            if !self.is_valid_remote_id(stream_id, Tag::Data) {\n                log::error!(\"{}: invalid stream id {}\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.get(&stream_id).is_some_and(|s| s.lock().state().can_read()) {")
m('co-sid0', 'C13 C14', C, "Mode::Client => id.is_server() && !id.is_session(),", "Mode::Client => id.is_server(),")
m('co-parity', 'C13', C, "            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {", "            if stream_id.is_session() {")
m('co-wu-nowake-w', 'C07 C02', C, "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }", "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            } else if let Some(w) = shared.writer.take() {\n                w.wake()\n            }")
m('co-wu-fin-nowake', 'C07 C08', C, "                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }", "                shared.update_state(self.id, stream_id, State::RecvClosed);")
m('co-wu-rst-ign', 'C09', C, "    fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action {\n        let stream_id = frame.header().stream_id();\n\n        if frame.header().flags().contains(header::RST) {", "    fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action {\n        let stream_id = frame.header().stream_id();\n\n        if frame.header().flags().contains(header::RST) && frame.header().credit() == 0 {")
m('co-ping-stream', 'C19', C, "if stream_id == CONNECTION_ID || self.streams.contains_key(&stream_id) {", "if stream_id == CONNECTION_ID && self.pending_read_frames.is_empty() {")
m('co-unknown-rst', 'C09', C, "            // See https://github.com/paritytech/yamux/issues/110 for details.\n        }\n\n        Action::None\n    }\n\n    fn on_window_update", "            // See https://github.com/paritytech/yamux/issues/110 for details.\n            if frame.header().flags().contains(header::FIN) {\n                return Action::Terminate(Frame::protocol_error());\n            }\n        }\n\n        Action::None\n    }\n\n    fn on_window_update")
m('co-nextid', 'C15', C, "        let proposed = StreamId::new(self.next_id);\n        self.next_id = self\n            .next_id\n            .checked_add(2)", "        let proposed = StreamId::new(self.next_id);\n        self.next_id = self\n            .next_id\n            .checked_add(if self.streams.len() == 3 { 0 } else { 2 })")
m('co-chan-deep', 'C20', C, "let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(", "let (sender, receiver) = mpsc::channel(100); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(")
m('co-out-nowake', 'C07', C, "        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_outbound(", "        if self.streams.is_empty() {\n            if let Some(waker) = self.no_streams_waker.take() {\n                waker.wake();\n            }\n        }\n\n        Stream::new_outbound(")
m('co-goaway-err', 'C11', C, "Tag::GoAway => return Err(ConnectionError::Closed),", "Tag::GoAway if frame.header().len().val() > 2 => return Err(ConnectionError::InvalidWindowUpdate),\n            Tag::GoAway => return Err(ConnectionError::Closed),")
m('co-goaway-ign', 'C11', C, "Tag::GoAway => return Err(ConnectionError::Closed),", "Tag::GoAway if frame.header().len().val() > 2 => Action::None,\n            Tag::GoAway => return Err(ConnectionError::Closed),")
m('co-read-first', 'C22 C21', C, "            if self.pending_write_frame.is_none() {\n                match self.stream_receivers", "            if self.pending_write_frame.is_none() && self.pending_read_frames.is_empty() {\n                match self.stream_receivers")
# ---- stream
m('st-pack-nowu', 'C04', S, "        // Continue reading buffered data even though sending a window update blocked.\n        let _ = self.send_window_update(cx);\n\n        let mut shared = self.shared();\n\n        if let Some(bytes)", "        let mut shared = self.shared();\n        if shared.buffer.len() == 0 {\n            drop(shared);\n            let _ = self.send_window_update(cx);\n            shared = self.shared();\n        }\n\n        if let Some(bytes)")
m('st-read-wu-block', 'C24 C22 C07', S, "        // Continue reading buffered data even though sending a window update blocked.\n        let _ = self.send_window_update(cx);\n\n        // Copy", "        ready!(self.send_window_update(cx));\n\n        // Copy")
m('st-pack-wu-block', 'C24 C22 C07', S, "        // Continue reading buffered data even though sending a window update blocked.\n        let _ = self.send_window_update(cx);\n\n        let mut shared = self.shared();\n\n        if let Some(bytes)", "        ready!(self.send_window_update(cx));\n\n        let mut shared = self.shared();\n\n        if let Some(bytes)")
m('st-wu-canread', 'C04', S, "if !self.shared.lock().state.can_read() {", "if !matches!(self.shared.lock().state, State::Open { .. }) {")
m('st-wu-eof', 'C24', S, "        if ready!(self.window_update_sender.poll_ready(cx)).is_err() {\n            return Poll::Ready(());\n        }", "        if self.window_update_sender.is_closed() {\n            return Poll::Ready(());\n        }\n        let _ = ready!(self.window_update_sender.poll_ready(cx));")
m('st-rac-pack', 'C24', S, "    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        if !self.config.read_after_close && self.sender.is_closed() {", "    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        if !self.config.read_after_close && self.is_closed() {")
m('st-rac-read', 'C24', S, "        buf: &mut [u8],\n    ) -> Poll<io::Result<usize>> {\n        if !self.config.read_after_close && self.sender.is_closed() {", "        buf: &mut [u8],\n    ) -> Poll<io::Result<usize>> {\n        if self.sender.is_closed() && !self.config.read_after_close && !self.shared().state().can_write() {")
m('st-rac-inv', 'C24', S, "        buf: &mut [u8],\n    ) -> Poll<io::Result<usize>> {\n        if !self.config.read_after_close && self.sender.is_closed() {", "        buf: &mut [u8],\n    ) -> Poll<io::Result<usize>> {\n        if !self.config.read_after_close && self.is_closed() {")
m('st-read-eof-first', 'C08 C01', S, "        // Copy data from stream buffer.\n        let mut shared = self.shared();\n", "        // Copy data from stream buffer.\n        let mut shared = self.shared();\n        if shared.state() == State::Closed && shared.buffer.len() < 2 {\n            return Poll::Ready(Ok(0));\n        }\n")
m('st-read-partial', 'C01', S, "            if n == buf.len() {\n                break;\n            }\n", "            if n == buf.len() {\n                break;\n            }\n            if chunk.len() == 1 {\n                shared.buffer.pop();\n            }\n")
m('st-read-waker', 'C07', S, "        // by the connection when more becomes available for us.\n        shared.reader = Some(cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite", "        // by the connection when more becomes available for us.\n        if shared.reader.is_none() {\n            shared.reader = Some(cx.waker().clone());\n        }\n\n        Poll::Pending\n    }\n}\n\nimpl AsyncWrite")
m('st-pack-waker', 'C07', S, "        // by the connection when more becomes available for us.\n        shared.reader = Some(cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\n// Like", "        // by the connection when more becomes available for us.\n        if shared.reader.is_none() {\n            shared.reader = Some(cx.waker().clone());\n        }\n\n        Poll::Pending\n    }\n}\n\n// Like")
m('st-write-waker', 'C07', S, "                shared.writer = Some(cx.waker().clone());\n                return Poll::Pending;\n            }\n            let k", "                shared.writer.get_or_insert_with(|| cx.waker().clone());\n                return Poll::Pending;\n            }\n            let k")
m('st-write-reader', 'C07', S, "                shared.writer = Some(cx.waker().clone());\n                return Poll::Pending;\n            }\n            let k", "                shared.reader = Some(cx.waker().clone());\n                return Poll::Pending;\n            }\n            let k")
m('st-write-canwrite', 'C08 C09', S, "            if !shared.state().can_write() {", "            if shared.state() == State::SendClosed {")
m('st-write-split-late', 'C14', S, "            let k = std::cmp::min(k, self.config.split_send_size);\n", "            let k = if self.flag == Flag::None { std::cmp::min(k, self.config.split_send_size) } else { k };\n")
m('st-write-consume', 'C02', S, "                .consume_send_window(k as u32)\n", "                .consume_send_window((k as u32).max(1) - 1)\n")
m('st-write-recvclosed', 'C08', S, "            if shared.send_window() == 0 {", "            if shared.send_window() == 0 && !matches!(shared.state(), State::RecvClosed) {")
m('st-flag-keep-syn', 'C16', S, "            Flag::Syn => {\n                header.syn();\n                self.flag = Flag::None", "            Flag::Syn => {\n                header.syn();\n                self.flag = if self.sender.is_closed() { Flag::Syn } else { Flag::Ack }")
m('st-ack-wu', 'C16', S, "        let mut frame = Frame::window_update(self.id, credit).right();\n        self.add_flag(frame.header_mut());\n", "        let mut frame: Frame<Either<Data, WindowUpdate>> = Frame::window_update(self.id, credit).right();\n        if self.flag == Flag::Syn { self.add_flag(frame.header_mut()); }\n")
m('st-ack-state-close', 'C16', S, "                ack: flag == Flag::Ack,", "                ack: flag == Flag::Ack && !matches!(self.shared().state(), State::RecvClosed),")
m('st-close-syn', 'C16 C08', S, "        let cmd = if flag == Flag::Syn {", "        let cmd = if flag == Flag::Syn && !self.config.read_after_close {")
m('st-close-state', 'C08', S, "        self.shared()\n            .update_state(self.conn, self.id, State::SendClosed);\n", "        if !self.shared().is_pending_ack() {\n            self.shared()\n                .update_state(self.conn, self.id, State::SendClosed);\n        }\n")
m('st-close-dup', 'C08', S, "        if self.is_closed() {\n            return Poll::Ready(Ok(()));\n        }\n        let flag", "        let flag")
m('st-psr-nowaker', 'C07 C09', S, "        shared.writer = Some(cx.waker().clone());\n        Poll::Pending\n    }\n\n    /// Send new credit", "        shared.writer.take();\n        Poll::Pending\n    }\n\n    /// Send new credit")
m('st-psr-first', 'C07 C09', S, "        let mut shared = self.shared();\n        if shared.state() == State::Closed {\n            return Poll::Ready(Ok(()));\n        }\n        shared.writer = Some(cx.waker().clone());\n        Poll::Pending\n    }\n\n    /// Send new credit", "        let mut shared = self.shared();\n        shared.writer = Some(cx.waker().clone());\n        Poll::Pending\n    }\n\n    /// Send new credit")
m('st-us-recv-send', 'C08', S, "            (RecvClosed, SendClosed) => self.state = Closed,", "            (RecvClosed, SendClosed) => self.state = SendClosed,")
m('st-us-send-recv', 'C08', S, "            (SendClosed, RecvClosed) => self.state = Closed,", "            (SendClosed, RecvClosed) => self.state = RecvClosed,")
m('st-us-send-open', 'C08 C16', S, "            (SendClosed, Open { .. }) => {}", "            (SendClosed, Open { .. }) => self.state = next,")
m('st-us-recv-open', 'C08 C16', S, "            (RecvClosed, Open { .. }) => {}", "            (RecvClosed, Open { .. }) => self.state = next,")
m('st-us-closed-recv', 'C09', S, "            (Closed, _) => {}", "            (Closed, RecvClosed) => self.state = RecvClosed,\n            (Closed, _) => {}")
m('st-us-open-ack', 'C16', S, "            (Open { .. }, _) => self.state = next,", "            (Open { acknowledged: false }, RecvClosed) if false => {}\n            (Open { .. }, Open { .. }) if self.buffer.len() > 0 => {}\n            (Open { .. }, _) => self.state = next,")
m('st-canread', 'C09', S, "        !matches!(self, State::RecvClosed | State::Closed)", "        !matches!(self, State::RecvClosed)")
m('st-flush-close', 'C08 C07', S, "        self.sender\n            .poll_flush_unpin(cx)\n            .map_err(|_| self.write_zero_err())", "        let _ = self.sender.poll_flush_unpin(cx);\n        Poll::Pending")
m('st-shared-sender', 'C07 C06', S, "            window_update_sender: sender.clone(),\n            sender,\n            flag: Flag::Ack,", "            window_update_sender: sender.clone(),\n            sender,\n            flag: if send_window == 0 { Flag::None } else { Flag::Ack },")
m('st-wu-main-sender', 'C07', S, "        if ready!(self.window_update_sender.poll_ready(cx)).is_err() {", "        if ready!(self.sender.poll_ready(cx)).is_err() {", "        let _ = self.window_update_sender.start_send(cmd);", "        let _ = self.sender.start_send(cmd);")
m('st-pending-ack', 'C16', S, "        self.shared().is_pending_ack()\n    }\n\n    pub(crate) fn shared", "        self.shared().is_pending_ack() && self.flag != Flag::Syn\n    }\n\n    pub(crate) fn shared")
m('st-is-closed', 'C08', S, "matches!(self.shared().state(), State::Closed)", "matches!(self.shared().state(), State::Closed) || self.sender.is_closed()")
# ---- frames
m('fr-close-ack', 'C16', FR, "        if ack {\n            header.ack()\n        }", "        let _ = ack;")
m('cf-split-default', 'C14', L, "        self.split_send_size = n;", "        self.split_send_size = n.max(1024);")
m('cf-rac-set', 'C24', L, "        self.read_after_close = b;", "        self.read_after_close |= b;")
# ---- second series
m('n-id-wrap', 'C15', C, "            .checked_add(2)\n            .ok_or(ConnectionError::NoMoreStreamIds)?;", "            .wrapping_add(2);")
m('n-id-reuse', 'C15', C, "        let frame = {\n            let mut shared = s.lock();\n            let frame = match", "        if self.next_id == stream_id.val().wrapping_add(2) && s.lock().is_pending_ack() {\n            self.next_id = stream_id.val();\n        }\n        let frame = {\n            let mut shared = s.lock();\n            let frame = match")
m('n-rst-clear', 'C09', C, "                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data)", "                shared.update_state(self.id, stream_id, State::Closed);\n                while shared.buffer.pop().is_some() {}\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data)")
m('n-limit-closed', 'C18', C, "            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());", "            let live = |s: &Arc<Mutex<stream::Shared>>| s.lock().state() != State::Closed;\n            if self.streams.values().filter(|s| live(s)).count() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());")
m('n-limit-closed-out', 'C18', C, "        if self.streams.len() >= self.config.max_num_streams {", "        let live = |s: &Arc<Mutex<stream::Shared>>| s.lock().state() != State::Closed;\n        if self.streams.values().filter(|s| live(s)).count() >= self.config.max_num_streams {")
m('n-syn-reuse', 'C13', C, "            if self.streams.contains_key(&stream_id) {\n                log::error!(\"{}/{}: stream already exists\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());", "            if self.streams.get(&stream_id).is_some_and(|s| s.lock().state() != State::Closed) {\n                log::error!(\"{}/{}: stream already exists\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::internal_error());")
m('n-ack-data-only', 'C16 C17', C, "            && matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate)", "            && matches!(frame.header().tag(), Tag::WindowUpdate)")
m('n-pong-drop', 'C19', C, "        if stream_id == CONNECTION_ID || self.streams.contains_key(&stream_id) {", "        if (stream_id == CONNECTION_ID || self.streams.contains_key(&stream_id)) && self.pending_read_frames.len() < 2 {")
m('n-close-recvclosed', 'C08', S, "        if self.is_closed() || self.is_write_closed() {", "        if !self.shared().state().can_read() || self.is_write_closed() {")
m('n-cleanup-recvclosed', 'C11 C10', C, "            let mut shared = s.lock();\n            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake", "            let mut shared = s.lock();\n            if shared.state().can_read() {\n                shared.update_state(self.id, id, State::Closed);\n            }\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake")
m('n-cleanup-noreaderwake', 'C07 C11', C, "            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake", "            let before = shared.update_state(self.id, id, State::Closed);\n            if before.can_write() {\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            }\n            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake")
m('n-flush-err', 'C11', C, "            match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }", "            let _ = self.socket.poll_flush_unpin(cx);")
m('n-read-err-closed', 'C11', C, "                        match self.on_frame(frame?)? {", "                        let Ok(frame) = frame else {\n                            return Poll::Ready(Err(ConnectionError::Closed));\n                        };\n                        match self.on_frame(frame)? {")
m('n-term-lost', 'C13 C18 C03', C, "                                log::trace!(\"{}: sending term\", self.id);\n                                self.pending_read_frames.push_back(f.into());", "                                log::trace!(\"{}: sending term\", self.id);\n                                if self.pending_read_frames.is_empty() {\n                                    self.pending_read_frames.push_back(f.into());\n                                }")
m('n-term-front', 'C19', C, "                                log::trace!(\"{}: sending term\", self.id);\n                                self.pending_read_frames.push_back(f.into());", "                                log::trace!(\"{}: sending term\", self.id);\n                                self.pending_read_frames.clear();\n                                self.pending_read_frames.push_back(f.into());")
m('n-id-signed', 'C13 C15', H, "        !self.is_server()", "        self.0 as i32 % 2 == 1")
m('n-id-signed-s', 'C13 C15', H, "        self.0 % 2 == 0", "        self.0 as i32 % 2 == 0 && (self.0 as i32) >= 0")
m('n-wu-sendclosed', 'C09 C12 C08', C, "            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {", "            if !shared.state().can_write() {\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {")
m('n-data-recvclosed', 'C08 C09 C03', C, "            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",", "            if shared.state() == State::Closed {\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",")
m('n-close-late-state', 'C17 C23 C07', S, "        // The command wakes up the connection, for which this stream no longer counts as waiting to be\n        // acknowledged, thus update the state first.\n        self.shared()\n            .update_state(self.conn, self.id, State::SendClosed);\n        self.sender\n            .start_send(cmd)\n            .map_err(|_| self.write_zero_err())?;\n", "        self.sender\n            .start_send(cmd)\n            .map_err(|_| self.write_zero_err())?;\n        self.shared()\n            .update_state(self.conn, self.id, State::SendClosed);\n")
m('n-goaway-code', 'C11', C, "            Tag::GoAway => return Err(ConnectionError::Closed),", "            Tag::GoAway if frame.header().len().val() > 2 => Action::None,\n            Tag::GoAway => return Err(ConnectionError::Closed),")
m('n-close-poll-err', 'C10 C11', C, "                    Poll::Ready(reason) => {\n                        log::warn!(\"Failure while closing connection: {reason}\");\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Ok(()));", "                    Poll::Ready(reason) => {\n                        log::warn!(\"Failure while closing connection: {reason}\");\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Err(reason));")
m('n-packet-nosplit', 'C01', S, "            if off != 0 {", "            if off > 1 {")
m('n-wu-syn-default', 'C02 C13', C, "            let Some(credit) = frame.header().credit().checked_add(DEFAULT_CREDIT) else {", "            let Some(credit) = frame.header().credit().checked_add(if is_finish { 0 } else { DEFAULT_CREDIT }) else {")
m('n-fin-syn-wake', 'C08 C07', C, "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n            }\n\n            shared.buffer.push(frame.into_body());\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }", "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n            }\n\n            let more = frame.body_len() > 0;\n            shared.buffer.push(frame.into_body());\n            if more {\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n            }")
m('n-drop-buffered', 'C09', C, "                State::RecvClosed => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.fin();\n                    Some(Frame::new(header))\n                }", "                State::RecvClosed if shared.buffer.len() > 0 => None,\n                State::RecvClosed => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.fin();\n                    Some(Frame::new(header))\n                }")
m('n-drop-unacked', 'C09', C, "                State::Open { .. } => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))\n                }", "                State::Open { acknowledged: false } if stream_id.is_client() && self.mode == Mode::Client => None,\n                State::Open { .. } => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.rst();\n                    Some(Frame::new(header))\n                }")
m('n-closing-flush-skip', 'C10', CL, "                    if this.socket.poll_ready_unpin(cx)?.is_pending() {\n                        ready!(this.poll_discard_frame(cx))?;\n                        continue;\n                    }\n\n                    match this.pending_frames.pop_front() {", "                    if this.socket.poll_ready_unpin(cx)?.is_pending() {\n                        if this.pending_frames.len() <= 1 {\n                            this.pending_frames.clear();\n                        }\n                        ready!(this.poll_discard_frame(cx))?;\n                        continue;\n                    }\n\n                    match this.pending_frames.pop_front() {")
m('n-closing-rst', 'C10 C11', CL, "            Poll::Ready(Some(frame)) => Poll::Ready(frame.map(drop).map_err(Into::into)),", "            Poll::Ready(Some(Ok(f))) if f.header().tag() == crate::frame::header::Tag::GoAway => Poll::Ready(Err(crate::ConnectionError::Closed)),\n            Poll::Ready(Some(frame)) => Poll::Ready(frame.map(drop).map_err(Into::into)),")
m('n-grow-noclamp', 'C05', F, "                cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX))", "                if *accumulated_max_stream_windows == 0 { new_max } else { cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX)) }")
m('n-drop-halfbudget', 'C05', F, "            *accumulated_max_stream_windows >= (self.max_receive_window - DEFAULT_CREDIT) as usize,", "            true || *accumulated_max_stream_windows >= (self.max_receive_window - DEFAULT_CREDIT) as usize,")
m('n-window-lock', 'C05 C23', F, "            // Account for the additional credit on the accumulated connection counter.\n            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n            drop(accumulated_max_stream_windows);", "            // Account for the additional credit on the accumulated connection counter.\n            drop(accumulated_max_stream_windows);\n            *self.accumulated_max_stream_windows.lock() += (new_max - self.max_receive_window) as usize;")
m('n-ping-id-const', 'C19', R, "        let id = self.next_id.fetch_add(1, Ordering::Relaxed);", "        let id = self.next_id.fetch_or(1, Ordering::Relaxed);")
m('n-rtt-reset', 'C05', R, "        *state = RttState::AwaitingPong {", "        self.inner.lock().rtt = None;\n        let state = &mut self.inner.lock().state;\n        *state = RttState::AwaitingPong {")
m('n-wu-after-fin', 'C04 C03', S, "        if !self.shared.lock().state.can_read() {\n            return Poll::Ready(());\n        }\n\n", "        if !self.shared.lock().state.can_read() || self.is_write_closed() {\n            return Poll::Ready(());\n        }\n\n")
m('n-accept-ack-early', 'C16', S, "            flag: Flag::Ack,\n            shared: Arc::new(Mutex::new(Shared::new(\n                DEFAULT_CREDIT,\n                send_window,", "            flag: if send_window > DEFAULT_CREDIT { Flag::None } else { Flag::Ack },\n            shared: Arc::new(Mutex::new(Shared::new(\n                DEFAULT_CREDIT,\n                send_window,")
m('n-read-zero', 'C01 C08', S, "        if n > 0 || buf.is_empty() {", "        if n > 0 {")
m('n-chunk-pop', 'C04 C03', S, "            if chunk.is_empty() {\n                shared.buffer.pop();\n                continue;\n            }", "            if chunk.is_empty() {\n                shared.buffer.pop();\n                if n > 0 {\n                    break;\n                }\n                continue;\n            }")
m('n-noclosed-write', 'C10 C11', S, "        ready!(self.poll_sender_ready(cx))?;\n        let body = {", "        if self.poll_sender_ready(cx)?.is_pending() && self.shared().state().can_write() {\n            return Poll::Pending;\n        }\n        let body = {")

# ---- as someone planting bugs would, with rarer triggers
m('p-chunk-many', 'C01', CH, "            self.seq.push_back(Chunk {\n                cursor: io::Cursor::new(x),\n            })", "            let at = self.seq.len() - (self.seq.len() >= 64) as usize;\n            self.seq.insert(at, Chunk {\n                cursor: io::Cursor::new(x),\n            })")
m('p-fin-window', 'C03 C20', C, "            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",", "            if !shared.state().can_read() {\n                shared.buffer.push(frame.into_body());\n                return Action::None;\n            }\n            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {\n                log::error!(\n                    \"{}/{}: frame body larger than window of stream\",")
m('p-close-nopong', 'C19 C10', C, "            .pending_read_frames\n            .into_iter()\n            .chain(self.pending_write_frame)", "            .pending_read_frames\n            .into_iter()\n            .take(1)\n            .chain(self.pending_write_frame)")
m('p-wu-overflow-fin', 'C13', C, "            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {", "            let overflow = shared.increase_send_window_by(frame.header().credit());\n            if let Err(err) = overflow.or_else(|e| if is_finish { Ok(()) } else { Err(e) }) {")
m('p-ping-dup', 'C19', C, "                            Action::Ping(f) => {\n                                log::trace!(\"{}/{}: pong\", self.id, f.header().stream_id());\n                                self.pending_read_frames.push_back(f.into());", "                            Action::Ping(f) => {\n                                log::trace!(\"{}/{}: pong\", self.id, f.header().stream_id());\n                                let f: Frame<()> = f.into();\n                                if self.pending_read_frames.back().map(|g| g.header().len()) != Some(f.header().len()) {\n                                    self.pending_read_frames.push_back(f);\n                                }")
m('p-read-stale', 'C23 C07', S, "        // Copy data from stream buffer.\n        let mut shared = self.shared();", "        // Copy data from stream buffer.\n        let open = self.shared().state().can_read();\n        let mut shared = self.shared();", "        if n > 0 || buf.is_empty() {\n            log::trace!(\"{}/{}: read {} bytes\", self.conn, self.id, n);\n            return Poll::Ready(Ok(n));\n        }\n\n        // Buffer is empty, let's check if we can expect to read more data.\n        if !shared.state().can_read() {", "        if n > 0 || buf.is_empty() {\n            log::trace!(\"{}/{}: read {} bytes\", self.conn, self.id, n);\n            return Poll::Ready(Ok(n));\n        }\n\n        // Buffer is empty, let's check if we can expect to read more data.\n        if !open {")
m('p-pack-stale', 'C23', S, "        if let Some(bytes) = shared.buffer.pop() {", "        let head = shared.buffer.pop();\n        let open = shared.state().can_read();\n        drop(shared);\n        let mut shared = self.shared();\n        if let Some(bytes) = head {", "            return Poll::Ready(Some(Ok(Packet(vec))));\n        }\n\n        // Buffer is empty, let's check if we can expect to read more data.\n        if !shared.state().can_read() {", "            return Poll::Ready(Some(Ok(Packet(vec))));\n        }\n\n        // Buffer is empty, let's check if we can expect to read more data.\n        if !open {")
m('p-end-clear', 'C24 C10', C, "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n", "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n            if !shared.state().can_write() {\n                while shared.buffer.pop().is_some() {}\n            }\n")
m('p-eof-kind', 'C11', C, "                    Poll::Ready(None) => {\n                        return Poll::Ready(Err(ConnectionError::Closed));\n                    }\n                    Poll::Pending => {}", "                    Poll::Ready(None) if self.pending_write_frame.is_some() => {\n                        return Poll::Ready(Err(ConnectionError::Io(std::io::ErrorKind::UnexpectedEof.into())));\n                    }\n                    Poll::Ready(None) => {\n                        return Poll::Ready(Err(ConnectionError::Closed));\n                    }\n                    Poll::Pending => {}")
m('p-wu-sendclosed', 'C04', S, "        if !self.shared.lock().state.can_read() {\n            return Poll::Ready(());", "        if !matches!(self.shared.lock().state, State::Open { .. }) {\n            return Poll::Ready(());")
m('p-ping-again', 'C19', R, "            RttState::AwaitingPong { .. } => return None,", "            RttState::AwaitingPong { sent_at, .. } if sent_at.elapsed() < PING_INTERVAL * 3 => return None,\n            RttState::AwaitingPong { .. } => {}")
m('p-insert-early', 'C13 C18', C, "            if frame.body().len() > DEFAULT_CREDIT as usize {", "            if frame.body().len() > DEFAULT_CREDIT as usize {\n                let s = self.make_new_inbound_stream(stream_id, DEFAULT_CREDIT);\n                self.streams.insert(stream_id, s.clone_shared());")
m('p-rst-order', 'C09 C07', C, "                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {", "                let mut shared = s.lock();\n                let was = shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take().filter(|_| was.can_read()) {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take().filter(|_| was.can_read()) {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {")
m('p-limit-sticky', 'C18', C, "        let s = self.streams.remove(&stream_id).expect(\"stream not found\");", "        let Some(s) = self.streams.remove(&stream_id) else { return None };\n        if self.streams.len() + 1 == self.config.max_num_streams && s.lock().state() == State::Closed {\n            self.streams.insert(StreamId::new(u32::MAX - 1), s.clone());\n        }")
m('p-ack-fin', 'C16', C, "        if frame.header().flags().contains(header::ACK)\n            && matches!", "        if frame.header().flags().contains(header::ACK)\n            && !frame.header().flags().contains(header::FIN)\n            && matches!")
m('p-ack-rst-wake', 'C17', C, "            self.wake_new_outbound();\n        }\n\n        let action", "            if !frame.header().flags().contains(header::FIN) {\n                self.wake_new_outbound();\n            }\n        }\n\n        let action")
m('p-wu-split', 'C02', F, "        self.send_window = self\n            .send_window\n            .checked_add(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;\n        Ok(())", "        let old = self.send_window;\n        self.send_window = self\n            .send_window\n            .checked_add(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;\n        if old == 0 && i == DEFAULT_CREDIT {\n            self.send_window += 1;\n        }\n        Ok(())")
m('p-recv-reset', 'C04 C03', F, "        self.last_window_update = Instant::now();\n        self.receive_window += next_window_update;", "        self.last_window_update = Instant::now();\n        self.receive_window += next_window_update;\n        if buffer_len == 0 {\n            self.receive_window = self.max_receive_window;\n        } else {\n            self.receive_window -= 1;\n        }")
m('p-split-one', 'C14', S, "            let k = std::cmp::min(k, self.config.split_send_size);", "            let k = std::cmp::min(k, self.config.split_send_size + (k == self.config.split_send_size + 1) as usize);")
m('p-close-order', 'C10', CL, "                        Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {\n                            this.pending_frames\n                                .push_back(Frame::close_stream(id, ack).into());", "                        Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {\n                            this.pending_frames\n                                .push_front(Frame::close_stream(id, ack).into());")
m('p-eof-buffered', 'C11 C24', C, "            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n        }\n        self.wake_new_outbound();", "            if let Some(w) = shared.writer.take() {\n                w.wake()\n            }\n            if shared.buffer.len() > 100_000 {\n                shared.buffer.pop();\n            }\n        }\n        self.wake_new_outbound();")
m('p-poison', 'C11', IO, "                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),\n                    Poll::Ready(Ok(n)) => {\n                        if n == 0 {\n                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));\n                        }\n                        *offset += n;\n\n                        if *offset > buffer.len() {", "                    Poll::Ready(Err(e)) if *offset > 0 && e.kind() != io::ErrorKind::BrokenPipe => {\n                        this.write_state = WriteState::Init;\n                    }\n                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),\n                    Poll::Ready(Ok(n)) => {\n                        if n == 0 {\n                            return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));\n                        }\n                        *offset += n;\n\n                        if *offset > buffer.len() {")
m('p-read-int', 'C11', C, "                match self.socket.poll_next_unpin(cx) {\n                    Poll::Ready(Some(frame)) => {\n                        match self.on_frame(frame?)? {", "                match self.socket.poll_next_unpin(cx) {\n                    Poll::Ready(Some(Err(_))) if self.streams.is_empty() => {\n                        return Poll::Ready(Err(ConnectionError::Closed));\n                    }\n                    Poll::Ready(Some(frame)) => {\n                        match self.on_frame(frame?)? {")
m('p-backlog-closed', 'C17', C, "        if self.ack_backlog() >= MAX_ACK_BACKLOG {\n            log", "        if self.ack_backlog() >= MAX_ACK_BACKLOG && self.streams.len() <= MAX_ACK_BACKLOG + 1 {\n            log")
m('p-credit-open-fin', 'C02', C, "            let stream = self.make_new_inbound_stream(stream_id, credit);\n\n            if is_finish {", "            let stream = self.make_new_inbound_stream(stream_id, credit.min(1 << 31));\n\n            if is_finish {")
m('p-write-late', 'C23 C02', S, "            let k = std::cmp::min(shared.send_window() as usize, buf.len());", "            let w = shared.send_window();\n            drop(shared);\n            let mut shared = self.shared();\n            if !shared.state().can_write() && w > 1 << 20 {\n                return Poll::Ready(Ok(0));\n            }\n            let k = std::cmp::min(w as usize, buf.len());")
m('p-zero-register', 'C07 C23', S, "            if shared.send_window() == 0 {\n                log::trace!(\"{}/{}: no more credit left\", self.conn, self.id);\n                shared.writer = Some(cx.waker().clone());", "            if shared.send_window() == 0 {\n                log::trace!(\"{}/{}: no more credit left\", self.conn, self.id);\n                drop(shared);\n                self.shared().writer = Some(cx.waker().clone());")
m('p-drop-fin-first', 'C09 C08', C, "                    Poll::Ready(Some((id, None))) => {\n                        if let Some(frame) = self.on_drop_stream(id) {", "                    Poll::Ready(Some((id, None))) => {\n                        let busy = self.streams.len() > 3;\n                        if let Some(frame) = self.on_drop_stream(id).filter(|f| !busy || f.header().flags().contains(header::RST)) {")
m('p-goaway-drain', 'C11', C, "            Tag::GoAway => return Err(ConnectionError::Closed),", "            Tag::GoAway if !self.pending_read_frames.is_empty() => Action::None,\n            Tag::GoAway => return Err(ConnectionError::Closed),")
m('p-flush-when-empty', 'C21', C, "            match self.socket.poll_flush_unpin(cx)? {", "            if !self.pending_read_frames.is_empty() && self.pending_write_frame.is_none() {\n                let _ = self.socket.poll_ready_unpin(cx)?;\n            } else { match self.socket.poll_flush_unpin(cx)? {", "                Poll::Pending => {}\n            }\n\n            if self.pending_write_frame.is_none() {", "                Poll::Pending => {}\n            } }\n\n            if self.pending_write_frame.is_none() {")

# ---- a further group written from the statements of the properties
m('q-pack-off', 'C01', S, "            if off != 0 {", "            if off > 1 {")
m('q-consume-16', 'C02', S, "                .consume_send_window(k as u32)", "                .consume_send_window((k as u32).min(u16::MAX as u32))")
m('q-half-big', 'C04 C06', F, "        if next_window_update < self.max_receive_window / 2 {", "        let half = if self.max_receive_window > 4 * DEFAULT_CREDIT { self.max_receive_window } else { self.max_receive_window / 2 };\n        if next_window_update < half {")
m('q-reader-keep', 'C07 C23', S, "        // Since we have no more data at this point, we want to be woken up\n        // by the connection when more becomes available for us.\n        shared.reader = Some(cx.waker().clone());\n\n        Poll::Pending\n    }\n}\n\n// Like", "        if shared.reader.is_none() {\n            shared.reader = Some(cx.waker().clone());\n        }\n\n        Poll::Pending\n    }\n}\n\n// Like")
m('q-writer-keep', 'C07', S, "                shared.writer = Some(cx.waker().clone());\n                return Poll::Pending;", "                if shared.writer.is_none() {\n                    shared.writer = Some(cx.waker().clone());\n                }\n                return Poll::Pending;")
m('q-sender-keep', 'C07', S, "        shared.writer = Some(cx.waker().clone());\n        Poll::Pending\n    }\n\n    /// Send new credit", "        if shared.writer.is_none() {\n            shared.writer = Some(cx.waker().clone());\n        }\n        Poll::Pending\n    }\n\n    /// Send new credit")
m('q-opener-keep', 'C07 C17', C, "            self.new_outbound_stream_waker = Some(cx.waker().clone());", "            if self.new_outbound_stream_waker.is_none() {\n                self.new_outbound_stream_waker = Some(cx.waker().clone());\n            }")
m('q-nostreams-keep', 'C07', C, "                        self.no_streams_waker = Some(cx.waker().clone());", "                        if self.no_streams_waker.is_none() {\n                            self.no_streams_waker = Some(cx.waker().clone());\n                        }")
m('q-st-recv-send', 'C08', S, "            (RecvClosed, SendClosed) => self.state = Closed,", "            (RecvClosed, SendClosed) => self.state = SendClosed,")
m('q-st-send-recv', 'C08', S, "            (SendClosed, RecvClosed) => self.state = Closed,", "            (SendClosed, RecvClosed) => {}")
m('q-wufin-credit', 'C08 C07', C, "            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let", "            if is_finish && frame.header().credit() == 0 {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let")
m('q-fin-nowake', 'C07 C08', C, "            shared.buffer.push(frame.into_body());\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }", "            let empty = frame.body_len() == 0;\n            shared.buffer.push(frame.into_body());\n            if let Some(w) = shared.reader.take().filter(|_| !empty) {\n                w.wake()\n            }")
m('q-wurst-inbound', 'C09 C07', C, "        if frame.header().flags().contains(header::RST) {\n            // stream reset\n            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {", "        if frame.header().flags().contains(header::RST) {\n            // stream reset\n            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                } else if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {")
m('q-close-opener', 'C10 C07 C17', C, "        }\n        self.wake_new_outbound();\n    }", "        }\n    }")
m('q-flush-err', 'C11', C, "            match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }", "            match self.socket.poll_flush_unpin(cx) {\n                Poll::Ready(Err(e)) if self.pending_write_frame.is_none() => return Poll::Ready(Err(e.into())),\n                _ => {}\n            }")
m('q-open-err-twice', 'C11', C, "                ConnectionState::Cleanup(mut inner) => match inner.poll_unpin(cx) {\n                    Poll::Ready(e) => {\n                        self.inner = ConnectionState::Closed;\n                        return Poll::Ready(Err(e));", "                ConnectionState::Cleanup(mut inner) => match inner.poll_unpin(cx) {\n                    Poll::Ready(e) => {\n                        self.inner = ConnectionState::Poisoned;\n                        return Poll::Ready(Err(e));")
m('q-wu-dup', 'C13', C, "            if self.streams.contains_key(&stream_id) {\n                log::error!(\"{}/{}: stream already exists\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::protocol_error());", "            if self.streams.get(&stream_id).map_or(false, |s| s.lock().state().can_write()) {\n                log::error!(\"{}/{}: stream already exists\", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.len() == self.config.max_num_streams {\n                log::error!(\"{}: maximum number of streams reached\", self.id);\n                return Action::Terminate(Frame::protocol_error());")
m('q-wu-noack', 'C16', S, "        // The window update is as good an acknowledgement as a data frame, see `poll_write`.\n        if frame.header().flags().contains(ACK) {", "        // The window update is as good an acknowledgement as a data frame, see `poll_write`.\n        if frame.header().flags().contains(ACK) && credit > DEFAULT_CREDIT / 2 {")
m('q-backlog-sendclosed', 'C17', S, "        matches!(\n            self.state(),\n            State::Open {\n                acknowledged: false\n            }\n        )", "        matches!(\n            self.state(),\n            State::Open {\n                acknowledged: false\n            } | State::SendClosed\n        )")
m('q-limit-out', 'C18', C, "        if self.streams.len() >= self.config.max_num_streams {", "        let mode = self.mode;\n        if self.streams.len() >= self.config.max_num_streams\n            && self.streams.keys().any(|id| id.is_client() == matches!(mode, Mode::Client))\n        {")
m('q-chan-64', 'C20', C, "        let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound(", "        let (sender, receiver) = mpsc::channel(64);\n        self.stream_receivers.push(TaggedStream::new(id, receiver));\n        if let Some(waker) = self.no_streams_waker.take() {\n            waker.wake();\n        }\n\n        Stream::new_inbound(")
m('q-sender-clone', 'C20', S, "        if let Poll::Ready(result) = self.sender.poll_ready(cx) {", "        if !matches!(self.flag, Flag::None) || self.sender.poll_ready(cx).is_pending() {\n            self.sender = self.sender.clone();\n        }\n        if let Poll::Ready(result) = self.sender.poll_ready(cx) {")
m('q-read-burst', 'C22 C06 C21', C, "                        match self.on_frame(frame?)? {\n                            Action::None => {}", "                        let tag = frame.as_ref().ok().map(|f| f.header().tag());\n                        match self.on_frame(frame?)? {\n                            Action::None if matches!(tag, Some(Tag::WindowUpdate)) => {\n                                while let Poll::Ready(Some(frame)) = self.socket.poll_next_unpin(cx) {\n                                    match self.on_frame(frame?)? {\n                                        Action::None => {}\n                                        Action::New(stream) => return Poll::Ready(Ok(stream)),\n                                        Action::Ping(f) => {\n                                            self.pending_read_frames.push_back(f.into());\n                                            break;\n                                        }\n                                        Action::Terminate(f) => {\n                                            self.pending_read_frames.push_back(f.into());\n                                            break;\n                                        }\n                                    }\n                                }\n                            }\n                            Action::None => {}")
m('q-acc-race', 'C23 C05', F, "            // Account for the additional credit on the accumulated connection counter.\n            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n            drop(accumulated_max_stream_windows);", "            drop(accumulated_max_stream_windows);\n            *self.accumulated_max_stream_windows.lock() += (new_max - self.max_receive_window) as usize;")
m('q-rac-late', 'C24', S, "        if !self.config.read_after_close && self.sender.is_closed() {\n            return Poll::Ready(None);\n        }", "        if !self.config.read_after_close\n            && self.sender.is_closed()\n            && self.shared().buffer.len() == 0\n        {\n            return Poll::Ready(None);\n        }")
m('q-rac-state', 'C24 C09', S, "        if !self.config.read_after_close && self.sender.is_closed() {\n            return Poll::Ready(Ok(0));\n        }", "        if !self.config.read_after_close && (self.sender.is_closed() || self.is_closed()) {\n            return Poll::Ready(Ok(0));\n        }")
m('q-drop-nowriter', 'C07 C10 C11', C, "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w)", "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n            let prev = shared.update_state(self.id, id, State::Closed);\n            if prev == State::RecvClosed {\n                continue;\n            }\n            if let Some(w) = shared.reader.take() {\n                w.wake()\n            }\n            if let Some(w)")
m('q-drop-noreader', 'C07 C10 C11', C, "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n            shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take() {", "        for (id, s) in self.streams.drain() {\n            let mut shared = s.lock();\n            let prev = shared.update_state(self.id, id, State::Closed);\n            if let Some(w) = shared.reader.take().filter(|_| prev != State::SendClosed) {")
m('q-rst-half', 'C09', C, "            // stream reset\n            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                shared.update_state(self.id, stream_id, State::Closed);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {", "            // stream reset\n            if let Some(s) = self.streams.get_mut(&stream_id) {\n                let mut shared = s.lock();\n                let next = if shared.state() == State::SendClosed { State::RecvClosed } else if shared.state().can_read() { State::Closed } else { State::RecvClosed };\n                shared.update_state(self.id, stream_id, next);\n                if let Some(w) = shared.reader.take() {\n                    w.wake()\n                }\n                if let Some(w) = shared.writer.take() {\n                    w.wake()\n                }\n            }\n            return Action::None;\n        }\n\n        let is_finish = frame.header().flags().contains(header::FIN); // half-close\n\n        if frame.header().flags().contains(header::SYN) {\n            // new stream\n            if !self.is_valid_remote_id(stream_id, Tag::Data) {")
m('q-closing-pending-lost', 'C10 C01', C, "            .chain(self.pending_write_frame)\n            .collect", "            .chain(self.pending_write_frame.filter(|f| f.header().tag() == Tag::Data))\n            .collect")
m('q-rtt-once', 'C05', R, "        inner.rtt = Some(rtt);", "        inner.rtt = inner.rtt.or(Some(rtt));")
m('q-rtt-zero', 'C05', R, "        self.inner.lock().rtt\n", "        let inner = self.inner.lock();\n        inner.rtt.or(match inner.state {\n            RttState::AwaitingPong { sent_at, .. } => Some(sent_at.elapsed()),\n            _ => None,\n        })\n")
m('q-wu-unread', 'C04', F, "            next_window_update =\n                bytes_received.saturating_sub(buffer_len.try_into().unwrap_or(u32::MAX));", "            next_window_update = bytes_received\n                .saturating_sub(buffer_len.saturating_sub(1 << 16).try_into().unwrap_or(u32::MAX));")
m('q-first-body', 'C01 C08', C, "                if is_finish {\n                    shared.update_state(self.id, stream_id, State::RecvClosed);\n                }\n                if let Err(_err)", "                if is_finish && frame.body_len() > 0 {\n                    shared.update_state(self.id, stream_id, State::RecvClosed);\n                }\n                if let Err(_err)")
m('q-pong-order', 'C19', C, "                                log::trace!(\"{}/{}: pong\", self.id, f.header().stream_id());\n                                self.pending_read_frames.push_back(f.into());", "                                log::trace!(\"{}/{}: pong\", self.id, f.header().stream_id());\n                                if self.pending_read_frames.len() > 1 {\n                                    let last = self.pending_read_frames.pop_back().unwrap();\n                                    self.pending_read_frames.push_back(f.into());\n                                    self.pending_read_frames.push_back(last);\n                                    continue;\n                                }\n                                self.pending_read_frames.push_back(f.into());")
m('q-eof-partial-flush', 'C11', IO, "                            if *offset == 0 {\n                                return Poll::Ready(None);\n                            }", "                            if *offset == 0 || buffer[1] == 3 && *offset >= 8 {\n                                return Poll::Ready(None);\n                            }")
m('q-split-min', 'C14', S, "            let k = std::cmp::min(k, self.config.split_send_size);", "            let k = std::cmp::min(k, self.config.split_send_size);\n            let k = if buf.len() - k < 8 && buf.len() <= shared.send_window() as usize { buf.len() } else { k };")
