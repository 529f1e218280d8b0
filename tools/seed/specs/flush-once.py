ID='flush-once'
PROPERTY='C21'
NEEDS='a buffering transport whose flush is pending when the last frame of a burst was written'
BREAKS='A flush that was pending is not repeated unless a frame was sent in the meantime'
EDITS=[('yamux/src/connection.rs', "    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {\n        loop {\n", "    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {\n        let mut dirty = false;\n        loop {\n"), ('yamux/src/connection.rs', '                if let Some(frame) = self.rtt.next_ping() {\n                    self.socket.start_send_unpin(frame.into())?;\n                    continue;\n                }\n', '                if let Some(frame) = self.rtt.next_ping() {\n                    self.socket.start_send_unpin(frame.into())?;\n                    dirty = true;\n                    continue;\n                }\n'), ('yamux/src/connection.rs', '                    self.socket.start_send_unpin(frame)?;\n                    continue;\n                }\n            }\n\n            match self.socket.poll_flush_unpin(cx)? {\n                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }\n', '                    self.socket.start_send_unpin(frame)?;\n                    dirty = true;\n                    continue;\n                }\n            }\n\n            if dirty && self.socket.poll_flush_unpin(cx)?.is_ready() {\n                dirty = false;\n            }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    net.flush_blocked(true);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    net.flush_blocked(false);\n    drive(&mut c);\n    let i = net.0.lock().unwrap();\n    check(i.flushed == i.tx.len(), "everything is flushed");\n}\n'
