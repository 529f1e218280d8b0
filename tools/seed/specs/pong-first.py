ID='pong-first'
PROPERTY='C06'
NEEDS='a ping arriving while both directions of the transport are full'
BREAKS='An endpoint with an unanswered ping stops reading until its transport takes more, two such endpoints block each other for ever'
EDITS=[('yamux/src/connection.rs', '                Poll::Ready(()) => {}\n                Poll::Pending => {}\n            }\n\n            if self.pending_write_frame', '                Poll::Ready(()) => {}\n                Poll::Pending if self.pending_read_frames.is_empty() => {}\n                Poll::Pending => return Poll::Pending, // the answers go first\n            }\n\n            if self.pending_write_frame')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    net.room(5);\n    // the remote takes more only once we took what it has sent\n    let _ = write(&mut s, b"waiting");\n    drive(&mut c);\n    net.send(PING, SYN, 0, 77, &[]);\n    net.data(ACK, 1, b"hello");\n    drive(&mut c);\n    check(net.0.lock().unwrap().rx.is_empty(), "what arrives is read while writing is blocked");\n    check(matches!(read(&mut s, 10), Poll::Ready(Ok(v)) if v == b"hello"), "and delivered");\n}\n'
