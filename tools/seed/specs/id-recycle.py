ID='id-recycle'
PROPERTY='C15'
NEEDS='dropping the newest locally opened stream before it was acknowledged, while no other stream exists'
BREAKS='The id of a stream dropped before the remote acknowledged it is given to the next stream again'
EDITS=[('yamux/src/connection.rs', '        let s = self.streams.remove(&stream_id).expect("stream not found");\n\n        log::trace!("{}: removing dropped stream {}", self.id, stream_id);\n', '        let s = self.streams.remove(&stream_id).expect("stream not found");\n        let newest = stream_id.val().wrapping_add(2) == self.next_id;\n        if newest && self.streams.is_empty() && s.lock().is_pending_ack() {\n            // nobody knows about that stream yet\n            self.next_id = stream_id.val();\n        }\n\n        log::trace!("{}: removed dropped stream {}", self.id, stream_id);\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    let first = s.id();\n    drop(s);\n    drive(&mut c);\n    let t = open(&mut c);\n    check(t.id() != first, "ids are never reused");\n}\n'
