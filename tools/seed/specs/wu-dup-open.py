ID='wu-dup-open'
PROPERTY='C13'
NEEDS='a window update with SYN for an id that is already in use'
BREAKS='A second open of a live stream through a window update replaces the stream instead of being refused'
EDITS=[('yamux/src/connection.rs', '            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {\n                log::error!("{}: invalid stream id {}", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if self.streams.contains_key(&stream_id) {\n                log::error!("{}/{}: stream already exists", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n', '            if !self.is_valid_remote_id(stream_id, Tag::WindowUpdate) {\n                log::error!("{}: invalid stream id {}", self.id, stream_id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, b"hello");\n    let (a, _) = drive(&mut c);\n    net.send(WINDOW, SYN, 1, 0, &[]);\n    let (b, _) = drive(&mut c);\n    check(a.len() == 1 && b.is_empty(), "no second stream");\n    check(net.frames().iter().any(|f| f.ty == GOAWAY && f.len != 0), "refused");\n}\n'
