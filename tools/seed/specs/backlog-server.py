ID='backlog-server'
PROPERTY='C17'
NEEDS='a server opening streams which the client does not acknowledge'
BREAKS='The backlog counts client-initiated streams in both modes: a server may open any number of unacknowledged streams'
EDITS=[('yamux/src/connection.rs', '            .filter(|(id, _)| match self.mode {\n                Mode::Client => id.is_client(),\n                Mode::Server => id.is_server(),\n            })\n            .filter(|(_, s)| s.lock().is_pending_ack())', '            .filter(|(id, _)| id.is_client())\n            .filter(|(_, s)| s.lock().is_pending_ack())')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    let mut v = vec![];\n    for _ in 0..256 {\n        v.push(open(&mut c));\n    }\n    check(cx(|cx| c.poll_new_outbound(cx)).is_pending(), "the 257th open waits");\n}\n'
