ID='limit-closed'
PROPERTY='C18'
NEEDS='a handle that is kept although its stream is closed in both directions'
BREAKS='Streams closed in both directions, whose handles still exist, no longer count towards the limit of local opens'
EDITS=[('yamux/src/connection.rs', '        if self.streams.len() >= self.config.max_num_streams {\n            log::error!("{}: maximum number of streams reached", self.id);\n            return Poll::Ready(Err(ConnectionError::TooManyStreams));\n        }\n', '        let live = self.streams.values().filter(|s| s.lock().state() != State::Closed);\n        if live.count() >= self.config.max_num_streams {\n            log::error!("{}: maximum number of streams reached", self.id);\n            return Poll::Ready(Err(ConnectionError::TooManyStreams));\n        }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut cfg = Config::default();\n    cfg.set_max_num_streams(1);\n    let mut c = client(&net, cfg);\n    let mut s = open(&mut c);\n    check(close(&mut s).is_ready(), "closed");\n    drive(&mut c);\n    net.data(ACK | FIN, 1, b"bytes that were not read yet");\n    drive(&mut c);\n    check(s.is_closed(), "closed in both directions");\n    check(matches!(cx(|cx| c.poll_new_outbound(cx)), Poll::Ready(Err(_))), "the handle still takes its slot");\n}\n'
