ID='wu-limit'
PROPERTY='C18'
NEEDS='remote opens by window update beyond the stream limit'
BREAKS='Streams opened by a window update are not counted against max_num_streams'
EDITS=[('yamux/src/connection.rs', '            if self.streams.len() == self.config.max_num_streams {\n                log::error!("{}: maximum number of streams reached", self.id);\n                return Action::Terminate(Frame::protocol_error());\n            }\n\n', '')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut cfg = Config::default();\n    cfg.set_max_num_streams(2);\n    let mut c = server(&net, cfg);\n    net.send(WINDOW, SYN, 1, 0, &[]);\n    net.data(SYN, 3, b"x");\n    net.send(WINDOW, SYN, 5, 0, &[]);\n    let (s, _) = drive(&mut c);\n    check(s.len() == 2, "two streams at most");\n}\n'
