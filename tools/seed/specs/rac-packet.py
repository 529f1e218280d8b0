ID='rac-packet'
PROPERTY='C24'
NEEDS='reading packets of a stream after the end with reading after close disabled'
BREAKS='With read_after_close disabled the packet interface still yields buffered data after the end'
EDITS=[('yamux/src/connection/stream.rs', '    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        if !self.config.read_after_close && self.sender.is_closed() {\n            return Poll::Ready(None);\n        }\n\n', '    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut cfg = Config::default();\n    cfg.set_read_after_close(false);\n    let mut c = server(&net, cfg);\n    net.data(SYN, 1, b"hello");\n    let (mut s, _) = drive(&mut c);\n    drop(c);\n    let mut s = s.remove(0);\n    check(matches!(cx(|cx| s.poll_next_unpin(cx)), Poll::Ready(None)), "nothing is yielded after the end");\n}\n'
