ID='stale-writer-waker'
PROPERTY='C07'
NEEDS='a writer polled again with another waker while it waits for credit'
BREAKS='Only the first waker of a writer waiting for credit is remembered, so a task that took over the write half is never woken'
EDITS=[('yamux/src/connection/stream.rs', '                log::trace!("{}/{}: no more credit left", self.conn, self.id);\n                shared.writer = Some(cx.waker().clone());\n', '                log::trace!("{}/{}: no more credit left", self.conn, self.id);\n                if shared.writer.is_none() {\n                    shared.writer = Some(cx.waker().clone());\n                }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {\n        drive(&mut c);\n    }\n    let (a, b) = (Count::new(), Count::new());\n    for w in [&a, &b] {\n        check(Pin::new(&mut s).poll_write(&mut Context::from_waker(&w.waker()), &[1]).is_pending(), "no credit");\n    }\n    net.send(WINDOW, ACK, 1, 10, &[]);\n    drive(&mut c);\n    check(b.get() > 0, "latest waker woken");\n}\n'
