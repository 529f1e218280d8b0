ID='close-blocked-frame'
PROPERTY='C10'
NEEDS='closing the connection while a frame taken from a stream waits for a blocked transport'
BREAKS='A frame already taken out of its stream but not yet handed to the transport is lost by a graceful close'
EDITS=[('yamux/src/connection.rs', '            .into_iter()\n            .chain(self.pending_write_frame)\n            .collect::<VecDeque<Frame<()>>>();\n', '            .into_iter()\n            .collect::<VecDeque<Frame<()>>>();\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"a");\n    drive(&mut c);\n    net.room(0);\n    for b in [b"b", b"c", b"d"] {\n        check(matches!(write(&mut s, b), Poll::Ready(Ok(1))), "accepted");\n        drive(&mut c);\n    }\n    check(cx(|cx| c.poll_close(cx)).is_pending(), "blocked");\n    net.room(usize::MAX);\n    check(matches!(cx(|cx| c.poll_close(cx)), Poll::Ready(Ok(()))), "closed");\n    let got: Vec<u8> = net.frames().into_iter().filter(|f| f.ty == DATA).flat_map(|f| f.body).collect();\n    check(got == b"abcd", "all accepted data is transmitted");\n}\n'
