ID='packet-offset'
PROPERTY='C01'
NEEDS='mixing byte reads and packet reads on one stream'
BREAKS='A packet read after a partial byte read yields the bytes already read again'
EDITS=[('yamux/src/connection/stream.rs', '                vec = vec.split_off(off)\n', '                vec.shrink_to_fit()\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, b"hello");\n    let (mut s, _) = drive(&mut c);\n    let mut s = s.remove(0);\n    check(matches!(read(&mut s, 2), Poll::Ready(Ok(v)) if v == b"he"), "two bytes");\n    match cx(|cx| s.poll_next_unpin(cx)) {\n        Poll::Ready(Some(Ok(p))) => check(p.as_ref() == b"llo", "the rest"),\n        x => check(false, &format!("{x:?}")),\n    }\n}\n'
