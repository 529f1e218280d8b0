ID='drop-recvclosed'
PROPERTY='C09'
NEEDS='dropping a stream after the remote closed its half'
BREAKS='Dropping a stream that already received FIN sends nothing, the remote never learns that its reads are over'
EDITS=[('yamux/src/connection.rs', '                State::RecvClosed => {\n                    let mut header = Header::data(stream_id, 0);\n                    header.fin();\n                    Some(Frame::new(header))\n                }\n', '                State::RecvClosed => None,\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    net.data(ACK | FIN, 1, b"bye");\n    drive(&mut c);\n    drop(s);\n    drive(&mut c);\n    check(net.frames().iter().any(|f| f.id == 1 && f.flags & (FIN | RST) != 0), "the remote is told");\n}\n'
