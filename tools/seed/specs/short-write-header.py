ID='short-write-header'
PROPERTY='C14'
NEEDS='a transport accepting part of a frame header'
BREAKS='After a short write of a header the rest of the header is taken for complete when the frame has no body'
EDITS=[('yamux/src/frame/io.rs', '                        if *offset == header.len() {\n                            if !buffer.is_empty() {', '                        if *offset == header.len() || (buffer.is_empty() && *offset >= 8) {\n                            if !buffer.is_empty() {')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    net.room(9);\n    drive(&mut c);\n    net.room(usize::MAX);\n    drive(&mut c);\n    check(net.0.lock().unwrap().tx.len() == 12, "the ping is sent completely");\n}\n'
