ID='eof-in-body'
PROPERTY='C11'
NEEDS='the transport ending between a frame header and its body'
BREAKS='An end-of-file directly after the header of a data frame is reported as a clean end of the connection'
EDITS=[('yamux/src/frame/io.rs', '                    let buf = &mut buffer[*offset..body_len];\n                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {\n                        0 => {\n', '                    let buf = &mut buffer[*offset..body_len];\n                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {\n                        0 => {\n                            if *offset == 0 {\n                                return Poll::Ready(None);\n                            }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, b"hello");\n    drive(&mut c);\n    net.send(DATA, 0, 1, 5, &[]);\n    net.eof();\n    check(matches!(drive(&mut c).1, End::Error(_)), "a truncated frame is an error");\n}\n'
