ID='deep-queue'
PROPERTY='C20'
NEEDS='writing while the transport accepts nothing'
BREAKS='The queue of a locally opened stream holds as many frames as there may be streams'
EDITS=[('yamux/src/connection.rs', '    fn make_new_outbound_stream(&mut self, id: StreamId) -> Stream {\n        let config = self.config.clone();\n\n        let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.\n', '    fn make_new_outbound_stream(&mut self, id: StreamId) -> Stream {\n        let config = self.config.clone();\n\n        let (sender, receiver) = mpsc::channel(config.max_num_streams);\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    net.room(0);\n    let mut n = 0;\n    while n < 100 && matches!(write(&mut s, b"y"), Poll::Ready(Ok(1))) {\n        n += 1;\n        drive(&mut c);\n    }\n    check(n <= 16, "writes wait while nothing is sent");\n}\n'
