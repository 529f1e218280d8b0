ID='ack-update'
PROPERTY='C16'
NEEDS='an accepted stream whose first frame is a window update'
BREAKS='The window update with which a purely reading application first uses an accepted stream carries no ACK'
EDITS=[('yamux/src/connection/stream.rs', '        let mut frame = Frame::window_update(self.id, credit).right();\n        self.add_flag(frame.header_mut());\n', '        let mut frame = Frame::window_update(self.id, credit).right();\n        if self.flag == Flag::Syn {\n            self.add_flag(frame.header_mut());\n        }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, &vec![1; 200_000]);\n    let (mut s, _) = drive(&mut c);\n    let mut s = s.remove(0);\n    let _ = read(&mut s, 200_000);\n    let _ = read(&mut s, 1);\n    drive(&mut c);\n    let f = net.frames().into_iter().find(|f| f.ty == WINDOW).unwrap();\n    check(f.flags & ACK != 0, "acknowledged by its first frame");\n}\n'
