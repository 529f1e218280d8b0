ID='send-window-frame'
PROPERTY='C03'
NEEDS='a first data frame bigger than the window left by earlier data of the same stream'
BREAKS='Data frames of at most one split size are accepted although the window is exhausted'
EDITS=[('yamux/src/connection/stream/flow_control.rs', '        self.receive_window = self\n            .receive_window\n            .checked_sub(i)\n            .ok_or(ConnectionError::InvalidWindowUpdate)?;\n        Ok(())', '        if i > self.receive_window && i > self.config.split_send_size as u32 {\n            return Err(ConnectionError::InvalidWindowUpdate);\n        }\n        self.receive_window = self.receive_window.saturating_sub(i);\n        Ok(())')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, &vec![1; 262_144]);\n    let (_s, _) = drive(&mut c);\n    net.data(0, 1, &[1; 100]);\n    drive(&mut c);\n    check(net.frames().iter().any(|f| f.ty == GOAWAY && f.len != 0), "excess data is refused");\n}\n'
