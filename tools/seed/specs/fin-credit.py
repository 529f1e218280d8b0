ID='fin-credit'
PROPERTY='C02'
NEEDS='a window update that carries both credit and FIN'
BREAKS='Credit granted by the frame with which the remote half-closes is ignored, the writer stalls for ever'
EDITS=[('yamux/src/connection.rs', '            if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {\n                log::error!(\n                    "{}/{}: could not increase the send window, {err}",\n                    self.id,\n                    stream_id\n                );\n                return Action::Terminate(Frame::protocol_error());\n            }\n            if is_finish {\n', '            if !is_finish {\n                if let Err(err) = shared.increase_send_window_by(frame.header().credit()) {\n                    log::error!(\n                        "{}/{}: could not increase the send window, {err}",\n                        self.id,\n                        stream_id\n                    );\n                    return Action::Terminate(Frame::protocol_error());\n                }\n            } else {\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let mut n = 0;\n    while let Poll::Ready(Ok(k)) = write(&mut s, &[1; 16384]) {\n        n += k;\n        drive(&mut c);\n    }\n    check(n == 262144, "initial credit");\n    net.send(WINDOW, ACK | FIN, 1, 100, &[]);\n    drive(&mut c);\n    check(matches!(write(&mut s, &[1; 200]), Poll::Ready(Ok(100))), "credit arriving with FIN is usable");\n}\n'
