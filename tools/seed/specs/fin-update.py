ID='fin-update'
PROPERTY='C08'
NEEDS='the remote closing its half by a window update after the own half was closed'
BREAKS='The end of a stream carried by a window update is missed once the own half is closed, readers wait for ever'
EDITS=[('yamux/src/connection.rs', '            if is_finish {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let Some(w) = shared.reader.take() {\n', '            if is_finish && shared.state().can_write() {\n                shared.update_state(self.id, stream_id, State::RecvClosed);\n\n                if let Some(w) = shared.reader.take() {\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    check(close(&mut s).is_ready(), "closed");\n    drive(&mut c);\n    net.data(ACK, 1, b"all of it");\n    net.send(WINDOW, FIN, 1, 0, &[]);\n    drive(&mut c);\n    check(matches!(read(&mut s, 100), Poll::Ready(Ok(v)) if v == b"all of it"), "read before the end");\n    check(matches!(read(&mut s, 100), Poll::Ready(Ok(v)) if v.is_empty()), "the end is seen");\n}\n'
