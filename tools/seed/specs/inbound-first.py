ID='inbound-first'
PROPERTY='C22'
NEEDS='a remote that keeps sending while local frames are queued'
BREAKS='Inbound frames are processed before frames of streams are taken, so a remote that keeps sending stops all outbound data'
EDITS=[('yamux/src/connection.rs', '            if self.pending_write_frame.is_none() {\n                match self.stream_receivers', '            if self.pending_write_frame.is_none() && !self.read_more {\n                match self.stream_receivers'), ('yamux/src/connection.rs', '                        match self.on_frame(frame?)? {\n                            Action::None => {}', '                        self.read_more = true;\n                        match self.on_frame(frame?)? {\n                            Action::None => {}'), ('yamux/src/connection.rs', '                        return Poll::Ready(Err(ConnectionError::Closed));\n                    }\n                    Poll::Pending => {}\n                }\n', '                        return Poll::Ready(Err(ConnectionError::Closed));\n                    }\n                    Poll::Pending => {\n                        if std::mem::take(&mut self.read_more) {\n                            continue;\n                        }\n                    }\n                }\n'), ('yamux/src/connection.rs', '    no_streams_waker: Option<Waker>,\n', '    no_streams_waker: Option<Waker>,\n    /// There may be more to read.\n    read_more: bool,\n'), ('yamux/src/connection.rs', '            no_streams_waker: None,\n', '            no_streams_waker: None,\n            read_more: false,\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nstatic NET: std::sync::Mutex<Option<Net>> = std::sync::Mutex::new(None);\n// the remote makes room as soon as its first frame is taken\nfn hook(m: &str) {\n    if m.contains("received:") {\n        if let Some(n) = NET.lock().unwrap().take() {\n            n.room(usize::MAX);\n        }\n    }\n}\nstatic HOOK: Hook = Hook(hook);\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    let _ = write(&mut s, b"x");\n    drive(&mut c);\n    net.room(0);\n    for b in ["one", "two", "data"] {\n        check(matches!(write(&mut s, b.as_bytes()), Poll::Ready(Ok(_))), "accepted");\n        drive(&mut c);\n    }\n    // a long run of inbound frames ending in one that must not be reached before our data was sent\n    for _ in 0..5000 {\n        net.send(WINDOW, 0, 1, 0, &[]);\n    }\n    net.send(GOAWAY, 0, 0, 0, &[]);\n    *NET.lock().unwrap() = Some(net.clone());\n    let _ = log::set_logger(&HOOK);\n    log::set_max_level(log::LevelFilter::Trace);\n    drive(&mut c);\n    log::set_max_level(log::LevelFilter::Off);\n    check(net.frames().iter().any(|f| f.body == b"data"), "queued data is sent in between");\n}\n'
