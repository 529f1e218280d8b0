ID='credit-lost-wakeup'
PROPERTY='C23'
NEEDS='credit arriving from another thread between the check for credit and the registration of the waker'
BREAKS='A writer that found no credit registers its waker after releasing the lock; credit arriving in between never wakes it'
EDITS=[('yamux/src/connection/stream.rs', '            if shared.send_window() == 0 {\n                log::trace!("{}/{}: no more credit left", self.conn, self.id);\n                shared.writer = Some(cx.waker().clone());\n                return Poll::Pending;\n            }\n', '            if shared.send_window() == 0 {\n                drop(shared);\n                log::trace!("{}/{}: no more credit left", self.conn, self.id);\n                self.shared().writer = Some(cx.waker().clone());\n                return Poll::Pending;\n            }\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nuse std::sync::Mutex;\nstatic CONN: Mutex<Option<(Conn, Net)>> = Mutex::new(None);\nfn hook(m: &str) {\n    if m.contains("no more credit left") {\n        if let Some((mut c, net)) = CONN.lock().unwrap().take() {\n            // another thread gives credit right now\n            let t = std::thread::spawn(move || {\n                net.send(WINDOW, ACK, 1, 10, &[]);\n                drive(&mut c);\n                Box::leak(Box::new(c));\n            });\n            let s = std::time::Instant::now();\n            while !t.is_finished() && s.elapsed().as_millis() < 1000 {\n                std::thread::yield_now();\n            }\n        }\n    }\n}\nstatic HOOK: Hook = Hook(hook);\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    let mut s = open(&mut c);\n    while let Poll::Ready(Ok(_)) = write(&mut s, &[1; 16384]) {\n        drive(&mut c);\n    }\n    *CONN.lock().unwrap() = Some((c, net));\n    let _ = log::set_logger(&HOOK);\n    log::set_max_level(log::LevelFilter::Trace);\n    let w = Count::new();\n    check(Pin::new(&mut s).poll_write(&mut Context::from_waker(&w.waker()), &[1]).is_pending(), "no credit");\n    log::set_max_level(log::LevelFilter::Off);\n    std::thread::sleep(std::time::Duration::from_millis(1500));\n    check(w.get() > 0, "woken by the credit");\n}\n'
