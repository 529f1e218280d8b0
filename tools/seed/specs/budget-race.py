ID='budget-race'
PROPERTY='C05'
NEEDS='two streams of one connection growing their windows on two threads at the same time'
BREAKS='The shared budget is read and charged in two separate critical sections, so concurrent growth exceeds the connection limit'
EDITS=[('yamux/src/connection/stream/flow_control.rs', '            // Account for the additional credit on the accumulated connection counter.\n            *accumulated_max_stream_windows += (new_max - self.max_receive_window) as usize;\n            drop(accumulated_max_stream_windows);\n', '            drop(accumulated_max_stream_windows);\n'), ('yamux/src/connection/stream/flow_control.rs', '                new_max as f64 / crate::MIB as f64\n            );\n\n            self.max_receive_window = new_max;\n', '                new_max as f64 / crate::MIB as f64\n            );\n\n            // Account for the additional credit on the accumulated connection counter.\n            *self.accumulated_max_stream_windows.lock() +=\n                (new_max - self.max_receive_window) as usize;\n            self.max_receive_window = new_max;\n'), ('yamux/src/connection/stream/flow_control.rs', 'let mut accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally', 'let accumulated_max_stream_windows = self.accumulated_max_stream_windows.lock();\n\n            // Ideally')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nuse std::sync::atomic::{AtomicUsize, Ordering::SeqCst};\nstatic IN: AtomicUsize = AtomicUsize::new(0);\n// the first thread to compute a new maximum waits for the other one\nfn hook(m: &str) {\n    if m.contains("new window_max") {\n        IN.fetch_add(1, SeqCst);\n        let t = std::time::Instant::now();\n        while IN.load(SeqCst) < 2 && t.elapsed().as_secs() < 2 {\n            std::thread::yield_now();\n        }\n    }\n}\nstatic HOOK: Hook = Hook(hook);\nfn main() {\n    let net = Net::new();\n    let mut cfg = Config::default();\n    cfg.set_max_num_streams(2).set_max_connection_receive_window(Some(2 * 262144 + 262144));\n    let mut c = client(&net, cfg);\n    let mut a = open(&mut c);\n    let mut b = open(&mut c);\n    let _ = (write(&mut a, b"x"), write(&mut b, b"x"));\n    drive(&mut c);\n    let ping = net.frames().into_iter().find(|f| f.ty == PING).unwrap();\n    std::thread::sleep(std::time::Duration::from_secs(3));\n    net.send(PING, ACK, 0, ping.len, &[]);\n    for id in [1, 3] {\n        net.data(ACK, id, &vec![7; 200_000]);\n    }\n    drive(&mut c);\n    let _ = log::set_logger(&HOOK);\n    log::set_max_level(log::LevelFilter::Debug);\n    let t: Vec<_> = [a, b].into_iter().map(|mut s| std::thread::spawn(move || {\n        let _ = read(&mut s, 200_000);\n        let _ = read(&mut s, 1);\n        s\n    })).collect();\n    let keep: Vec<_> = t.into_iter().map(|t| t.join()).collect();\n    log::set_max_level(log::LevelFilter::Off);\n    check(keep.iter().all(|k| k.is_ok()), "no panic");\n    drive(&mut c);\n    let granted: u32 = net.frames().iter().filter(|f| f.ty == WINDOW).map(|f| f.len).sum();\n    println!("granted {granted}");\n    check(granted <= 400_000 + 262144, "both windows stay within the connection limit");\n}\n'
