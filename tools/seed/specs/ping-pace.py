ID='ping-pace'
PROPERTY='C19'
NEEDS='a pong arriving late, followed by traffic less than ten seconds later'
BREAKS='The ping interval is counted from the moment the ping was sent instead of the pong'
EDITS=[('yamux/src/connection/rtt.rs', '            next: Instant::now() + PING_INTERVAL,\n', '            next: sent_at + PING_INTERVAL,\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = client(&net, Config::default());\n    drive(&mut c);\n    let p = net.frames()[0].clone();\n    check(p.ty == PING, "first ping");\n    std::thread::sleep(std::time::Duration::from_millis(10_300));\n    net.send(PING, ACK, 0, p.len, &[]);\n    drive(&mut c);\n    drive(&mut c);\n    check(net.frames().iter().filter(|f| f.ty == PING && f.flags & SYN != 0).count() == 1, "no ping right after the pong");\n}\n'
