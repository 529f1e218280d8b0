ID='chunks-len'
PROPERTY='C04'
NEEDS='reading a large chunk in several pieces'
BREAKS='Bytes already read from a partly consumed chunk still count as buffered, so credit is withheld from the sender'
EDITS=[('yamux/src/chunks.rs', '        self.len - self.seq.front().map(|c| c.offset()).unwrap_or(0)\n', '        self.len\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.data(SYN, 1, &vec![1; 262_144]);\n    let (mut s, _) = drive(&mut c);\n    let mut s = s.remove(0);\n    for _ in 0..3 {\n        let _ = read(&mut s, 87_000);\n    }\n    drive(&mut c);\n    let n: u32 = net.frames().iter().filter(|f| f.ty == WINDOW).map(|f| f.len).sum();\n    check(n >= 131_072, "credit is returned while reading");\n}\n'
