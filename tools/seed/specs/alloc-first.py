ID='alloc-first'
PROPERTY='C12'
NEEDS='a data frame announcing a body of more than 1 MiB'
BREAKS='Memory for the whole announced body, up to 4 GiB, is allocated before the frame is refused'
EDITS=[('yamux/src/frame/io.rs', '                        if body_len > MAX_FRAME_BODY_LEN {\n                            return Poll::Ready(Some(Err(FrameDecodeError::FrameTooLarge(\n                                body_len,\n                            ))));\n                        }\n\n                        this.read_state = ReadState::Body {\n                            header,\n                            offset: 0,\n                            buffer: vec![0; body_len],\n                        };\n', '                        let body = vec![0; body_len];\n                        if body.len() > MAX_FRAME_BODY_LEN {\n                            return Poll::Ready(Some(Err(FrameDecodeError::FrameTooLarge(\n                                body_len,\n                            ))));\n                        }\n\n                        this.read_state = ReadState::Body {\n                            header,\n                            offset: 0,\n                            buffer: body,\n                        };\n')]
DEMO='mod util;\nuse util::*;\nuse futures::prelude::*;\nuse std::pin::Pin;\nuse std::task::{Context, Poll};\nuse yamux::Config;\n#[allow(unused)]\nfn _u(_: &mut Context<\'_>) { let _ = futures::future::ready(()).now_or_never(); let _: Option<Pin<&mut u8>> = None; let _: Poll<()> = Poll::Pending; }\n\nuse std::alloc::{GlobalAlloc, Layout, System};\nuse std::sync::atomic::{AtomicUsize, Ordering};\nstatic MAX: AtomicUsize = AtomicUsize::new(0);\nstruct Watch;\nunsafe impl GlobalAlloc for Watch {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 {\n        MAX.fetch_max(l.size(), Ordering::SeqCst);\n        System.alloc(l)\n    }\n    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {\n        MAX.fetch_max(l.size(), Ordering::SeqCst);\n        System.alloc_zeroed(l)\n    }\n    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {\n        System.dealloc(p, l)\n    }\n}\n#[global_allocator]\nstatic A: Watch = Watch;\n\nfn main() {\n    let net = Net::new();\n    let mut c = server(&net, Config::default());\n    net.send(DATA, SYN, 1, 64 << 20, &[]);\n    let (_, e) = drive(&mut c);\n    check(matches!(e, End::Error(_)), "refused");\n    check(MAX.load(Ordering::SeqCst) <= 2 << 20, "without allocating the body");\n}\n'
