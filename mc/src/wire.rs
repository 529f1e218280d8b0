//! Independent yamux wire format: header encoding, incremental parser, payload pattern.
use std::sync::OnceLock;

pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;

pub const CREDIT: u64 = 256 * 1024;
pub const MAX_BODY: u32 = 1024 * 1024;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hdr {
    pub ver: u8,
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
}

impl Hdr {
    pub fn new(ty: u8, flags: u16, id: u32, len: u32) -> Self {
        Hdr { ver: 0, ty, flags, id, len }
    }
    pub fn enc(&self) -> [u8; 12] {
        let mut b = [0; 12];
        b[0] = self.ver;
        b[1] = self.ty;
        b[2..4].copy_from_slice(&self.flags.to_be_bytes());
        b[4..8].copy_from_slice(&self.id.to_be_bytes());
        b[8..12].copy_from_slice(&self.len.to_be_bytes());
        b
    }
    pub fn dec(b: &[u8; 12]) -> Self {
        Hdr {
            ver: b[0],
            ty: b[1],
            flags: u16::from_be_bytes([b[2], b[3]]),
            id: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
            len: u32::from_be_bytes([b[8], b[9], b[10], b[11]]),
        }
    }
    pub fn show(&self) -> String {
        let t = match self.ty {
            DATA => "Data".to_string(),
            WINDOW => "Window".to_string(),
            PING => "Ping".to_string(),
            GOAWAY => "GoAway".to_string(),
            x => format!("Type{x}"),
        };
        let mut f = String::new();
        for (b, n) in [(SYN, "SYN"), (ACK, "ACK"), (FIN, "FIN"), (RST, "RST")] {
            if self.flags & b != 0 {
                if !f.is_empty() {
                    f.push('|')
                }
                f.push_str(n)
            }
        }
        if self.flags & !15 != 0 {
            f.push_str(&format!("|{:#x}", self.flags & !15));
        }
        format!("{}{}(id={} len={}{})", t, if self.ver != 0 { format!("v{}", self.ver) } else { String::new() }, self.id, self.len, if f.is_empty() { f } else { format!(" {f}") })
    }
}

#[derive(Default, Clone)]
pub struct Parser {
    hbuf: [u8; 12],
    hlen: usize,
    cur: Option<Hdr>,
    pub body: Vec<u8>,
}

pub enum Ev<'a> {
    /// A header was completed (before any body byte).
    Header(Hdr),
    Frame(Hdr, &'a [u8]),
}

impl Parser {
    /// True between frames.
    pub fn at_boundary(&self) -> bool {
        self.hlen == 0 && self.cur.is_none()
    }
    pub fn in_body(&self) -> Option<Hdr> {
        self.cur
    }
    pub fn partial(&self) -> usize {
        self.hlen + self.body.len()
    }
    /// Feed bytes; the callback returns false to stop parsing (undecodable stream).
    pub fn feed(&mut self, mut b: &[u8], mut f: impl FnMut(Ev<'_>) -> bool) {
        loop {
            match self.cur {
                None => {
                    if b.is_empty() {
                        return;
                    }
                    let n = (12 - self.hlen).min(b.len());
                    self.hbuf[self.hlen..self.hlen + n].copy_from_slice(&b[..n]);
                    self.hlen += n;
                    b = &b[n..];
                    if self.hlen < 12 {
                        return;
                    }
                    let h = Hdr::dec(&self.hbuf);
                    self.hlen = 0;
                    if !f(Ev::Header(h)) {
                        return;
                    }
                    if h.ty != DATA || h.len == 0 {
                        if !f(Ev::Frame(h, &[])) {
                            return;
                        }
                    } else {
                        self.cur = Some(h);
                        self.body.clear();
                    }
                }
                Some(h) => {
                    let need = h.len as usize - self.body.len();
                    if self.body.is_empty() && b.len() >= need {
                        self.cur = None;
                        let (x, y) = b.split_at(need);
                        b = y;
                        if !f(Ev::Frame(h, x)) {
                            return;
                        }
                        continue;
                    }
                    if b.is_empty() {
                        return;
                    }
                    let n = need.min(b.len());
                    self.body.extend_from_slice(&b[..n]);
                    b = &b[n..];
                    if self.body.len() == h.len as usize {
                        self.cur = None;
                        let body = std::mem::take(&mut self.body);
                        let go = f(Ev::Frame(h, &body));
                        self.body = body;
                        self.body.clear();
                        if !go {
                            return;
                        }
                    }
                }
            }
        }
    }
}

const PERIOD: usize = 1 << 20;
static TABLE: OnceLock<Vec<u8>> = OnceLock::new();

fn table() -> &'static [u8] {
    TABLE.get_or_init(|| {
        let mut x: u64 = 0x1234_5678_9abc_def1;
        let mut v = Vec::with_capacity(PERIOD * 3);
        for _ in 0..PERIOD / 8 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.extend_from_slice(&x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
        }
        let w = v.clone();
        v.extend_from_slice(&w);
        v.extend_from_slice(&w);
        v
    })
}

/// The bytes endpoint `side` sends on stream `id` from position `pos` on (`len` <= 1 MiB).
/// Every (side, stream) has its own position-dependent content.
pub fn pat(side: u8, id: u32, pos: u64, len: usize) -> &'static [u8] {
    assert!(len <= PERIOD + 4096);
    let base = (side as usize * 500_009 + id as usize * 7_919) % PERIOD;
    let o = (base + (pos % PERIOD as u64) as usize) % PERIOD;
    &table()[o..o + len]
}
