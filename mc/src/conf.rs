//! Configurations: every sequence of setter calls within the bound; a configuration whose limit does
//! not cover 256 KiB for each of its streams must be refused, any other must be honoured by a
//! connection that uses it.
use crate::ctx;
use crate::env::Cfg;
use crate::explore::{self, Kind, Scenario};
use crate::solo::{self, Id::*, Len::*, Op, Op::*, Solo};
use crate::wire::*;
use std::sync::Arc;
use yamux::Config;

#[derive(Clone, Copy, Debug)]
pub enum Set {
    Limit(Option<usize>),
    Streams(usize),
    Split(usize),
    Rac(bool),
}
use Set::*;

const K: usize = 256 * 1024;

fn setters() -> Vec<Set> {
    let mut v = vec![];
    for l in [0, K - 1, K, 2 * K - 1, 2 * K, 2 * K + 300_000, 3 * K, 512 * K - 1, 512 * K, 1 << 30, usize::MAX - 1] {
        v.push(Limit(Some(l)));
    }
    v.push(Limit(None));
    for n in [0, 1, 2, 3, 512, 4096, 4097, (1 << 46) - 1, 1 << 46, (1 << 46) + 1, usize::MAX] {
        v.push(Streams(n));
    }
    v.push(Split(10));
    v.push(Rac(false));
    v
}

pub fn scenario(client: bool, calls: usize, depth: usize) -> Scenario {
    let name = format!("conf/{}", if client { "c" } else { "s" });
    let n = name.clone();
    let body = move || {
        let set = setters();
        let mut c = Config::default();
        let (mut limit, mut streams, mut split, mut rac) = (Some(1usize << 30), 512usize, 16 * 1024usize, true);
        for _ in 0..calls {
            let k = ctx::choose(set.len() + 1);
            if k == 0 {
                break;
            }
            let s = set[k - 1];
            match s {
                Limit(l) => limit = l,
                Streams(n) => streams = n,
                Split(n) => split = n,
                Rac(b) => rac = b,
            }
            ctx::step();
            let refused = explore::expect_panic(|| {
                match s {
                    Limit(l) => c.set_max_connection_receive_window(l),
                    Streams(n) => c.set_max_num_streams(n),
                    Split(n) => c.set_split_send_size(n),
                    Rac(b) => c.set_read_after_close(b),
                };
            });
            let illegal = limit.map(|l| (l as u128) < streams as u128 * K as u128).unwrap_or(false);
            ctx::note(|| format!("{s:?}: limit {limit:?}, {streams} streams, refused {refused}"));
            if refused != illegal {
                ctx::fail("config.check", &["C05", "C18"], || {
                    format!("a receive window limit of {limit:?} bytes for {streams} streams was {}", if refused { "refused" } else { "accepted" })
                });
            }
            ctx::outcome(illegal as u64);
            if refused || illegal || ctx::over() {
                return;
            }
        }
        let cfg = Cfg { client, max_streams: streams, slack: None, default_limit: false, rac, split, fixed: Some((limit, c)), first_id: None, kind: None };
        const G0: Op = Multi(&[Data(S(0), 0, Credit(0)), Drain(0)]);
        const G1: Op = Multi(&[Data(S(1), 0, Credit(0)), Drain(1)]);
        let sc = Solo::new(&n, cfg, &[G0, G1, Write(0, 25), Open, Data(Fresh, SYN, Abs(3)), Drop(0), Eof], depth)
            .prelude(&[OpenWrite(1), Advance(100), Pong, Data(Fresh, SYN, Abs(0))])
            .exact()
            .slots(5);
        solo::run(&sc);
    };
    Scenario { name, body: Arc::new(body), kind: Kind::Dfs { max_dev: 0, depth }, weight: 1.0 }
}
