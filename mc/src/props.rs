//! The scenarios and the properties they decide.
use crate::env::Cfg;
use crate::explore::Scenario;
use crate::solo::{Epilogue as E, Id::*, Len::*, Op::*, *};
use crate::wire::*;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Entry {
    pub sc: Scenario,
    pub props: &'static [&'static str],
}

fn roles() -> [(&'static str, Cfg); 2] {
    [("c", Cfg::client()), ("s", Cfg::server())]
}

pub fn registry(t: Tier) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let q = t == Tier::Quick;
    let d = |a: usize, b: usize| if q { a } else { b };
    let mut add = |s: Solo, props: &'static [&'static str]| v.push(Entry { sc: s.scenario(), props });

    for (r, cfg) in roles() {
        // --- opening and acknowledging
        add(
            Solo::new(
                &format!("handshake/{r}"),
                cfg.clone(),
                &[
                    Open, OpenWrite(3), OpenClose, OpenDrop, Write(0, 1), Drain(0), Close(0), Drop(0), WriteDrop(0, 2), Data(S(0), ACK, Abs(1)), Wu(S(0), ACK, Abs(0)),
                    Data(Fresh, SYN, Abs(1)), Wu(Fresh, SYN, Abs(5)), Data(Fresh, SYN | FIN, Abs(2)), Data(S(0), FIN, Abs(0)), Wu(S(0), RST, Abs(0)), Data(S(0), 0, Abs(200_000)), Write(1, 2), Close(1), Drop(1),
                ],
                d(5, 6),
            ),
            &["C16", "C15", "C13", "C14", "C08", "C09", "C07"],
        );
        // --- outbound credit
        for (sn, split) in [("16k", 16 * 1024), ("1m", 1 << 20)] {
            let mut c = cfg.clone();
            c.split = split;
            add(
                Solo::new(
                    &format!("credit-out/{r}/{sn}"),
                    c,
                    &[
                        Write(0, 1), Write(0, 300_000), Fill(0, 65_536), Wu(S(0), 0, Abs(0)), Wu(S(0), 0, Abs(1)), Wu(S(0), FIN, Abs(70_000)), Wu(S(0), ACK, Abs(100_000)), Wu(S(0), 0, Max(0)), Wu(S(0), 0, Max(1)), Block, Unblock,
                        Grant(100), Flush(0), Close(0), Data(S(0), RST, Abs(0)), Write(0, 0),
                    ],
                    d(5, 6),
                )
                .prelude(&[OpenWrite(1)]),
                &["C02", "C13", "C07", "C14", "C20"],
            );
        }
        // --- credit carried by the opening frame
        add(
            Solo::new(
                &format!("credit-open/{r}"),
                cfg.clone(),
                &[
                    Wu(Fresh, SYN, Abs(0)), Wu(Fresh, SYN, Abs(1)), Wu(Fresh, SYN, Abs(100_000)), Wu(Fresh, SYN | FIN, Abs(70_000)), Wu(Fresh, SYN | ACK, Abs(5)), Data(Fresh, SYN, Abs(9)), Wu(Fresh, SYN, Abs(u32::MAX - 262_144)), Fill(0, 400_000), Write(0, 262_145), Fill(1, 100_000), Wu(S(0), 0, Abs(7)), Wu(S(0), 0, Max(0)), Wu(S(0), 0, Max(1)), Drain(0), Close(0),
                ],
                d(5, 6),
            )
            .prelude(&[])
            .slots(2),
            &["C02", "C13", "C08", "C14"],
        );
        // --- inbound credit
        add(
            Solo::new(
                &format!("credit-in/{r}"),
                cfg.clone(),
                &[
                    Data(S(0), 0, Abs(0)), Data(S(0), 0, Abs(1)), Data(S(0), 0, Credit(0)), Data(S(0), 0, Credit(1)), Data(S(0), 0, Credit(-1)), Data(S(0), FIN, Credit(1)), Data(S(0), 0, Abs(131_071)), Data(S(0), 0, Abs(131_072)),
                    Data(S(0), FIN, Credit(0)), Read(0, 1), Read(0, 131_072), Drain(0), Packet(0), Block, Unblock, Write(0, 5), Data(Fresh, SYN, Abs(262_144)), Data(Fresh, SYN, Abs(262_145)),
                ],
                d(5, 6),
            )
            .prelude(&[Data(Fresh, SYN, Abs(0))])
            .slots(3),
            &["C03", "C04", "C01", "C13", "C12"],
        );
        // --- half close
        add(
            Solo::new(
                &format!("halfclose/{r}"),
                cfg.clone(),
                &[
                    Write(0, 10), Close(0), Drain(0), Read(0, 3), Flush(0), Drop(0), Fill(0, 400_000), Data(S(0), 0, Abs(7)), Data(S(0), FIN, Abs(0)), Data(S(0), FIN, Abs(4)), Wu(S(0), FIN, Abs(0)), Wu(S(0), FIN, Abs(9)), Block, Unblock, Grant(14),
                    Data(S(0), RST, Abs(0)), Packet(0), Wu(Fresh, SYN | FIN, Abs(0)), Data(Fresh, SYN | FIN, Abs(3)), Drain(1), Write(1, 3), Close(1),
                ],
                d(5, 6),
            )
            .slots(3)
            .prelude(&[if r == "c" { OpenWrite(1) } else { Data(Fresh, SYN, Abs(2)) }]),
            &["C08", "C09", "C01", "C16"],
        );
        // --- drop and reset with a second stream active
        add(
            Solo::new(
                &format!("dropreset/{r}"),
                cfg.clone(),
                &[
                    Drop(0), CloseDrop(0), WriteDrop(0, 9), Write(0, 4), Close(0), Drain(0), Data(S(0), 0, Abs(5)), Data(S(0), FIN, Abs(1)), Data(S(0), RST, Abs(0)), Wu(S(0), RST, Abs(0)), Wu(S(0), RST, Abs(11)), Wu(S(0), 0, Abs(77)), Write(0, 0),
                    Data(S(0), SYN, Abs(3)), Write(1, 6), Data(S(1), 0, Abs(8)), Drain(1), Block, Unblock,
                ],
                d(5, 6),
            )
            .prelude(&[Data(Fresh, SYN, Abs(2)), OpenWrite(1)]),
            &["C09", "C13", "C22", "C01", "C08"],
        );
        // --- pings
        add(
            Solo::new(
                &format!("ping/{r}"),
                cfg.clone(),
                &[
                    Ping(7), Ping(8), Multi(&[Ping(7), Ping(7)]), PingFlags(0, 0, 3), PingFlags(SYN, 1, 4), PingFlags(SYN, 9, 5), Pong, PongBad, Advance(9_999), Advance(1), Advance(10_000), Advance(70_000), Block, Unblock, Grant(5), Grant(12), OpenWrite(100), Drive, CloseConn,
                    Data(Fresh, SYN, Abs(3)),
                ],
                d(5, 6),
            ),
            &["C19", "C14", "C20"],
        );
        // --- stream limits
        for m in 0..=3usize {
            let mut c = cfg.clone();
            c.max_streams = m;
            add(
                Solo::new(
                    &format!("limit/{r}/{m}"),
                    c,
                    &[
                        Open, OpenWrite(1), OpenDrop, Data(Fresh, SYN, Abs(1)), Wu(Fresh, SYN, Abs(0)), Data(Fresh, SYN | FIN, Abs(0)), Close(0), Drop(0), Drop(1), Data(S(0), FIN, Abs(0)), Data(S(0), RST, Abs(0)), Data(S(1), RST, Abs(0)), CloseDrop(1), Drop(2),
                    ],
                    d(5, 7),
                )
                .slots(6),
                &["C18", "C13", "C15", "C11"],
            );
        }
        // --- acknowledgement backlog
        for (bn, op) in [("w", OpenWrite(1)), ("o", Open)] {
            let mut p = vec![];
            for _ in 0..255 {
                p.push(op.clone());
            }
            add(
                Solo::new(
                    &format!("backlog/{r}/{bn}"),
                    cfg.clone(),
                    &[
                        Open, OpenWrite(1), Reopen, AckOldest, Data(S(3), ACK, Abs(1)), Data(S(4), RST, Abs(0)), Data(S(5), FIN, Abs(0)), Wu(S(5), FIN, Abs(0)), Wu(S(6), RST, Abs(0)), Close(7), Drop(8), CloseDrop(9), Data(Fresh, SYN, Abs(1)), Eof, CloseConn,
                        DropConn,
                    ],
                    d(4, 5),
                )
                .prelude(&p)
                .slots(262)
                .epi(E::DrainEof),
                &["C17", "C07", "C15"],
            );
        }
        // --- closing the connection
        for (pn, pre) in [
            ("plain", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4))]),
            ("blocked", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4)), Block, Write(0, 20), Write(1, 30)]),
            ("parked", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4)), Drain(0), Drain(1), Fill(0, 16_384)]),
        ] {
            add(
                Solo::new(
                    &format!("close/{r}/{pn}"),
                    cfg.clone(),
                    &[
                        CloseConn, DropConn, Write(0, 5), Write(1, 6), WriteClose(1, 3), Close(0), Drop(0), Drop(1), Drain(1), Read(0, 4), OpenWrite(2), Ping(3), Block, Unblock, Grant(3), Grant(12), Grant(40), Data(S(0), 0, Abs(4)),
                        Data(Fresh, SYN, Abs(2)), Eof, GoAway(0), FlushBlock, FlushUnblock, WriteErr, CloseConnAlt, CloseErr,
                    ],
                    d(4, 5),
                )
                .prelude(&pre)
                .epi(E::CloseConn),
                &["C10", "C11", "C07", "C24", "C21"],
            );
        }
        // --- failures
        for (pn, pre) in [
            ("plain", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4))]),
            ("parked", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4)), Drain(0), Drain(1), Fill(0, 16_384)]),
            ("partial", vec![OpenWrite(9), Data(Fresh, SYN, Abs(4)), Partial(Hdr { ver: 0, ty: DATA, flags: 0, id: if r == "c" { 2 } else { 1 }, len: 50 }, 50, 20), Block, Write(0, 20), Grant(3)]),
        ] {
            add(
                Solo::new(
                    &format!("fail/{r}/{pn}"),
                    cfg.clone(),
                    &[
                        Eof, ReadErr, WriteErr, WriteZero, FlushErr, ReadErrIn(1), WriteErrIn(1), WriteZeroIn(13), GoAway(0), GoAway(1), GoAway(77), RawF(Hdr { ver: 1, ty: 0, flags: 0, id: 1, len: 0 }, 0), RawF(Hdr { ver: 0, ty: 4, flags: 0, id: 1, len: 0 }, 0),
                        RawF(Hdr { ver: 0, ty: 0, flags: 0, id: 1, len: MAX_BODY + 1 }, 0), CloseConn, DropConn, Write(0, 5), Close(0), Drain(1), Read(0, 4), OpenWrite(2), Ping(3), Block, Unblock, Data(S(0), 0, Abs(4)), Rest, Data(Fresh, SYN, Abs(2)),
                    ],
                    d(4, 5),
                )
                .prelude(&pre)
                .epi(E::Eof),
                &["C11", "C07", "C12", "C24"],
            );
        }
        // --- reading after the end
        for rac in [true, false] {
            let mut c = cfg.clone();
            c.rac = rac;
            add(
                Solo::new(
                    &format!("rac/{r}/{rac}"),
                    c,
                    &[
                        Data(S(0), 0, Abs(6)), Data(S(0), FIN, Abs(3)), Data(S(1), 0, Abs(9)), Read(0, 2), Drain(0), Packet(0), Packet(1), Read(1, 4), Eof, ReadErr, WriteErr, GoAway(0), CloseConn, DropConn, Data(S(0), RST, Abs(0)), Close(0), Write(1, 1),
                    ],
                    d(5, 6),
                )
                .prelude(&[Data(Fresh, SYN, Abs(5)), OpenWrite(1)])
                .epi(E::DrainEof),
                &["C24", "C11", "C10", "C07"],
            );
        }
    }
    for client in [true, false] {
        v.push(Entry { sc: crate::conf::scenario(client, if q { 2 } else { 3 }, if q { 3 } else { 4 }), props: &["C05", "C18"] });
    }
    more(t, &mut v);
    pairs(t, &mut v);
    threads(t, &mut v);
    v
}

use crate::pair::{Act::*, Event, Pair, Script, StreamPlan};

fn pairs(t: Tier, v: &mut Vec<Entry>) {
    let q = t == Tier::Quick;
    let d = |a: u32, b: u32| if q { a } else { b };
    let mut add = |p: Pair, props: &'static [&'static str]| v.push(Entry { sc: p.scenario(), props });
    let echo = || StreamPlan::new(&[&[&[W(700), C], &[RA]]], &[&[&[RA], &[W(900), C]]]);
    let seq = || StreamPlan::new(&[&[&[W(700), C, RA]]], &[&[&[RA, W(900), C]]]);
    add(
        Pair::new("pair/split", [1000, 1000], vec![StreamPlan::new(&[&[&[W(100_000)], &[RA]], &[&[W(100_000), C], &[RX(150_000), D]]], &[&[&[RA], &[W(200_000), C]], &[&[Y, Y, Y, RA], &[W(200_000), C]]])], vec![]).split(1000).dev(d(2, 3)),
        &["C06", "C07"],
    );
    for cap in [1, 13, 100, 1000, usize::MAX] {
        let cn = if cap == usize::MAX { "inf".to_string() } else { cap.to_string() };
        add(Pair::new(&format!("pair/echo/{cn}"), [cap, cap], vec![echo()], vec![]).split(300).dev(d(2, 3)), &["C01", "C06", "C07", "C08", "C14"]);
        add(Pair::new(&format!("pair/seq/{cn}"), [cap, cap], vec![seq()], vec![seq()]).split(300).dev(d(2, 3)), &["C01", "C06", "C07", "C08", "C14"]);
        add(Pair::new(&format!("pair/bulk/{cn}"), [cap.max(1000), cap.max(1000)], vec![StreamPlan::new(&[&[&[W(600_000), C], &[RA]]], &[&[&[RA], &[W(300_000), C]]])], vec![]).dev(d(2, 3)), &["C01", "C06", "C07", "C08", "C14"]);
    }

    // --- more than a window, with the other direction at its end
    for cap in [1000, usize::MAX] {
        let cn = if cap == usize::MAX { "inf".to_string() } else { cap.to_string() };
        let local: Vec<Vec<Script>> = vec![vec![&[W(600_000), C]], vec![&[W(600_000), C], &[RA]], vec![&[C], &[RA]], vec![&[W(300_000), D]], vec![&[W(300_000), F, RA, D]]];
        let remote: Vec<Vec<Script>> = vec![vec![&[C, RA]], vec![&[C], &[RA]], vec![&[RX(300_000), D]], vec![&[RX(5), W(600_000), C, RA]], vec![&[P, W(400_000), C, P]]];
        add(Pair::new(&format!("pair/credit/{cn}"), [cap, cap], vec![StreamPlan { local, remote }], vec![]).dev(d(2, 3)), &["C08", "C06", "C07", "C01", "C04", "C02"]);
    }

    // --- a long way between the two: windows grow out of a budget
    for (sn, slack) in [("0", Some(0)), ("300k", Some(300_000)), ("1m", Some(1 << 20)), ("inf", None)] {
        let c = |c: &mut Cfg| {
            c.max_streams = 4;
            c.default_limit = false;
            c.slack = slack;
        };
        let local: Vec<Vec<Script>> = vec![vec![&[W(2_000_000), C], &[RA]], vec![&[W(1_200_000), F, RA, D]]];
        let remote: Vec<Vec<Script>> = vec![vec![&[RA], &[W(700_000), C]], vec![&[P, W(5), C]], vec![&[RX(800_000), D]]];
        add(
            Pair::new(&format!("pair/far/{sn}"), [usize::MAX, usize::MAX], vec![StreamPlan { local, remote }, StreamPlan::new(&[&[&[W(900_000), C]]], &[&[&[RA, C]]])], vec![]).cfg(c).split(100_000).delay(50).dev(d(2, 3)),
            &["C04", "C05", "C03", "C02", "C01", "C06"],
        );
        add(
            Pair::new(&format!("pair/far-cap/{sn}"), [500_000, 30_000], vec![StreamPlan::new(&[&[&[W(2_000_000), C], &[RA]]], &[&[&[RA], &[W(100_000), C]]])], vec![StreamPlan::new(&[&[&[W(900_000), C]]], &[&[&[RA, C]]])]).cfg(c).split(100_000).delay(50).dev(d(2, 3)),
            &["C04", "C05", "C06", "C07"],
        );
    }

    // --- all combinations of what two applications do with one stream
    let la = || -> Vec<Vec<Script>> {
        vec![
            vec![&[W(700), C, RA]],
            vec![&[W(700), C], &[RA]],
            vec![&[W(700), D]],
            vec![&[W(700), RA]],
            vec![&[C, RA]],
            vec![&[C, D]],
            vec![&[D]],
            vec![&[RX(100), D]],
            vec![&[RX(100), C, RA]],
            vec![&[W1(1), F, Y, Y, C, P]],
            vec![&[W(700), F], &[RX(1), D]],
        ]
    };
    let ra = || -> Vec<Vec<Script>> {
        vec![
            vec![&[RA, W(900), C]],
            vec![&[W(900), C], &[RA]],
            vec![&[W(900), C, RA]],
            vec![&[RX(100), D]],
            vec![&[D]],
            vec![&[C, RA]],
            vec![&[C, D]],
            vec![&[W(900), D]],
            vec![&[P, C]],
            vec![&[W(900), F, Y, RX(10), D]],
            vec![&[W(900), F], &[RX(600), D]],
        ]
    };
    for cap in [1, 7, 40, 1000, usize::MAX] {
        let cn = if cap == usize::MAX { "inf".to_string() } else { cap.to_string() };
        let plan = || StreamPlan { local: la(), remote: ra() };
        add(Pair::new(&format!("pair/mix/{cn}"), [cap, cap], vec![plan()], vec![]).split(300).dev(d(2, 3)), &["C06", "C08", "C01", "C09", "C07", "C14", "C22"]);
        add(Pair::new(&format!("pair/mix-flush/{cn}"), [cap, cap], vec![plan()], vec![]).split(300).flushy().dev(d(2, 3)), &["C21", "C06", "C07", "C08"]);
        add(Pair::new(&format!("pair/mix-io/{cn}"), [cap, cap], vec![plan()], vec![]).split(300).io().flushy().nosched().dev(d(2, 3)), &["C14", "C06", "C07", "C21", "C01"]);
        // --- the connection ends at any moment
        for (en, ev) in [
            ("closeA", vec![Event::CloseConn(0)]),
            ("closeB", vec![Event::CloseConn(1)]),
            ("closeAB", vec![Event::CloseConn(0), Event::CloseConn(1)]),
            ("dropA", vec![Event::DropConn(0)]),
            ("dropB", vec![Event::DropConn(1)]),
            ("cut", vec![Event::Cut]),
            ("eofA", vec![Event::Eof(0)]),
            ("eofB", vec![Event::Eof(1)]),
            ("werrA", vec![Event::WriteErr(0)]),
            ("closeA-cut", vec![Event::CloseConn(0), Event::Cut]),
            ("closeA-dropB", vec![Event::CloseConn(0), Event::DropConn(1)]),
        ] {
            let n = ev.len() as u32;
            let two = || StreamPlan { local: vec![vec![&[W(700), C], &[RA]], vec![&[W(700), RA]], vec![&[RX(100), D]]], remote: vec![vec![&[RA, W(900), C]], vec![&[W(900), C], &[RA]], vec![&[P]], vec![&[W(900), D]]] };
            let props: &'static [&'static str] = match en {
                "closeA" | "closeB" | "closeAB" | "closeA-cut" | "closeA-dropB" => &["C10", "C24", "C07", "C06", "C11"],
                "cut" | "eofA" | "eofB" | "werrA" => &["C11", "C24", "C07"],
                _ => &["C10", "C24", "C11", "C07"],
            };
            add(Pair::new(&format!("pair/end/{cn}/{en}"), [cap, cap], vec![two()], vec![StreamPlan::new(&[&[&[W(400), C, RA]]], &[&[&[RA, C]]])]).split(300).events(&ev).nosched().dev(d(n, n.max(2))), props);
            if cap == 40 || cap == usize::MAX {
                let c = |c: &mut Cfg| c.rac = false;
                add(Pair::new(&format!("pair/end-norac/{cn}/{en}"), [cap, cap], vec![two()], vec![]).cfg(c).split(300).events(&ev).nosched().dev(d(n, n.max(2))), &["C24", "C10", "C11"]);
            }
        }
    }
    // --- transports with a write buffer of their own
    for (cap, wcap) in [(1, 30), (20, 5), (40, 200), (1000, 4096), (usize::MAX, 64)] {
        let cn = if cap == usize::MAX { "inf".to_string() } else { cap.to_string() };
        add(
            Pair::new(&format!("pair/buf/{cn}-{wcap}"), [cap, cap], vec![StreamPlan { local: la(), remote: ra() }], vec![]).split(300).wbuf(wcap).dev(d(2, 3)),
            &["C21", "C06", "C07", "C08", "C01", "C14"],
        );
        for (en, ev) in [("closeA", vec![Event::CloseConn(0)]), ("closeAB", vec![Event::CloseConn(0), Event::CloseConn(1)]), ("closeA-eofB", vec![Event::CloseConn(0), Event::Eof(1)])] {
            let n = ev.len() as u32;
            let two = || StreamPlan { local: vec![vec![&[W(700), C], &[RA]], vec![&[W(700), RA]], vec![&[RX(100), D]]], remote: vec![vec![&[RA, W(900), C]], vec![&[W(900), C], &[RA]], vec![&[P]], vec![&[W(900), D]]] };
            add(
                Pair::new(&format!("pair/buf-end/{cn}-{wcap}/{en}"), [cap, cap], vec![two()], vec![StreamPlan::new(&[&[&[W(400), C, RA]]], &[&[&[RA, C]]])]).split(300).wbuf(wcap).events(&ev).nosched().dev(d(n, n.max(2))),
                &["C10", "C06", "C07", "C21"],
            );
        }
    }
    // --- a recorded finding, a single history
    add(Pair::new("pair/forsaken", [usize::MAX, usize::MAX], vec![StreamPlan::new(&[&[&[W(1), C, D]]], &[&[&[W(300_000)]]])], vec![]).nosched().dev(0), &["C09"]);
    // --- more opened streams than the backlog allows
    for cap in [50, usize::MAX] {
        let cn = if cap == usize::MAX { "inf".to_string() } else { cap.to_string() };
        let mut plans = vec![];
        for k in 0..262 {
            let remote: Vec<Vec<Script>> = match k {
                0 => vec![vec![&[W(1), C]], vec![&[D]], vec![&[C, D]], vec![&[RX(1), C, RA]]],
                1 => vec![vec![&[RX(1), D]]],
                _ => vec![vec![&[RX(1), W(1), C, RA]]],
            };
            plans.push(StreamPlan { local: vec![vec![&[W(1), C, RA]]], remote });
        }
        add(Pair::new(&format!("pair/backlog/{cn}"), [cap, cap], plans, vec![]).nosched().dev(0), &["C17", "C06", "C07", "C16"]);
    }
}

/// Headers over boundary values of every field.
fn hostile(r: &str, big: bool) -> Vec<Op> {
    let (own, other) = if r == "c" { (1, 2) } else { (2, 1) };
    let mut v = vec![];
    for ver in [0u8, 1, 255] {
        for ty in [0u8, 1, 2, 3, 4, 255] {
            for flags in [0, SYN, ACK, FIN, RST, SYN | ACK, SYN | FIN, SYN | RST, ACK | FIN, 15, 16, 0x0101, 0x0108, 0xffff] {
                for id in [0, own, other, own + 40, other + 40, u32::MAX, u32::MAX - 1] {
                    for len in [0u32, 1, 5, 262_144, 262_145, MAX_BODY, MAX_BODY + 1, u32::MAX] {
                        if ver != 0 && (flags != 0 || ty > 1) && !(flags == SYN && len == 5) {
                            continue;
                        }
                        if !big && (len == 262_144 || len == 262_145 || len == MAX_BODY) && ty == 0 && !(flags & !(SYN | ACK) == 0) {
                            continue;
                        }
                        let n = if ver == 0 && ty == 0 && len <= MAX_BODY { len } else { 0 };
                        v.push(RawF(Hdr { ver, ty, flags, id, len }, n));
                    }
                }
            }
        }
    }
    v
}

fn more(t: Tier, v: &mut Vec<Entry>) {
    let q = t == Tier::Quick;
    let d = |a: usize, b: usize| if q { a } else { b };
    let dv = |a: u32, b: u32| if q { a } else { b };
    let mut add = |s: Solo, props: &'static [&'static str]| v.push(Entry { sc: s.scenario(), props });
    for (r, cfg) in roles() {
        let (own, other) = if r == "c" { (1u32, 2u32) } else { (2, 1) };
        // --- running out of stream ids
        #[cfg(yamux_verif)]
        {
            let mut c = cfg.clone();
            c.first_id = Some(if r == "c" { u32::MAX - 4 } else { u32::MAX - 5 });
            let top = if r == "c" { u32::MAX - 1 } else { u32::MAX };
            add(
                Solo::new(
                    &format!("ids-end/{r}"),
                    c,
                    &[
                        Open, OpenWrite(1), OpenDrop, OpenClose, Write(0, 3), Drop(0), CloseDrop(0), Data(S(0), ACK, Abs(4)), Data(S(1), RST, Abs(0)), Data(N(top), SYN, Abs(3)), Data(N(top), 0, Abs(2)), Data(S(0), SYN, Abs(1)), Drain(1), Drop(1), Write(1, 2), Eof,
                    ],
                    d(6, 7),
                )
                .slots(8),
                &["C15", "C13", "C16", "C14", "C11"],
            );
        }
        // --- illegal opens and updates
        add(
            Solo::new(
                &format!("illegal/{r}"),
                cfg.clone(),
                &[
                    Data(N(0), SYN, Abs(1)), Wu(N(0), SYN, Abs(0)), Data(N(0), 0, Abs(3)), Wu(N(0), 0, Abs(7)), Data(N(own + 100), SYN, Abs(1)), Wu(N(own + 100), SYN, Abs(1)), Data(N(other + 100), 0, Abs(5)), Wu(N(other + 100), 0, Max(0)),
                    Data(S(0), SYN, Abs(2)), Wu(S(0), SYN, Abs(2)), Data(S(1), SYN, Abs(2)), Data(Fresh, SYN, Abs(262_144)), Data(Fresh, SYN, Abs(262_145)), Wu(Fresh, SYN, Abs(u32::MAX - 262_144)), Wu(Fresh, SYN, Abs(u32::MAX - 262_143)), Data(Fresh, SYN | RST, Abs(1)),
                    Data(Fresh, SYN | FIN, Abs(1)), Wu(Fresh, SYN | FIN, Abs(0)), Wu(S(0), 0, Max(1)), Wu(S(0), FIN, Max(1)), Wu(S(0), 0, Max(0)), Data(S(0), RST, Abs(0)), CloseDrop(0), Drop(0), Drain(0), Write(0, 4), OpenWrite(1),
                ],
                d(4, 5),
            )
            .prelude(&[Data(Fresh, SYN, Abs(2)), OpenWrite(1)])
            .slots(5),
            &["C13", "C15", "C12", "C03", "C18", "C02"],
        );
        // --- hostile headers in every state
        let follow = [Ping(7), Data(S(0), 0, Abs(3)), Data(Fresh, SYN, Abs(2)), Eof, Drain(0), Write(0, 4), CloseConn];
        let pres: [(&str, Vec<Op>); 6] = [
            ("fresh", vec![]),
            ("open", vec![Data(Fresh, SYN, Abs(3)), OpenWrite(2)]),
            ("closed", vec![Data(Fresh, SYN, Abs(3)), OpenWrite(2), Close(0), Close(1)]),
            ("recvclosed", vec![Data(Fresh, SYN | FIN, Abs(3)), OpenWrite(2), Data(S(1), ACK | FIN, Abs(1))]),
            ("dropped", vec![Data(Fresh, SYN, Abs(3)), OpenWrite(2), Drop(0), CloseDrop(1)]),
            ("blocked", vec![Data(Fresh, SYN, Abs(3)), OpenWrite(2), Ping(1), Block, Ping(2)]),
        ];
        for (pn, pre) in pres {
            add(
                Solo::new(&format!("hostile/{r}/{pn}"), cfg.clone(), &follow, d(2, 3)).first(hostile(r, !q)).prelude(&pre),
                &["C12", "C13", "C03", "C24"],
            );
        }
        // --- failures at every byte
        {
            let mut first = vec![];
            for k in 0..=24u64 {
                first.push(ReadErrIn(k));
                first.push(WriteErrIn(k));
                first.push(WriteZeroIn(k));
            }
            let h = Hdr::new(DATA, 0, other, 6);
            for k in 1..=18usize {
                first.push(Partial(h, 6, k));
                first.push(Partial(Hdr::new(DATA, SYN, other + 20, 6), 6, k));
                first.push(Partial(Hdr::new(PING, SYN, 0, 99), 0, k));
                first.push(Partial(Hdr::new(GOAWAY, 0, 0, 0), 0, k));
                first.push(Partial(Hdr::new(WINDOW, FIN, other, 9), 0, k));
            }
            add(
                Solo::new(&format!("trunc/{r}"), cfg.clone(), &[Eof, ReadErr, WriteErr, WriteZero, Rest, Drain(0), Read(1, 3), Write(1, 5), Write(0, 30), CloseConn, DropConn, Data(S(0), 0, Abs(4)), Ping(3), OpenWrite(2), Close(0), Drop(1)], d(4, 5))
                    .first(first)
                    .prelude(&[Data(Fresh, SYN, Abs(4)), OpenWrite(9)])
                    .epi(E::Eof),
                &["C11", "C12", "C24", "C07", "C10", "C14"],
            );
        }
        // --- failures of all kinds
        {
            use std::io::ErrorKind as K;
            for k in [K::UnexpectedEof, K::ConnectionAborted, K::ConnectionReset, K::BrokenPipe, K::TimedOut, K::NotConnected, K::WriteZero, K::InvalidData, K::Other] {
                let mut c = cfg.clone();
                c.kind = Some(k);
                add(
                    Solo::new(
                        &format!("kind/{r}/{k:?}"),
                        c,
                        &[
                            ReadErr, WriteErr, FlushErr, CloseErr, ReadErrIn(1), ReadErrIn(14), WriteErrIn(1), WriteErrIn(13), CloseConn, CloseConnAlt, Write(0, 5), Write(1, 30), Close(0), Drop(1), Drain(1), Data(S(0), 0, Abs(4)), Ping(3), OpenWrite(2), Block, Unblock,
                        ],
                        d(3, 4),
                    )
                    .prelude(&[OpenWrite(9), Data(Fresh, SYN, Abs(4))])
                    .epi(E::Eof),
                    &["C11", "C10", "C24", "C07"],
                );
            }
        }
        // --- window growth
        for (sn, slack) in [("0", Some(0)), ("100k", Some(100_000)), ("256k", Some(262_144)), ("700k", Some(700_000)), ("inf", None)] {
            let mut c = cfg.clone();
            c.max_streams = 8;
            c.default_limit = false;
            c.slack = slack;
            add(
                Solo::new(
                    &format!("grow/{r}/{sn}"),
                    c,
                    &[
                        Data(S(0), 0, Credit(0)), Data(S(0), 0, Abs(131_071)), Data(S(0), 0, Abs(131_072)), Drain(0), Read(0, 131_072), Advance(150), Advance(60), Data(S(1), 0, Credit(0)), Drain(1), Drop(0), Data(S(0), FIN, Abs(0)), Advance(10_000), Pong,
                        Multi(&[Data(S(0), 0, Credit(0)), Drain(0)]),
                    ],
                    d(5, 7),
                )
                .prelude(&[OpenWrite(1), Advance(100), Pong, Data(Fresh, SYN, Abs(0))])
                .exact(),
                &["C05", "C04", "C03", "C19"],
            );
        }
        {
            let mut c = cfg.clone();
            c.max_streams = 8;
            c.default_limit = false;
            c.slack = Some(300_000);
            add(
                Solo::new(
                    &format!("grow-nortt/{r}"),
                    c,
                    &[
                        Data(S(0), 0, Credit(0)), Data(S(0), 0, Abs(131_072)), Drain(0), Packet(0), Advance(1), Pong, Data(Fresh, SYN, Credit(0)), Drain(1), Data(S(1), 0, Credit(0)), CloseDrop(1), OpenWrite(1), Ping(4), Advance(150),
                        Multi(&[Data(S(0), 0, Credit(0)), Drain(0)]),
                    ],
                    d(5, 7),
                )
                .prelude(&[Data(Fresh, SYN, Abs(0)), Advance(100)])
                .exact(),
                &["C05", "C04", "C03"],
            );
        }
        // --- a budget shared by streams that come and go
        for (sn, slack) in [("0", 0), ("300k", 300_000), ("700k", 700_000), ("1m", 1 << 20), ("2m", 2_500_000)] {
            let mut c = cfg.clone();
            c.max_streams = 4;
            c.default_limit = false;
            c.slack = Some(slack);
            add(
                Solo::new(
                    &format!("share/{r}/{sn}"),
                    c,
                    &[
                        Multi(&[Data(S(0), 0, Credit(0)), Drain(0)]), Multi(&[Data(S(1), 0, Credit(0)), Drain(1)]), Multi(&[Data(S(2), 0, Credit(0)), Drain(2)]), Drop(0), CloseDrop(1), Data(S(1), RST, Abs(0)), Drop(1), Data(S(0), 0, Abs(200_000)),
                        Read(0, 150_000), Data(Fresh, SYN, Abs(0)), Multi(&[Data(S(3), 0, Credit(0)), Drain(3)]), Advance(150),
                    ],
                    d(5, 7),
                )
                .prelude(&[OpenWrite(1), Advance(100), Pong, Data(Fresh, SYN, Abs(0)), OpenWrite(1)])
                .exact(),
                &["C05", "C04"],
            );
        }
        // --- demand on a blocked transport
        add(
            Solo::new(
                &format!("blocked/{r}"),
                cfg.clone(),
                &[
                    Fill(0, 1), Fill(0, 70_000), Fill(1, 5), Write(0, 3), Close(0), Drop(1), WriteDrop(1, 2), Ping(1), Multi(&[Ping(2), Ping(3), Ping(4), Ping(5), Ping(6), Ping(7)]), Data(S(1), 0, Abs(140_000)), Drain(1), Grant(12), Grant(40), Unblock,
                    Data(Fresh, SYN, Abs(1)), Data(S(0), RST, Abs(0)), PongBad, Wu(S(0), 0, Max(1)),
                ],
                d(5, 6),
            )
            .prelude(&[OpenWrite(1), Data(Fresh, SYN, Abs(3)), Block])
            .slots(4),
            &["C20", "C22", "C06", "C07", "C19", "C09", "C08"],
        );
        // --- reading while a window update waits for the transport
        for rac in [true, false] {
            let mut c = cfg.clone();
            c.rac = rac;
            add(
                Solo::new(
                    &format!("blocked-wu/{r}/{rac}"),
                    c,
                    &[
                        Data(S(0), 0, Abs(7)), Data(S(0), FIN, Abs(2)), Data(S(0), 0, Credit(0)), Read(0, 5), Packet(0), Drain(0), Write(0, 3), Close(0), Drop(0), Data(S(0), RST, Abs(0)), Wu(S(0), 0, Abs(9)), Grant(50), Unblock, Eof, CloseConn, DropConn, Drain(1), Data(S(1), 0, Abs(140_000)),
                    ],
                    d(5, 6),
                )
                .prelude(&[Data(Fresh, SYN, Abs(0)), OpenWrite(1), Block, Fill(0, 100), Data(S(0), 0, Abs(131_072)), Read(0, 131_072)])
                .slots(2),
                &["C22", "C24", "C07", "C04", "C16", "C08"],
            );
        }
        // --- fairness
        {
            let mut c = cfg.clone();
            c.split = 4;
            add(
                Solo::new(
                    &format!("fair/{r}"),
                    c,
                    &[Fill(0, 100), Fill(1, 8), Fill(2, 4), Write(1, 4), Write(2, 1), Close(1), Drop(2), Grant(16), Grant(17), Grant(64), Data(S(1), 0, Abs(131_072)), Drain(1), Data(S(0), 0, Abs(5)), Ping(1), Unblock, Multi(&[Fill(0, 100), Grant(16)])],
                    d(5, 6),
                )
                .prelude(&[OpenWrite(1), Data(Fresh, SYN, Abs(3)), OpenWrite(2), Block]),
                &["C22", "C20", "C06", "C14"],
            );
        }
        // --- the remote talks without end
        {
            const X: Op = Wu(S(0), 0, Abs(0));
            const X8: [Op; 8] = [X, X, X, X, X, X, X, X];
            const F1: &[Op] = &[Multi(&X8), Multi(&X8), Multi(&X8), Multi(&X8), Multi(&X8)];
            const Y: Op = Data(S(1), 0, Abs(1));
            const Y8: [Op; 8] = [Y, Y, Y, Y, Y, Y, Y, Y];
            const F2: &[Op] = &[Multi(&Y8), Multi(&Y8), Multi(&Y8), Multi(&Y8), Multi(&Y8)];
            const Z: Op = Ping(3);
            const Z8: [Op; 8] = [Z, Z, Z, Z, Z, Z, Z, Z];
            const F3: &[Op] = &[Multi(&Z8), Multi(&Z8), Multi(&Z8), Multi(&Z8), Multi(&Z8)];
            add(
                Solo::new(&format!("flood/{r}"), cfg.clone(), &[Drive, Multi(F1), Multi(F2), Multi(F3), Write(0, 3), Fill(1, 4), Close(0), Drop(1), OpenWrite(1), Drain(1), Block, Grant(15), Unblock], d(5, 6))
                    .prelude(&[OpenWrite(1), Data(Fresh, SYN, Abs(3)), Drive])
                    .manual()
                    .slots(4),
                &["C22", "C06", "C19", "C20"],
            );
        }
        // --- one stream used by two tasks
        {
            let mut c = cfg.clone();
            c.split = 7;
            add(
                Solo::new(
                    &format!("halves/{r}"),
                    c,
                    &[Fill(0, 100), Read(0, 10), Drain(0), Read(0, 0), Packet(0), Data(S(0), 0, Abs(131_072)), Data(S(0), 0, Abs(1)), Block, Grant(19), Grant(60), Unblock, Data(S(0), FIN, Abs(0)), Data(S(0), RST, Abs(0)), Wu(S(0), ACK, Abs(5)), Close(0), Flush(0)],
                    d(5, 6),
                )
                .prelude(&[OpenWrite(1)]),
                &["C07", "C06", "C04", "C01"],
            );
        }
        // --- everything that can wait, and everything that can end the waiting
        for (dn, pre) in [("out", OpenWrite(1)), ("in", Data(Fresh, SYN, Abs(0)))] {
            const CR: Op = Fill(0, 400_000);
            const FIN_IN: Op = Data(S(0), FIN, Abs(0));
            let mut c = cfg.clone();
            c.split = 1 << 20;
            add(
                Solo::new(
                    &format!("waits/{r}/{dn}"),
                    c,
                    &[
                        Data(S(0), 0, Abs(1)), FIN_IN, Data(S(0), FIN, Abs(2)), Wu(S(0), FIN, Abs(0)), Wu(S(0), FIN, Abs(9)), Data(S(0), RST, Abs(0)), Wu(S(0), RST, Abs(0)), Wu(S(0), 0, Abs(100)), Wu(S(0), ACK, Abs(0)), Eof, GoAway(0), ReadErr, WriteErr, CloseConn, DropConn, Unblock,
                        Grant(12), Write(0, 5), Read(0, 3), Drain(0), Close(0), Flush(0), Drop(1), Ping(1), FlushBlock,
                    ],
                    d(5, 6),
                )
                .first(vec![
                    Drain(0), Packet(0), CR, Multi(&[CR, Drive, CR, Drain(0)]), Multi(&[CR, Drive, CR, FIN_IN, Drive]), Multi(&[FIN_IN, Drive, CR, Drive, CR]), Multi(&[Close(0), Drive, Drain(0)]), Multi(&[Close(0), Drive, Packet(0)]),
                    Multi(&[Block, Fill(0, 100)]), Multi(&[Block, Fill(0, 100), Drain(0)]), Multi(&[FIN_IN, Drive, Block, Fill(0, 100)]), Multi(&[Block, Fill(0, 100), Close(0)]), Multi(&[Block, Fill(0, 100), Close(0), Drain(0)]),
                    Multi(&[FIN_IN, Drive, Block, Fill(0, 100), Close(0)]), Multi(&[Block, Write(0, 30), Flush(0)]), Multi(&[Block, Write(0, 30), Flush(0), Drain(0)]), Multi(&[FIN_IN, Drive, Block, Write(0, 30), Flush(0)]), Multi(&[Block, Write(0, 30), Close(0), Flush(0)]),
                    Multi(&[CR, Drive, CR, Drain(0), Fill(1, 400_000), Drive, Fill(1, 400_000), Drain(1)]),
                ])
                .prelude(&[pre, if dn == "out" { Data(Fresh, SYN, Abs(4)) } else { OpenWrite(1) }])
                .slots(3),
                &["C07", "C11", "C10", "C09", "C08", "C24", "C06"],
            );
        }
        // --- every transport answer
        for (cn, chunk, flushy) in [("plain", usize::MAX, false), ("flush", usize::MAX, true), ("chunk1", 1, false), ("chunk5", 5, true)] {
            let mut c = cfg.clone();
            c.split = 10;
            let mut s = Solo::new(
                &format!("io/{r}/{cn}"),
                c,
                &[
                    OpenWrite(3), Write(0, 12), Write(0, 25), Drain(0), Close(0), Drop(0), Data(S(0), 0, Abs(9)), Data(S(0), FIN, Abs(1)), Data(Fresh, SYN, Abs(2)), Ping(5), Wu(S(0), 0, Abs(3)), PongBad, FlushBlock, FlushUnblock, Block, Grant(13), Unblock, CloseConn,
                ],
                d(2, 4),
            )
            .prelude(&[Data(Fresh, SYN, Abs(3))])
            .chunk(chunk)
            .devs(dv(2, 2));
            if flushy {
                s = s.flushy();
            }
            add(s, &["C14", "C21", "C01", "C06", "C07", "C11", "C10", "C19"]);
        }
        // --- flush discipline without deviations, deeper
        {
            add(
                Solo::new(
                    &format!("flush/{r}"),
                    cfg.clone(),
                    &[OpenWrite(3), Write(0, 12), Close(0), Drop(0), Drain(0), Data(S(0), 0, Abs(131_072)), Data(Fresh, SYN, Abs(2)), Ping(5), PongBad, FlushBlock, FlushUnblock, Block, Grant(13), Unblock, CloseConn, Data(S(0), RST, Abs(0))],
                    d(5, 6),
                )
                .prelude(&[Data(Fresh, SYN, Abs(3))])
                .flushy(),
                &["C21", "C07", "C06", "C10"],
            );
        }
        // --- late in a busy history
        for (hn, m) in [("10", 10), ("512", 512)] {
            let mut c = cfg.clone();
            c.max_streams = m;
            if hn == "512" {
                c.split = 11;
            }
            let mut p = vec![];
            for k in 0..4 {
                p.extend([OpenWrite(3), Data(Fresh, SYN, Abs(k))]);
            }
            for k in 0..40 {
                p.extend([Data(S(1), 0, Abs(k % 7)), Write(0, 30)]);
                if k % 9 == 8 {
                    p.extend([Ping(k), Read(1, 10), Packet(1), Data(S(0), ACK, Abs(k)), Advance(3000)]);
                }
            }
            p.extend([Close(2), Data(S(2), FIN, Abs(1)), Drain(2), Drop(2), Close(3), Data(S(3), FIN, Abs(0)), Drop(3), Drop(4), Data(S(5), RST, Abs(0)), Drop(5), Pong, Advance(10_000), Pong]);
            p.extend([OpenWrite(3), Data(Fresh, SYN, Abs(6)), OpenWrite(3), Data(Fresh, SYN, Abs(300)), OpenClose]);
            add(
                Solo::new(
                    &format!("busy/{r}/{hn}"),
                    c,
                    &[
                        OpenWrite(1), Open, OpenDrop, Data(Fresh, SYN, Abs(3)), Drop(6), CloseDrop(7), Write(0, 100), Drain(1), Read(1, 9), Packet(1), Data(S(1), 0, Abs(140_000)), Data(S(6), FIN, Abs(3)), Data(S(8), RST, Abs(0)), Wu(S(0), 0, Abs(100)), Ping(9),
                        Advance(10_000), Block, Grant(30), Unblock, CloseConn, Eof, Close(9), Drain(11), Data(S(2), 0, Abs(3)), Data(S(5), SYN, Abs(3)), Data(S(1), FIN, Abs(1)), Fill(10, 300_000), DropConn,
                    ],
                    d(4, 5),
                )
                .prelude(&p)
                .slots(16),
                &["C01", "C15", "C18", "C08", "C09", "C04", "C16", "C19", "C13", "C24"],
            );
        }
        // --- after a long life: many streams gone, megabytes moved in both directions, many pings
        for (hn, rac) in [("a", true), ("b", false)] {
            let mut c = cfg.clone();
            c.rac = rac;
            c.max_streams = 6;
            c.split = 100_000;
            let mut p = vec![OpenWrite(3), Data(Fresh, SYN, Abs(10)), Data(S(0), ACK, Abs(0)), Write(1, 1)];
            for k in 0..60usize {
                p.extend([OpenWrite(5), Data(S(2 + 2 * k), ACK, Abs(9)), Data(Fresh, SYN, Abs(4)), Write(3 + 2 * k, 7)]);
                match k % 4 {
                    0 => p.extend([Data(S(2 + 2 * k), FIN, Abs(1)), Drain(2 + 2 * k), Close(2 + 2 * k), Close(3 + 2 * k), Data(S(3 + 2 * k), FIN, Abs(0))]),
                    1 => p.extend([Data(S(2 + 2 * k), RST, Abs(0)), Data(S(3 + 2 * k), RST, Abs(0))]),
                    2 => p.extend([Close(2 + 2 * k), Data(S(3 + 2 * k), FIN, Abs(3))]),
                    _ => {}
                }
                p.extend([Drop(2 + 2 * k), Drop(3 + 2 * k)]);
                if k % 3 == 0 {
                    p.extend([Data(S(1), 0, Abs(131_072)), Drain(1), Fill(0, 131_072), Wu(S(0), 0, Abs(131_072)), Ping(k as u32), Advance(5_000), Pong]);
                }
            }
            add(
                Solo::new(
                    &format!("long/{r}/{hn}"),
                    c,
                    &[OpenWrite(1), OpenDrop, Data(Fresh, SYN, Abs(3)), Drop(0), Write(0, 100), Read(1, 9), Packet(1), Data(S(1), 0, Credit(0)), Data(S(1), FIN, Abs(2)), Data(S(0), RST, Abs(0)), Fill(0, 500_000), Wu(S(0), 0, Abs(100)), Ping(9), Advance(10_000), Block, CloseConn, Eof],
                    d(3, 4),
                )
                .prelude(&p)
                .slots(126),
                &["C01", "C15", "C18", "C08", "C02", "C04", "C16", "C19", "C13", "C24", "C05"],
            );
        }
        // --- hundreds of small frames nobody has read yet
        {
            let mut p = vec![Data(Fresh, SYN, Abs(3)), OpenWrite(1)];
            for k in 0..300u32 {
                p.push(Data(S(0), 0, Abs(1 + k % 3)));
                if k % 50 == 7 {
                    p.extend([Data(S(1), if k == 7 { ACK } else { 0 }, Abs(k)), Data(S(0), 0, Abs(0)), Read(0, 1)]);
                }
            }
            add(
                Solo::new(
                    &format!("many/{r}"),
                    cfg.clone(),
                    &[Read(0, 1), Read(0, 600), Packet(0), Drain(0), Data(S(0), 0, Abs(1)), Data(S(0), FIN, Abs(2)), Data(S(0), 0, Credit(0)), Data(S(0), RST, Abs(0)), Close(0), Drop(0), Drain(1), Packet(1), Write(0, 5), Data(S(1), FIN, Abs(1)), Eof, CloseConn, DropConn],
                    d(4, 5),
                )
                .prelude(&p)
                .slots(4),
                &["C01", "C04", "C03", "C08", "C24", "C09"],
            );
        }
        // --- several application steps between two polls of the connection
        add(
            Solo::new(
                &format!("batch/{r}"),
                cfg.clone(),
                &[Drive, Open, Write(0, 3), Close(0), Drop(0), Write(1, 4), Close(1), Drop(1), Read(1, 2), Drain(1), Data(S(1), 0, Abs(131_072)), Data(S(0), ACK, Abs(6)), Data(S(0), FIN, Abs(0)), Data(S(1), RST, Abs(0)), Data(Fresh, SYN, Abs(1)), Ping(2), CloseConn, Eof],
                d(5, 7),
            )
            .prelude(&[OpenWrite(1), Data(Fresh, SYN, Abs(3)), Drive])
            .manual()
            .slots(4),
            &["C16", "C08", "C09", "C01", "C07", "C10", "C14", "C04", "C13"],
        );
    }
}

use crate::threads::{Step, Th, Threads};

/// The connection and its streams on different threads.
fn threads(t: Tier, v: &mut Vec<Entry>) {
    use crate::pair::Act as A;
    let q = t == Tier::Quick;
    let dv = |a: u32, b: u32| if q { a } else { b };
    const DR: Th = Th::Driver(&[]);
    for (r, cfg) in roles() {
        let mut add = |name: &str, cfg: &Cfg, pre: &[Op], auto: bool, th: &[Th], n: u32, epi: E, props: &'static [&'static str]| {
            let mut s = Solo::new(&format!("threads/{r}/{name}"), cfg.clone(), &[], 0).prelude(pre).epi(epi);
            s.auto = auto;
            v.push(Entry { sc: Threads::new(s, th).scenario(n), props });
        };
        let inb: Vec<Op> = vec![Data(Fresh, SYN, Abs(5))];
        let outb: Vec<Op> = vec![OpenWrite(2)];
        let both: Vec<Op> = vec![Data(Fresh, SYN, Abs(5)), OpenWrite(2)];
        for (sn, pre) in [("in", &inb), ("out", &outb)] {
            // plain use while the remote talks
            add(&format!("rw/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::RX(12), A::W(20), A::C, A::RA]), Th::Env(&[Data(S(0), 0, Abs(7)), Data(S(0), FIN, Abs(3))])], dv(4, 6), E::DrainEof, &["C23", "C01", "C07", "C08"]);
            add(&format!("wclose/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::W(20), A::W(3), A::F, A::C]), Th::Env(&[Data(S(0), FIN, Abs(3))])], dv(4, 7), E::DrainEof, &["C23", "C08", "C07"]);
            add(&format!("close-fin/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::C]), Th::Env(&[Wu(S(0), FIN, Abs(0))])], dv(4, 7), E::DrainEof, &["C23", "C08", "C09"]);
            add(&format!("drop/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::D]), Th::Env(&[Data(S(0), 0, Abs(4)), Data(S(0), FIN, Abs(1))])], dv(4, 6), E::DrainEof, &["C23", "C09"]);
            add(&format!("drop-rst/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::W1(3), A::D]), Th::Env(&[Data(S(0), RST, Abs(0))])], dv(4, 6), E::DrainEof, &["C23", "C09"]);
            add(&format!("closedrop/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::C, A::D]), Th::Env(&[Wu(S(0), 0, Abs(9)), Data(S(0), FIN, Abs(1))])], dv(4, 6), E::DrainEof, &["C23", "C09", "C08"]);
            add(&format!("rst/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::RA, A::W1(1)]), Th::Env(&[Data(S(0), 0, Abs(4)), Data(S(0), RST, Abs(0))])], dv(4, 7), E::DrainEof, &["C23", "C09", "C07"]);
            // credit
            add(&format!("credit/{sn}"), &cfg, &[&pre[..], &[Multi(&[Fill(0, 65_536), Drive, Fill(0, 65_536), Drive, Fill(0, 65_536), Drive, Fill(0, 65_536), Drive, Fill(0, 65_536), Drive])]].concat(), true, &[DR, Th::Stream(0, &[A::W(40_000)]), Th::Env(&[Wu(S(0), ACK, Abs(1)), Wu(S(0), 0, Abs(50_000))])], dv(4, 7), E::DrainEof, &["C23", "C02", "C07"]);
            add(&format!("window/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::R(140_000), A::R(140_000), A::R(300_000)]), Th::Env(&[Data(S(0), 0, Abs(131_072)), Data(S(0), 0, Abs(100_000)), Data(S(0), FIN, Abs(5_000))])], dv(4, 6), E::DrainEof, &["C23", "C04", "C03", "C01"]);
            add(&format!("window-p/{sn}"), &cfg, pre, true, &[DR, Th::Stream(0, &[A::P]), Th::Env(&[Data(S(0), 0, Abs(200_000)), Data(S(0), FIN, Abs(5_000))])], dv(4, 6), E::DrainEof, &["C23", "C04", "C01"]);
            // reader and writer of a stream on threads of their own
            let w: Th = Th::Stream(0, &[A::W(20), A::C]);
            let rd: Th = Th::Stream(0, &[A::RA]);
            add(&format!("halves/{sn}/data"), &cfg, pre, true, &[DR, w.clone(), rd.clone(), Th::Env(&[Data(S(0), 0, Abs(4)), Data(S(0), FIN, Abs(1))])], dv(2, 4), E::DrainEof, &["C23", "C07", "C01", "C08"]);
            add(&format!("halves/{sn}/rst"), &cfg, &[&pre[..], &[Block, Fill(0, 100)]].concat(), true, &[DR, w.clone(), rd.clone(), Th::Env(&[Data(S(0), RST, Abs(0)), Unblock])], dv(2, 4), E::DrainEof, &["C23", "C07", "C09"]);
            add(&format!("halves/{sn}/close"), &cfg, pre, true, &[Th::Driver(&[Step::Poll, Step::Close]), w.clone(), rd.clone()], dv(3, 5), E::CloseConn, &["C23", "C07", "C10"]);
            add(&format!("halves/{sn}/window"), &cfg, &[&pre[..], &[Block, Fill(0, 100), Data(S(0), 0, Abs(150_000))]].concat(), true, &[DR, Th::Stream(0, &[A::W(3)]), Th::Stream(0, &[A::R(150_000), A::RA]), Th::Env(&[Unblock, Data(S(0), FIN, Abs(1))])], dv(2, 4), E::DrainEof, &["C23", "C07", "C04"]);
            // waiting for the transport
            let full: Vec<Op> = [&pre[..], &[Block, Fill(0, 100)]].concat();
            add(&format!("full/{sn}"), &cfg, &full, true, &[DR, Th::Stream(0, &[A::W(30), A::C]), Th::Env(&[Grant(300), Unblock])], dv(4, 7), E::DrainEof, &["C23", "C07", "C06", "C20"]);
            add(&format!("full-rst/{sn}"), &cfg, &full, true, &[DR, Th::Stream(0, &[A::W(30), A::C]), Th::Env(&[Data(S(0), RST, Abs(0)), Unblock])], dv(4, 7), E::DrainEof, &["C23", "C07", "C09"]);
            add(&format!("full-fin/{sn}"), &cfg, &full, true, &[DR, Th::Stream(0, &[A::F, A::C]), Th::Env(&[Data(S(0), FIN, Abs(0)), Unblock])], dv(4, 7), E::DrainEof, &["C23", "C07", "C08"]);
        }
        for (rn, rac) in [("", true), ("-norac", false)] {
            let mut c = cfg.clone();
            c.rac = rac;
            for (en, st, ev) in [
                ("close", &[Step::Poll, Step::Close][..], &[][..]),
                ("drop", &[Step::Poll, Step::Drop], &[]),
                ("eof", &[], &[Eof][..]),
                ("readerr", &[], &[ReadErr]),
                ("werr", &[], &[WriteErr, Ping(3)]),
                ("goaway", &[], &[GoAway(0)]),
                ("undec", &[], &[RawF(Hdr { ver: 1, ty: 0, flags: 0, id: 1, len: 0 }, 0)]),
            ] {
                if !rac && matches!(en, "readerr" | "goaway" | "undec") {
                    continue;
                }
                let props: &'static [&'static str] = match en {
                    "close" => &["C23", "C10", "C24", "C07"],
                    "drop" => &["C23", "C24", "C07"],
                    _ => &["C23", "C11", "C24", "C07"],
                };
                let th = |s: &'static [A]| {
                    let mut v = vec![Th::Driver(st), Th::Stream(0, s)];
                    if !ev.is_empty() {
                        v.push(Th::Env(ev));
                    }
                    v
                };
                add(&format!("end{rn}/{en}/w"), &c, &both, true, &th(&[A::W1(7), A::W1(8)]), dv(4, 7), E::CloseConn, props);
                add(&format!("end{rn}/{en}/wc"), &c, &both, true, &th(&[A::W1(7), A::C]), dv(4, 7), E::CloseConn, props);
                add(&format!("end{rn}/{en}/r"), &c, &both, true, &th(&[A::R(2), A::RA]), dv(4, 7), E::CloseConn, props);
                add(&format!("end{rn}/{en}/p"), &c, &both, true, &th(&[A::P]), dv(4, 7), E::CloseConn, props);
                add(&format!("end{rn}/{en}/f"), &c, &both, true, &th(&[A::W1(3), A::F, A::D]), dv(4, 7), E::CloseConn, props);
                add(&format!("end{rn}/{en}/d"), &c, &both, true, &th(&[A::D]), dv(4, 7), E::CloseConn, props);
                let big: Vec<Op> = vec![Data(Fresh, SYN, Abs(140_000)), OpenWrite(2)];
                add(&format!("end{rn}/{en}/wu"), &c, &big, true, &th(&[A::R(140_000), A::RA]), dv(4, 7), E::CloseConn, props);
                let full: Vec<Op> = [&both[..], &[Block, Fill(0, 100)]].concat();
                add(&format!("end{rn}/{en}/full"), &c, &full, true, &th(&[A::W1(9), A::C]), dv(4, 7), E::CloseConn, props);
            }
        }
        // an application uses its streams while a lot is read
        {
            const X: Op = Wu(S(0), 0, Abs(0));
            const Y: Op = Data(S(1), 0, Abs(1));
            const X8: [Op; 8] = [X, X, X, X, X, X, X, X];
            const Y8: [Op; 8] = [Y, Y, Y, Y, Y, Y, Y, Y];
            for (fname, f) in [("wu", Multi(&[Multi(&X8), Multi(&X8), Multi(&X8), Multi(&X8), Multi(&X8)])), ("data", Multi(&[Multi(&Y8), Multi(&Y8), Multi(&Y8), Multi(&Y8), Multi(&Y8)]))] {
                let th = [DR, Th::Stream(0, &[A::W1(3), A::C]), Th::Stream(1, &[A::W1(4)])];
                let mut s = Solo::new(&format!("threads/{r}/flood/{fname}"), cfg.clone(), &[], 0).prelude(&both).epi(E::DrainEof);
                s.auto = true;
                s.last = Some(f);
                v.push(Entry { sc: Threads::new(s, &th).scenario(dv(2, 3)), props: &["C23", "C22", "C06"] });
            }
        }
        let mut add = |name: &str, cfg: &Cfg, pre: &[Op], auto: bool, th: &[Th], n: u32, epi: E, props: &'static [&'static str]| {
            let mut s = Solo::new(&format!("threads/{r}/{name}"), cfg.clone(), &[], 0).prelude(pre).epi(epi);
            s.auto = auto;
            v.push(Entry { sc: Threads::new(s, th).scenario(n), props });
        };
        // two streams of the same connection
        add("two", &cfg, &both, true, &[DR, Th::Stream(0, &[A::W1(3), A::RA]), Th::Stream(1, &[A::W1(4), A::C]), Th::Env(&[Data(S(0), FIN, Abs(2))])], dv(3, 5), E::DrainEof, &["C23", "C01", "C22"]);
        add("two-drop", &cfg, &both, true, &[DR, Th::Stream(0, &[A::D]), Th::Stream(1, &[A::W1(4), A::D]), Th::Env(&[Data(Fresh, SYN, Abs(2))])], dv(3, 5), E::DrainEof, &["C23", "C09", "C18"]);
        add("open", &cfg, &both, true, &[Th::Driver(&[Step::Open, Step::Idle, Step::Open]), Th::Stream(0, &[A::W1(4), A::D]), Th::Stream(1, &[A::W1(4), A::C]), Th::Env(&[Data(Fresh, SYN, Abs(2))])], dv(3, 5), E::DrainEof, &["C23", "C15", "C16"]);
        // windows growing out of a shared budget
        for (bn, slack) in [("300k", 300_000), ("256k", 262_144), ("900k", 900_000)] {
            let mut c = cfg.clone();
            c.max_streams = 4;
            c.default_limit = false;
            c.slack = Some(slack);
            let pre: Vec<Op> = vec![OpenWrite(1), Advance(100), Pong, Data(Fresh, SYN, Abs(0)), Data(S(0), 0, Abs(200_001)), Data(S(1), 0, Abs(200_001))];
            add(&format!("grow/{bn}"), &c, &pre, true, &[DR, Th::Stream(0, &[A::R(200_000), A::R(1)]), Th::Stream(1, &[A::R(200_000), A::R(1)])], dv(4, 6), E::DrainEof, &["C23", "C05", "C04"]);
            add(&format!("grow-drop/{bn}"), &c, &pre, true, &[DR, Th::Stream(0, &[A::R(200_000), A::R(1), A::D]), Th::Stream(1, &[A::R(200_000), A::R(1)])], dv(4, 6), E::DrainEof, &["C23", "C05"]);
        }
        // an open waits for the backlog to shrink
        let mut full = vec![OpenWrite(1); 256];
        full.push(Data(Fresh, SYN, Abs(1)));
        for (bn, th) in [
            ("close", vec![Th::Driver(&[Step::OpenWait]), Th::Stream(3, &[A::C])]),
            ("drop", vec![Th::Driver(&[Step::OpenWait]), Th::Stream(3, &[A::D])]),
            ("closedrop", vec![Th::Driver(&[Step::OpenWait, Step::OpenWait]), Th::Stream(3, &[A::C, A::D])]),
            ("rst", vec![Th::Driver(&[Step::OpenWait]), Th::Env(&[Data(S(3), RST, Abs(0))])]),
            ("write-ack", vec![Th::Driver(&[Step::OpenWait]), Th::Stream(3, &[A::W1(1)]), Th::Env(&[Data(S(3), ACK, Abs(1))])]),
            ("eof", vec![Th::Driver(&[Step::OpenWait]), Th::Stream(3, &[A::C]), Th::Env(&[Eof])]),
        ] {
            let mut s = Solo::new(&format!("threads/{r}/backlog/{bn}"), cfg.clone(), &[], 0).prelude(&full).epi(E::DrainEof).slots(262);
            s.auto = true;
            v.push(Entry { sc: Threads::new(s, &th).scenario(dv(1, 2)), props: &["C23", "C17", "C07"] });
        }
        let mut add = |name: &str, cfg: &Cfg, pre: &[Op], auto: bool, th: &[Th], n: u32, epi: E, props: &'static [&'static str]| {
            let mut s = Solo::new(&format!("threads/{r}/{name}"), cfg.clone(), &[], 0).prelude(pre).epi(epi);
            s.auto = auto;
            v.push(Entry { sc: Threads::new(s, th).scenario(n), props });
        };
        // round-trip time measured while windows are computed
        let pre: Vec<Op> = vec![OpenWrite(1), Advance(100), Data(S(0), 0, Abs(200_000))];
        add("rtt", &cfg, &pre, true, &[DR, Th::Stream(0, &[A::R(200_000), A::R(300_000)]), Th::Env(&[Pong, Data(S(0), 0, Abs(62_000))])], dv(4, 6), E::DrainEof, &["C23", "C05", "C19"]);
    }
}
