//! The monitors, second part: feeding, faults, purity, frames, files, reports, updates, robustness.
use crate::core::*;
use crate::items::*;
use crate::model::{self, E, R, S};
use crate::props::*;
use crate::rng::{hash, hex, Rng};
use crate::stream::{Plan, Stream};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation as op;
use dash7::app::query as q;
use dash7::file::{self, File, FileId, SystemFile};
use dash7::link;
use dash7::network as net;
use dash7::physical as phy;
use dash7::session as ses;
use dash7::transport as tr;
use dash7::types::VarInt;
use deku::prelude::*;
use std::io::ErrorKind;
use std::sync::{Arc, Barrier};

// ------------------------------------------------------------------------------------------ C10

/// Decode the same bytes every way there is.
pub fn feed(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    if it.name == "command9" {
        return Ok(());
    }
    let mut r = Rng::new(hash(input));
    let base = (it.slice)(b, 0);
    let used = match &base {
        Ok(s) => {
            ensure!(s.suffix, "{}: {}: the remainder is not part of the input", it.name, hex(b));
            Some(8 * (b.len() - s.rest) + s.bits)
        }
        Err(_) => None,
    };
    let same = |v: &Dyn| base.as_ref().map_or(false, |x| x.value.same(&**v));
    let say = |x: &Result<Sl<Dyn>, String>| match x {
        Ok(s) => format!("{} with {} bytes left", short(&s.value.dbg()), s.rest),
        Err(e) => short(e),
    };
    // a slice, some bytes into it
    for k in [1usize, 2, 7, 16] {
        let mut junk = r.bytes(k);
        if r.chance(1, 3) {
            junk.fill(*r.pick(&[0u8, 0xFF]));
        }
        junk.extend_from_slice(b);
        let g = (it.slice)(&junk, 8 * k);
        let agree = match (&base, &g) {
            (Ok(a), Ok(g)) => a.value.same(&*g.value) && a.rest == g.rest && a.bits == g.bits && g.suffix,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if agree {
            o.tag("byte offsets");
            continue;
        }
        if it.name == "foreground" {
            // exactly what counting the skipped bytes gives?
            let mut s = S::read(b);
            s.base = 8 * k;
            let want = model::foreground_frame(&mut s);
            let exact = match (&want, &g) {
                (Ok(w), Ok(g)) => *w == model::norm(&g.value.dbg()) && g.rest == b.len() - s.pos / 8,
                (Err(E::Ambig), _) => true,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if exact {
                return known(KF2, format!("{} gives {}, but {} bytes into a slice {}", hex(b), say(&base), k, say(&g)));
            }
        }
        return fail(format!("{}: {} gives {}, but {} bytes into a slice {}", it.name, hex(b), say(&base), k, say(&g)));
    }
    // a stream: anywhere, in pieces, interrupted
    let plans = [
        (0u64, 0usize, 0usize),
        (1, 0, 0),
        (5, 1, 0),
        (1000, 0, 0),
        (0, 1, 0),
        (0, 2, 3),
        (3, 3, 2),
        (0, 0, 2),
        (r.below(300), 1 + r.below(5) as usize, r.below(4) as usize),
    ];
    for (pos, chunk, mut interrupt) in plans {
        if interrupt == 1 {
            interrupt = 0;
        }
        let mut data = r.bytes(pos as usize);
        data.extend_from_slice(b);
        let mut s = Stream::new(data, pos, Plan { chunk, interrupt, ..Plan::default() });
        let g = (it.reader)(&mut s, 0);
        let how = format!("from a reader at {} in pieces of {} with every {}th call interrupted", pos, chunk, interrupt);
        match (&g, used) {
            (Ok((bits, v)), Some(u)) => {
                ensure!(same(v), "{}: {} gives {}, but {} {}", it.name, hex(b), say(&base), how, short(&v.dbg()));
                ensure!(*bits == u, "{}: {}: {} bits used, but {} {}", it.name, hex(b), u, how, bits);
                if it.aligned {
                    ensure!(s.pos == pos + (u / 8) as u64, "{}: {}: the stream is left at {} instead of {} {}", it.name, hex(b), s.pos, pos + (u / 8) as u64, how);
                }
            }
            (Err(_), None) => {}
            (Ok((_, v)), None) => return fail(format!("{}: {} is rejected, but gives {} {}", it.name, hex(b), short(&v.dbg()), how)),
            (Err(e), Some(_)) => return fail(format!("{}: {} gives {}, but is rejected {}: {}", it.name, hex(b), say(&base), how, e)),
        }
        o.tag(if interrupt > 0 { "interrupted streams" } else if chunk > 0 { "chunked streams" } else { "streams" });
    }
    // bytes to skip in a stream
    let k = 1 + r.below(9) as usize;
    if it.name != "foreground" {
        let mut data = r.bytes(k + 4);
        data.extend_from_slice(b);
        let mut s = Stream::new(data, 4, Plan { chunk: r.below(3) as usize, ..Plan::default() });
        let g = (it.reader)(&mut s, 8 * k);
        let agree = match (&g, used) {
            (Ok((bits, v)), Some(u)) => same(v) && *bits == 8 * k + u,
            (Err(_), None) => true,
            _ => false,
        };
        ensure!(agree, "{}: {} gives {}, but after skipping {} bytes of a stream {:?}", it.name, hex(b), say(&base), k, g.map(|g| (g.0, short(&g.1.dbg()))));
        o.tag("skipped bytes of a stream");
    }
    // a whole buffer
    if it.aligned {
        let w = (it.whole)(b);
        match (&base, &w) {
            (Ok(s), Ok(w)) => ensure!(s.rest == 0 && s.value.same(&**w), "{}: {}: whole-buffer decoding disagrees: {}", it.name, hex(b), short(&w.dbg())),
            (Ok(s), Err(e)) => ensure!(s.rest > 0, "{}: {} gives {}, but is rejected as a whole: {}", it.name, hex(b), say(&base), e),
            (Err(_), Ok(w)) => return fail(format!("{}: {} is rejected, but as a whole gives {}", it.name, hex(b), short(&w.dbg()))),
            _ => {}
        }
    }
    o.tag(if base.is_ok() { "accepted" } else { "rejected" });
    if base.is_ok() {
        o.distinct(input);
    }
    Ok(())
}

/// Items one after the other in one stream.
pub fn sequence(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let all = all_items();
    let mut data = r.bytes(3);
    let mut parts = vec![];
    for _ in 0..2 + r.below(7) {
        let it = loop {
            let it = r.pick(all);
            if it.aligned && (!it.greedy || it.name == "foreground") {
                break it;
            }
        };
        let (x, ok) = (it.gen)(&mut r, Mode::Loose);
        if !ok || (it.slice)(&x, 0).map_or(true, |s| s.rest != 0) {
            continue;
        }
        data.extend_from_slice(&x);
        parts.push((it, x));
    }
    // the last one may use all there is
    let last = &all[0];
    let (x, ok) = (last.gen)(&mut r, Mode::Loose);
    if ok {
        data.extend_from_slice(&x);
        parts.push((last, x));
    }
    let plan = Plan { chunk: r.below(4) as usize, interrupt: *r.pick(&[0usize, 0, 2, 3]), ..Plan::default() };
    let mut s = Stream::new(data, 3, plan);
    for (i, (it, x)) in parts.iter().enumerate() {
        let alone = (it.slice)(x, 0);
        let g = (it.reader)(&mut s, 0);
        match (&alone, &g) {
            (Ok(a), Ok((bits, v))) => {
                ensure!(a.value.same(&**v) && *bits == 8 * x.len(), "item {} of a stream, {} {}: {} using {} bits", i, it.name, hex(x), short(&v.dbg()), bits);
            }
            (Ok(_), Err(e)) => return fail(format!("item {} of a stream, {} {}: {}", i, it.name, hex(x), e)),
            (Err(e), _) => return fail(format!("{} {} is rejected: {}", it.name, hex(x), e)),
        }
        o.tag("items of streams");
    }
    ensure!(s.pos == s.data.len() as u64, "the stream is left at {} of {}", s.pos, s.data.len());
    o.distinct(&s.data);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
];
/// Fail every operation of a decode in turn, then every operation of an encode.
pub fn fault(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let mut r = Rng::new(hash(input));
    let chunk = if b.len() < 200 { r.below(3) as usize } else { 0 };
    let mut s = Stream::new(b.to_vec(), 0, Plan { chunk, ..Plan::default() });
    let base = (it.reader)(&mut s, 0);
    let ops = s.ops;
    let log = s.log.clone();
    let points: Vec<usize> = if ops <= 300 { (0..ops + 2).collect() } else { (0..60).chain(ops - 20..ops + 2).chain((0..if ops > 3000 { 30 } else { 150 }).map(|_| r.below(ops as u64 + 2) as usize)).collect() };
    for n in points {
        let kind = *r.pick(&KINDS);
        let sticky = r.chance(1, 2);
        let mut s = Stream::new(b.to_vec(), 0, Plan { chunk, fault: Some((n, kind)), sticky, ..Plan::default() });
        let g = guard(|| (it.reader)(&mut s, 0));
        let what = match log.get(n) {
            Some(b's') => "seek",
            Some(b'r') => "read",
            _ => "operation",
        };
        let how = format!("{}: {}: {} {} of {} fails with {:?}{}", it.name, hex(b), what, n, ops, kind, if sticky { " and so do all after it" } else { "" });
        let g = match g {
            Ok(g) => g,
            Err(m) => return fail(format!("{}: {}", how, m)),
        };
        if s.fired {
            if let Ok((_, v)) = g {
                return fail(format!("{}: but the decoder returns {}", how, short(&v.dbg())));
            }
            o.tag(if what == "seek" { "failed seeks" } else { "failed reads" });
        } else {
            let agree = match (&base, &g) {
                (Ok(a), Ok(g)) => a.0 == g.0 && a.1.same(&*g.1),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(agree, "{}: but it was not reached and the result differs", how);
            o.tag("faults not reached");
        }
    }
    // slices have no faults; writers do
    if let Ok((_, v)) = base {
        let mut s = Stream::new(vec![], 0, Plan { chunk, ..Plan::default() });
        let e = v.denc_to(&mut s);
        let ops = s.ops;
        let bytes = s.data.clone();
        if e.is_ok() {
            let plain = v.denc();
            ensure!(plain.as_ref() == Ok(&bytes), "{}: {} encodes to {:?} into a buffer and to {} into a sink taking {} bytes at a time", it.name, short(&v.dbg()), plain.map(|x| hex(&x)), hex(&bytes), chunk);
        }
        let points: Vec<usize> = if ops <= 300 { (0..ops + 1).collect() } else { (0..60).chain(ops - 20..ops + 1).chain((0..if ops > 3000 { 30 } else { 100 }).map(|_| r.below(ops as u64 + 1) as usize)).collect() };
        for n in points {
            let kind = *r.pick(&KINDS);
            let sticky = r.chance(1, 2);
            let zero = r.chance(1, 5);
            let plan = if zero { Plan { chunk, zero: Some(n), ..Plan::default() } } else { Plan { chunk, fault: Some((n, kind)), sticky, ..Plan::default() } };
            let mut s = Stream::new(vec![], 0, plan);
            let g = guard(|| v.denc_to(&mut s));
            let how = format!("{}: {}: write {} of {} fails with {}", it.name, short(&v.dbg()), n, ops, if zero { "no progress".to_string() } else { format!("{:?}", kind) });
            let g = match g {
                Ok(g) => g,
                Err(m) => return fail(format!("{}: {}", how, m)),
            };
            if s.fired {
                ensure!(g.is_err(), "{}: but the encoder reports success", how);
                o.tag(if zero { "writes without progress" } else { "failed writes" });
            } else {
                ensure!(g.is_ok() == e.is_ok() && (e.is_err() || s.data == bytes), "{}: but it was not reached and the result differs", how);
                o.tag("write faults not reached");
            }
        }
        let mut s = Stream::new(vec![], 0, Plan { chunk, interrupt: 2, ..Plan::default() });
        let g = v.denc_to(&mut s);
        ensure!(g.is_ok() == e.is_ok() && (e.is_err() || s.data == bytes), "{}: {}: interrupted writes change the result", it.name, short(&v.dbg()));
        o.distinct(input);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C12

/// Every operation on values, for the sanitizers to watch: at each cut of the input.
pub fn memory(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let mut r = Rng::new(hash(input));
    let mut values: Vec<Dyn> = vec![];
    let cuts: Vec<usize> = if b.len() <= 90 { (0..=b.len()).collect() } else { (0..40).map(|_| r.below(b.len() as u64 + 1) as usize).chain([b.len()]).collect() };
    for c in cuts {
        // a buffer of exactly this size, so that reading past its end shows
        let cut: Box<[u8]> = b[..c].to_vec().into_boxed_slice();
        let _ = guard(|| {
            if let Ok(s) = (it.slice)(&cut, 0) {
                o.tag("decoded");
                values.push(s.value);
            } else {
                o.tag("refused");
            }
            let _ = (it.whole)(&cut);
            if c > 0 && it.aligned {
                let _ = (it.slice)(&cut, 8);
            }
        });
    }
    // what a call allocates is freed with its result, at a few of the cuts
    for i in 0..4 {
        let c = if i == 0 { b.len() } else { r.below(b.len() as u64 + 1) as usize };
        let cut = &b[..c];
        let once = || {
            let r = guard(|| {
                if let Ok(s) = (it.slice)(cut, 0) {
                    let d = s.value.dup();
                    drop(d.denc());
                }
            });
            drop(r);
        };
        once(); // fills what is set up once and for all
        crate::alloc::start();
        once();
        crate::alloc::stop();
        let kept = crate::alloc::kept();
        ensure!(kept == 0, "{}: {} bytes are not freed after decoding, cloning and encoding {}", it.name, kept, hex(cut));
        o.tag("balanced allocations");
    }
    let n = b.len();
    let _ = guard(|| {
        let mut s = Stream::new(b.to_vec(), 0, Plan { chunk: 1 + n % 3, interrupt: 3, ..Plan::default() });
        let _ = (it.reader)(&mut s, 0);
        let at = r.below(s.ops as u64 + 1) as usize;
        let mut s = Stream::new(b.to_vec(), 0, Plan { fault: Some((at, ErrorKind::Other)), ..Plan::default() });
        let _ = (it.reader)(&mut s, 0);
        o.add("decoded from streams", 2);
    });
    let step = 1 + values.len() / 6;
    for v in values.iter().rev().step_by(step) {
        let _ = guard(|| {
            let mut c = v.dup();
            let _ = c.same(&**v);
            let _ = v.denc();
            let _ = c.dupd();
            let _ = c.denc();
            let mut s = Stream::new(vec![], 0, Plan { fault: Some((1, ErrorKind::Other)), ..Plan::default() });
            let _ = c.denc_to(&mut s);
            drop(c);
            o.tag("values cloned, compared, updated, encoded");
        });
    }
    if let Some(v) = values.last() {
        let _ = guard(|| v.dbg().len());
    }
    o.distinct(input);
    Ok(())
}

/// The same at a price an interpreter can afford: a whole decode, two cuts and a failing stream per case.
pub fn memory_lite(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let mut r = Rng::new(hash(input));
    let cuts = [b.len(), r.below(b.len() as u64 + 1) as usize, r.below(b.len() as u64 + 1) as usize];
    let mut kept = None;
    for (i, c) in cuts.iter().enumerate() {
        let cut: Box<[u8]> = b[..*c].to_vec().into_boxed_slice();
        let got = guard(|| if i == 1 { (it.whole)(&cut).ok() } else { (it.slice)(&cut, 0).ok().map(|s| s.value) });
        match got {
            Ok(Some(v)) => {
                o.tag("decoded");
                kept = kept.or(Some(v));
            }
            _ => o.tag("refused"),
        }
    }
    let _ = guard(|| {
        let at = r.below(b.len() as u64 + 2) as usize;
        let mut s = Stream::new(b.to_vec(), 0, Plan { chunk: 1, fault: Some((at, ErrorKind::Other)), ..Plan::default() });
        let _ = (it.reader)(&mut s, 0);
        o.tag("decoded from a failing stream");
    });
    if let Some(v) = kept {
        let _ = guard(|| {
            let mut c = v.dup();
            let _ = c.same(&*v);
            let _ = c.dupd();
            let _ = c.denc();
            let mut s = Stream::new(vec![], 0, Plan { fault: Some((1, ErrorKind::Other)), ..Plan::default() });
            let _ = v.denc_to(&mut s);
            o.tag("values cloned, compared, updated, encoded");
        });
    }
    o.distinct(input);
    Ok(())
}

/// Values made from parts rather than from bytes: every operation on them, watched and with the memory it takes balanced.
pub fn memory_values(input: &[u8], o: &mut Obs) -> Verdict {
    for (what, check) in [("scrambled values", scrambled as Check), ("numbers out of range", out_of_range as Check), ("values changed and updated", updates as Check)] {
        let once = || {
            let mut sub = Obs::default();
            let _ = run_check(check, input, &mut sub);
        };
        once(); // fills what is set up once and for all
        crate::alloc::start();
        once();
        crate::alloc::stop();
        let kept = crate::alloc::kept();
        ensure!(kept == 0, "{} bytes are not freed after working on {}", kept, what);
        o.tag(&format!("balanced allocations: {}", what));
    }
    o.distinct(input);
    Ok(())
}
/// A few such values, for an interpreter.
pub fn memory_values_lite(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let (x, y, z) = (r.edgy(8) as u8, r.edgy(8) as u8, r.edgy(32) as u32);
    let text = |r: &mut Rng| -> String {
        let t: String = (0..r.below(9)).map(|_| *r.pick(&['a', 'é', '\u{0}', '漢', 'z'])).collect();
        String::from(t.into_boxed_str())
    };
    let n = r.below(9) as usize;
    let fo = op::FileOffset { file_id: x, offset: z.into() };
    let cs = phy::ChannelStatus {
        identifier: phy::ChannelStatusIdentifier { channel_band: phy::ChannelBand::Band433, bandwidth: phy::Bandwidth::KHz200, index: z as _ },
        noise_floor: x as _,
    };
    let v: Vec<Dyn> = match r.below(6) {
        0 | 1 => {
            let mut v: Vec<Dyn> = vec![];
            for _ in 0..3 {
                let mut s = S::gen(&mut r);
                if let Ok(mut f) = model::firmware_version(&mut s) {
                    f.application_name = text(&mut r);
                    f.git_sha1 = text(&mut r);
                    v.push(Box::new(f.clone()));
                    v.push(Box::new(FileOf::<0x02, 15>(File::FirmwareVersion(f))));
                }
            }
            v
        }
        2 => vec![
            Box::new(VarInt::new_unchecked(z, x & 1 > 0)),
            Box::new(VarInt::new_unchecked(1 << 19, x & 1 > 0)),
            Box::new(op::Length::from(z)),
            Box::new(link::AccessClass { specifier: x, mask: y }),
            Box::new(fo),
        ],
        3 => vec![
            Box::new(file::PhyStatus::new(z, z, z, z as u16, vec![cs.clone(); n])),
            Box::new(FileOf::<0x09, 15>(File::PhyStatus(file::PhyStatus::new(z, z, z, z as u16, vec![cs; if x == 0 { 256 } else { 2 }])))),
            Box::new(q::Query::StringTokenSearch(q::StringTokenSearch::new(x, r.bytes(n), r.bytes(y as usize % 4), fo))),
        ],
        4 => {
            let fd = op::FileData::new(op::ActionHeader::new(true, false), fo, File::Other(r.bytes(n)), OpCode(y));
            vec![
                Box::new(Action::ReturnFileData(fd)),
                Box::new(Action::Status(op::StatusOperand {
                    status_type: op::StatusType::Interface,
                    opcode: OpCode(34),
                    status: op::Status::Interface(op::InterfaceStatusOperation { interface_type: ses::InterfaceType::Dash7, status: ses::InterfaceStatus::Other(r.bytes(n)) }),
                })),
            ]
        }
        _ => {
            let mut s = S::gen(&mut r);
            match model::access_profile(&mut s) {
                Ok(p) => vec![Box::new(FileOf::<0x21, 65>(File::AccessProfile02(file::AccessProfile { profile: p })))],
                Err(_) => vec![],
            }
        }
    };
    for v in v {
        let mut c = v.dup();
        let _ = guard(|| {
            let _ = c.same(&*v);
            let _ = v.denc();
            let _ = c.dupd();
            let mut s = Stream::new(vec![], 0, Plan { fault: Some((1, ErrorKind::Other)), ..Plan::default() });
            let _ = c.denc_to(&mut s);
        });
        o.tag("values made from parts");
    }
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13

pub const FIXED: usize = 8 * 1024;
pub const PER_BYTE: usize = 1024;
pub fn frugal(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let bound = FIXED + PER_BYTE * b.len();
    let mut s = Stream::new(b.to_vec(), 0, Plan::default());
    let mut worst = 0;
    for (i, how) in ["slice", "whole buffer", "reader"].iter().enumerate() {
        crate::alloc::start();
        let ok = match i {
            0 => (it.slice)(b, 0).is_ok(),
            1 => (it.whole)(b).is_ok(),
            _ => (it.reader)(&mut s, 0).is_ok(),
        };
        let (peak, biggest) = crate::alloc::stop();
        let used = peak.max(biggest);
        ensure!(
            used <= bound,
            "{}: decoding {} ({} bytes) from a {} takes {} bytes of memory at once, the largest block having {}; it is {}",
            it.name,
            short(&hex(b)),
            b.len(),
            how,
            peak,
            biggest,
            if ok { "accepted" } else { "rejected" }
        );
        worst = worst.max(used);
    }
    // report how close to the bound: in sixteenths
    o.tag(&format!("peak at {:02}/16 of the bound", worst * 16 / bound));
    if worst > 0 {
        o.tag("decodes that allocate");
        o.distinct(input);
    }
    o.sample_with(|| format!("{} {}: {} bytes at peak", it.name, short(&hex(b)), worst));
    Ok(())
}
/// Inputs declaring far more than they hold.
pub fn liar(r: &mut Rng) -> Vec<u8> {
    let name = *r.pick(&["command", "action", "query", "network", "transport", "interface-status-op", "file-fa", "phy-status", "file-09", "command", "action", "foreground", "is-other", "file-f9"]);
    let i = item_index(name);
    let it = &all_items()[i as usize];
    let mut b = (it.gen)(r, Mode::Loose).0;
    // make one byte a long length field
    let n = b.len().max(1);
    b.resize(n, 0);
    let at = match r.below(3) {
        0 => r.below(n as u64) as usize,
        1 => n.min(1 + r.below(4) as usize) - 1,
        _ => n - 1 - r.below(n.min(6) as u64) as usize,
    };
    let big = [0xC0 | r.byte() & 0x3F, r.byte(), r.byte(), r.byte()];
    let huge = [0xFFu8, 0xFF, 0xFF, 0xFF];
    let mid = [0xBFu8, 0xFF, 0xFF, 0];
    let f = *r.pick(&[big, huge, mid]);
    b.splice(at..(at + 1).min(n), f);
    b.truncate(at + 4 + r.below(12) as usize);
    b.insert(0, i);
    b
}

// ------------------------------------------------------------------------------------------ C14

/// All there is to know about the outcome of a decode, and of encoding the result.
pub fn outcome(it: &Item, b: &[u8]) -> String {
    let g = guard(|| {
        let s = (it.slice)(b, 0);
        let w = (it.whole)(b).is_ok();
        let mut st = Stream::new(b.to_vec(), 0, Plan::default());
        let r = (it.reader)(&mut st, 0).map(|x| x.0);
        match s {
            Ok(s) => format!("{} {} {} {:?} {} {:?}", s.rest, s.bits, w, r, s.value.dbg(), s.value.denc()),
            Err(e) => format!("{} {} {:?}", e, w, r),
        }
    });
    match g {
        Ok(s) => s,
        Err(m) => format!("panic {}", m),
    }
}
pub fn window(seed: u64, n: usize) -> Vec<(u8, Vec<u8>)> {
    let mut r = Rng::new(seed);
    let all = all_items();
    (0..n)
        .map(|_| {
            let i = r.below(all.len() as u64) as usize;
            // commands are what matters most
            let i = if r.chance(1, 3) { r.below(3) as usize } else { i };
            (i as u8, sample(&mut r, &all[i]))
        })
        .collect()
}
pub fn pure(input: &[u8], o: &mut Obs) -> Verdict {
    let seed = seed_of(input);
    let mut r = Rng::new(seed ^ 1);
    let cases = Arc::new(window(seed, 20));
    let all = all_items();
    let want: Vec<String> = cases.iter().map(|(i, b)| outcome(&all[*i as usize], b)).collect();
    let tell = |k: usize, how: &str, got: &str| -> Verdict {
        let (i, b) = &cases[k];
        fail(format!("{}: {}: {} gives {} instead of {}", all[*i as usize].name, hex(b), how, short(got), short(&want[k])))
    };
    for k in (0..cases.len()).rev() {
        let (i, b) = &cases[k];
        for _ in 0..2 {
            let g = outcome(&all[*i as usize], b);
            if g != want[k] {
                return tell(k, "a repeated call", &g);
            }
            o.tag("repeated calls");
        }
    }
    // the same argument right after every other one
    for _ in 0..40 {
        let (j, k) = (r.below(20) as usize, r.below(20) as usize);
        let _ = outcome(&all[cases[j].0 as usize], &cases[j].1);
        let g = outcome(&all[cases[k].0 as usize], &cases[k].1);
        if g != want[k] {
            return tell(k, &format!("a call after {} {}", all[cases[j].0 as usize].name, hex(&cases[j].1)), &g);
        }
        o.tag("ordered pairs of calls");
    }
    // in other threads, all at once
    let threads = 6;
    let start = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (cases, start) = (cases.clone(), start.clone());
            let mut order: Vec<usize> = (0..cases.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            let _ = t;
            std::thread::spawn(move || {
                start.wait();
                order.into_iter().map(|k| (k, outcome(&all_items()[cases[k].0 as usize], &cases[k].1))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (k, g) in h.join().unwrap() {
            if g != want[k] {
                return tell(k, "a call beside other threads", &g);
            }
            o.tag("concurrent calls");
        }
    }
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15

fn frame<T: Codec>(b: &[u8], o: &mut Obs, name: &str, f: impl Fn(&mut S) -> R<String>) -> Verdict {
    let mut s = S::read(b);
    let want = f(&mut s);
    let got = T::slice(b, 0);
    match want {
        Err(E::Ambig) => o.tag("undecided order of errors"),
        Err(e) => {
            if let Ok(g) = got {
                return fail(format!("{}: {} is not well formed ({:?}) but decodes to {:?}", name, hex(b), e, g.value));
            }
            ensure!(T::whole(b).is_err(), "{}: {} is not well formed ({:?}) but accepted as a whole", name, hex(b), e);
            o.tag(&format!("rejections {}", name));
            if b.len() > 3 {
                o.distinct(b);
            }
        }
        Ok(w) => {
            let g = match got {
                Ok(g) => g,
                Err(e) => return fail(format!("{}: {} means {} but is rejected: {:?}", name, hex(b), w, e)),
            };
            let dbg = model::norm(&format!("{:?}", g.value));
            ensure!(dbg == w, "{}: {} means {} but decodes to {}", name, hex(b), w, dbg);
            let used = s.pos / 8;
            ensure!(g.rest == b.len() - used && g.bits == 0, "{}: {} takes {} bytes but {} are left over", name, hex(b), used, g.rest);
            ensure!(T::whole(b).is_ok() == (g.rest == 0), "{}: {}: whole-buffer decoding disagrees", name, hex(b));
            let e = match g.value.enc() {
                Ok(e) => e,
                Err(e) => return fail(format!("{}: {} decodes to {:?}, which does not encode: {:?}", name, hex(b), g.value, e)),
            };
            if e != s.canon.bytes && !s.holes.is_empty() && e == s.canon_without_holes() {
                return known(KF1, format!("{} decodes to {:?}, which encodes to {}", hex(b), g.value, hex(&e)));
            }
            ensure!(e == s.canon.bytes, "{}: {} encodes again to {} instead of {}", name, hex(b), hex(&e), hex(&s.canon.bytes));
            o.tag(&format!("acceptances {}", name));
            if e == b[..used] {
                o.tag("encoded back to the same bytes");
            }
            o.distinct(b);
            o.sample_with(|| short(&format!("{} {}", name, hex(b))));
        }
    }
    Ok(())
}
pub fn frames(input: &[u8], o: &mut Obs) -> Verdict {
    let b = &input[1..];
    let strip = |x: String| -> String { x };
    match input[0] {
        0 => frame::<link::ForegroundFrame>(b, o, "foreground", model::foreground_frame),
        1 => frame::<link::BackgroundFrame>(b, o, "background", model::background_frame),
        2 => frame::<net::Frame>(b, o, "network", |s| Ok(strip(model::network_frame(s, 0)?.0))),
        3 => {
            frame::<tr::Frame>(b, o, "transport", |s| Ok(model::norm(&format!("{:?}", model::transport_frame(s, 0)?))))?;
            let mut s = S::read(b);
            if let (Ok(w), Ok(g)) = (model::transport_frame(&mut s, 0), tr::Frame::slice(b, 0)) {
                ensure!(w == g.value, "transport: {} means {:?} but decodes to {:?}", hex(b), w, g.value);
            }
            Ok(())
        }
        4 => frame::<net::Control>(b, o, "network control", |s| {
            let (a, h, t, n) = model::network_control(s)?;
            Ok(format!("Control {{ {:?}, {:?}, {:?}, {:?} }}", a, h, t, n))
        }),
        5 => frame::<net::HoppingControl>(b, o, "hopping control", |s| {
            let (c, d) = model::hopping_control(s)?;
            Ok(format!("HoppingControl {{ {:?}, {:?} }}", c, d))
        }),
        _ => frame::<tr::Control>(b, o, "transport control", |s| Ok(model::norm(&format!("{:?}", model::transport_control(s)?)))),
    }
}
pub const FRAME_ITEMS: [&str; 7] = ["foreground", "background", "network", "transport", "network-control", "hopping-control", "transport-control"];
pub fn gen_frame(r: &mut Rng) -> Vec<u8> {
    let k = *r.pick(&[0usize, 0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6]);
    let it = &all_items()[item_index(FRAME_ITEMS[k]) as usize];
    let mode = if r.chance(1, 150) { Mode::Big } else { *r.pick(&[Mode::Canon, Mode::Loose, Mode::Hostile]) };
    let mut b = if mode == Mode::Big || r.chance(2, 3) { (it.gen)(r, mode).0 } else { sample(r, it) };
    // the length of a foreground frame: off by a little, zero, far off
    if k == 0 && !b.is_empty() && r.chance(1, 3) {
        b[0] = match r.below(5) {
            0 => 0,
            1 => b[0].wrapping_add(1),
            2 => b[0].wrapping_sub(1),
            3 => b[0].wrapping_sub(r.below(8) as u8),
            _ => r.byte(),
        };
    }
    b.insert(0, k as u8);
    b
}

// ------------------------------------------------------------------------------------------ C16

/// Any identifier, any requested length.
pub fn any_file(input: &[u8], o: &mut Obs) -> Verdict {
    let id = input[0];
    let len = u16::from_le_bytes([input[1], input[2]]) as u32;
    let b = &input[3..];
    let fid: FileId = match id.try_into() {
        Ok(f) => f,
        Err(e) => return fail(format!("{:02X} is not a file identifier: {:?}", id, e)),
    };
    let mut s = S::read(b);
    let want = model::file_body(&mut s, id, len as usize);
    let got = File::from_bytes((b, 0), fid.clone(), len);
    match (want, got) {
        (Ok(w), Ok((rest, g))) => {
            ensure!(w == g, "file {:02X} of {} bytes {} means {:?} but decodes to {:?}", id, len, hex(b), w, g);
            ensure!(rest.0.len() == b.len() - s.pos / 8 && rest.1 == 0, "file {:02X} of {} bytes {}: {} bytes are left over", id, len, hex(b), rest.0.len());
            let mut st = Stream::new(vec![], 0, Plan::default());
            let mut wr = Writer::new(&mut st);
            let r = g.to_writer(&mut wr, (fid, len)).and_then(|_| wr.finalize());
            ensure!(r.is_ok() && st.data == s.canon.bytes, "file {:02X} {} encodes again to {} ({:?}) instead of {}", id, hex(b), hex(&st.data), r, hex(&s.canon.bytes));
            o.tag(if model::file_size(id, b).is_some() { "structured files" } else { "unstructured files" });
            o.distinct(input);
            o.sample_with(|| short(&format!("file {:02X}: {:?}", id, g)));
        }
        (Err(E::Ambig), _) => o.tag("undecided order of errors"),
        (Err(_), Err(_)) => o.tag("refused files"),
        (Ok(w), Err(e)) => return fail(format!("file {:02X} of {} bytes {} means {:?} but is rejected: {:?}", id, len, hex(b), w, e)),
        (Err(e), Ok((_, g))) => return fail(format!("file {:02X} of {} bytes {} is not well formed ({:?}) but decodes to {:?}", id, len, hex(b), e, g)),
    }
    Ok(())
}
pub fn gen_any_file(r: &mut Rng) -> Vec<u8> {
    let id = match r.below(3) {
        0 => r.byte(),
        _ => *r.pick(&model::TYPED),
    };
    let len = if r.chance(1, 100) { *r.pick(&[255u16, 256, 257, 1024, 4095, 4096, 4097, 16384, 32768, 65535]) } else { r.below(80) as u16 };
    let mode = *r.pick(&[Mode::Canon, Mode::Loose, Mode::Hostile]);
    let mut b = draw(r, mode, |s| model::file_body(s, id, len as usize)).0;
    if r.chance(1, 3) {
        b = mutate(r, b);
    }
    if r.chance(1, 4) {
        let k = r.below(9) as usize;
        b.extend(r.bytes(k));
    }
    let mut v = vec![id];
    v.extend(len.to_le_bytes());
    v.extend(b);
    v
}
fn named() -> Vec<(u8, FileId)> {
    use FileId::*;
    vec![
        (0x00, UId),
        (0x01, FactorySettings),
        (0x02, FirmwareVersion),
        (0x03, DeviceCapacity),
        (0x04, DeviceStatus),
        (0x05, EngineeringMode),
        (0x06, VId),
        (0x08, PhyConfig),
        (0x09, PhyStatus),
        (0x0A, DllConfig),
        (0x0B, DllStatus),
        (0x0C, NetworkRouting),
        (0x0D, NetworkSecurity),
        (0x0E, NetworkSecurityKey),
        (0x0F, NetworkSsr),
        (0x10, NetworkStatus),
        (0x11, TrlStatus),
        (0x12, SelConfig),
        (0x13, FofStatus),
        (0x17, LocationData),
        (0x18, RootKey),
        (0x19, UserKey),
        (0x1B, SensorDescription),
        (0x1C, Rtc),
        (0x20, AccessProfile00),
        (0x21, AccessProfile01),
        (0x22, AccessProfile02),
        (0x23, AccessProfile03),
        (0x24, AccessProfile04),
        (0x25, AccessProfile05),
        (0x26, AccessProfile06),
        (0x27, AccessProfile07),
        (0x28, AccessProfile08),
        (0x29, AccessProfile09),
        (0x2A, AccessProfile10),
        (0x2B, AccessProfile11),
        (0x2C, AccessProfile12),
        (0x2D, AccessProfile13),
        (0x2E, AccessProfile14),
    ]
}
/// The identifier that the structure in a file gives itself.
pub fn told_id(f: &File) -> Option<u8> {
    fn id<T: SystemFile>(_: &T) -> Option<u8> {
        Some(T::ID)
    }
    macro_rules! told {
        ($($v:ident)*) => {
            match f {
                $(File::$v(p) if p.specifier() != id(p)?.wrapping_sub(0x20) => Some(0xFF),
                File::$v(p) => id(p),)*
                File::FirmwareVersion(v) => id(v),
                _ => None,
            }
        };
    }
    told!(AccessProfile00 AccessProfile01 AccessProfile02 AccessProfile03 AccessProfile04 AccessProfile05 AccessProfile06 AccessProfile07
        AccessProfile08 AccessProfile09 AccessProfile10 AccessProfile11 AccessProfile12 AccessProfile13 AccessProfile14)
}
/// One identifier: its name, its number, its constants.
pub fn file_ids(input: &[u8], o: &mut Obs) -> Verdict {
    let id = input[0];
    let table = named();
    let f: FileId = match id.try_into() {
        Ok(f) => f,
        Err(e) => return fail(format!("{:02X} is not a file identifier: {:?}", id, e)),
    };
    match table.iter().find(|x| x.0 == id) {
        Some((_, name)) => {
            ensure!(f == *name, "{:02X} is {:?}, not {:?}", id, f, name);
            let back: u8 = f.clone().into();
            ensure!(back == id, "{:?} converts to {:02X}", f, back);
            ensure!(Codec::enc(&f) == Ok(vec![id]), "{:?} encodes to {:?}", f, Codec::enc(&f));
            o.tag("named identifiers");
        }
        None => {
            ensure!(!table.iter().any(|x| x.1 == f), "{:02X} is taken for {:?}", id, f);
            o.tag("unnamed identifiers");
        }
    }
    ensure!(FileId::whole(&[id]) == Ok(f.clone()), "{:02X} decodes to {:?}", id, FileId::whole(&[id]));
    macro_rules! ap {
        ($($n:literal)*) => {$(
            ensure!(<file::AccessProfile<$n> as SystemFile>::ID == 0x20 + $n, "identifier of access profile {}", $n);
        )*};
    }
    ap!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    ensure!(<file::FirmwareVersion as SystemFile>::ID == 2, "identifier of the firmware version");
    // what is in the file knows which one it is
    let mut r = Rng::new(id as u64);
    let b = draw(&mut r, Mode::Canon, |s| model::file_body(s, id, 9)).0;
    if let Ok((_, x)) = File::from_bytes((&b, 0), f, b.len() as u32) {
        if let Some(n) = told_id(&x) {
            ensure!(n == id, "the structure of {:?} calls itself file {:02X}, but it was decoded as file {:02X}", x, n, id);
            o.tag("structures that know their file");
        }
    }
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C17

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// Commands in which tags and statuses are frequent.
fn tagged(r: &mut Rng) -> Option<Command> {
    let mut actions = vec![];
    let long = r.chance(1, 150);
    let n = if long { 250 + r.below(14) + r.below(5) * 256 } else { r.below(9) };
    for i in 0..n {
        let code = match r.below(6) {
            // in long commands, tags and statuses are far behind
            0..=3 if long && i + 8 < n => *r.pick(&[0u8, 1, 2, 23]),
            0 => 52,
            1 => 35,
            2 | 3 => 34,
            _ => *r.pick(&model::opcodes()),
        };
        let mut s = S::gen(r);
        actions.push(model::action(&mut s, Some(code)).ok()?);
    }
    Some(Command { actions })
}
/// A text sink of which one call fails.
struct TextSink {
    text: String,
    calls: usize,
    fail: usize,
    lasting: bool,
}
impl std::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if k == self.fail || self.lasting && k > self.fail {
            return Err(std::fmt::Error);
        }
        if k < self.fail {
            self.text.push_str(s);
        }
        Ok(())
    }
}
/// Printing into a sink that fails at some call.
pub fn text_sink(input: &[u8], o: &mut Obs) -> Verdict {
    use std::fmt::Write;
    let mut r = Rng::new(seed_of(input));
    let Some(c) = tagged(&mut r) else { return Ok(()) };
    let one = |r: &mut Rng, what: &str, x: &dyn std::fmt::Display, o: &mut Obs| -> Verdict {
        let mut s = TextSink { text: String::new(), calls: 0, fail: usize::MAX, lasting: false };
        let done = write!(s, "{}", x);
        let (all, n) = (s.text, s.calls);
        ensure!(done.is_ok() && all == x.to_string(), "{}: {:?} into a sink: {:?}", what, short(&x.to_string()), all);
        for k in 0..n.min(24) {
            let fail = if n > 24 { r.below(n as u64) as usize } else { k };
            let lasting = r.chance(1, 2);
            let mut s = TextSink { text: String::new(), calls: 0, fail, lasting };
            let done = write!(s, "{}", x);
            ensure!(done.is_err(), "{}: call {} of {} to the sink fails, but printing {:?} succeeds", what, fail, n, short(&all));
            ensure!(all.starts_with(&s.text), "{}: {:?} is printed before the failure of {:?}", what, s.text, short(&all));
            o.tag("failed prints");
        }
        o.distinct(all.as_bytes());
        Ok(())
    };
    one(&mut r, "command", &c, o)?;
    if let Some(i) = c.interface_status() {
        one(&mut r, "interface status", i, o)?;
    }
    for a in &c.actions {
        if let Action::Status(op::StatusOperand { status: op::Status::Interface(i), .. }) = a {
            one(&mut r, "interface status", &i.status, o)?;
            if let ses::InterfaceStatus::Dash7(d) = &i.status {
                one(&mut r, "dash7 interface status", d, o)?;
            }
        }
    }
    Ok(())
}
pub fn report(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let Some(c) = tagged(&mut r) else { return Ok(()) };
    let mut req: Option<&op::RequestTag> = None;
    let mut resp: Option<&op::ResponseTag> = None;
    let mut status: Option<&ses::InterfaceStatus> = None;
    let mut others: Vec<&Action> = vec![];
    for a in &c.actions {
        match a {
            Action::RequestTag(t) if req.is_none() => req = Some(t),
            Action::ResponseTag(t) if resp.is_none() => resp = Some(t),
            _ => {}
        }
        match a {
            Action::Status(op::StatusOperand { status: op::Status::Interface(i), .. }) => {
                if status.is_none() {
                    status = Some(&i.status)
                }
            }
            _ => others.push(a),
        }
    }
    let tag = req.map(|t| t.id).or(resp.map(|t| t.id));
    let last = resp.map_or(false, |t| t.header.end_of_packet);
    ensure!(c.request_tag() == req, "{:?}: request_tag() = {:?}", c, c.request_tag());
    ensure!(c.response_tag() == resp, "{:?}: response_tag() = {:?}", c, c.response_tag());
    ensure!(c.request_id() == req.map(|t| t.id), "{:?}: request_id() = {:?}", c, c.request_id());
    ensure!(c.response_id() == resp.map(|t| t.id), "{:?}: response_id() = {:?}", c, c.response_id());
    ensure!(c.tag_id() == tag, "{:?}: tag_id() = {:?}", c, c.tag_id());
    ensure!(c.interface_status() == status, "{:?}: interface_status() = {:?}", c, c.interface_status());
    ensure!(c.is_last_response() == last, "{:?}: is_last_response() = {:?}", c, c.is_last_response());
    let got = c.actions_without_interface_status();
    ensure!(got == others, "{:?}: actions_without_interface_status() = {:?}", c, got);
    ensure!(got.iter().zip(&others).all(|(a, b)| std::ptr::eq(*a, *b)), "{:?}: actions_without_interface_status() repeats or reorders actions", c);
    // the text, whatever its spacing
    let mut text = String::from("Command ");
    if let Some(t) = tag {
        text += &format!("with tag {} ", t);
    }
    text += match resp {
        Some(t) if t.header.end_of_packet && t.header.error => "(completed, with error)",
        Some(t) if t.header.end_of_packet => "(completed, without error)",
        _ => "(executing)",
    };
    if !others.is_empty() {
        text += " actions: ";
        for a in &others {
            text += &format!("{:?} ", a);
        }
    }
    if let Some(s) = status {
        text += &format!(" interface status: {} ", status_text(s));
    }
    let (a, b) = (squeeze(&format!("{}", c)), squeeze(&text));
    ensure!(a == b, "{:?} reads {:?} instead of {:?}", c, a, b);
    if let Some(s) = status {
        ensure!(squeeze(&format!("{}", s)) == squeeze(&status_text(s)), "{:?} reads {:?}", s, format!("{}", s));
    }
    o.tag(match (req.is_some(), resp.is_some()) {
        (true, true) => "both tags",
        (true, false) => "request tag",
        (false, true) => "response tag",
        _ => "no tag",
    });
    if status.is_some() {
        o.tag("with interface status");
    }
    o.distinct(b.as_bytes());
    o.sample_with(|| short(&b));
    Ok(())
}
fn status_text(s: &ses::InterfaceStatus) -> String {
    match s {
        ses::InterfaceStatus::Host => "HostInterfaceStatus{}".into(),
        ses::InterfaceStatus::Serial => "SerialInterfaceStatus{}".into(),
        ses::InterfaceStatus::Other(v) => format!("OtherInterfaceStatus{{ {:?} }}", v),
        ses::InterfaceStatus::Dash7(d) => format!(
            "Dash7InterfaceStatus {{ channel: {:?}, rx_level: {:?}, link_budget: {:?}, target_rx_level: {:?}, nls: {:?}, missed: {:?}, retry: {:?}, unicast: {:?}, fifo_token: {:?}, sequence_number: {:?}, response_timeout: {:?}, addressee: {:?},  }}",
            d.channel,
            d.rx_level,
            d.link_budget,
            d.target_rx_level,
            d.nls,
            d.missed,
            d.retry,
            d.unicast,
            d.fifo_token,
            d.sequence_number,
            Into::<u32>::into(d.response_timeout),
            d.addressee
        ),
    }
}
pub fn status_codes(input: &[u8], o: &mut Obs) -> Verdict {
    let n = input[0];
    let c = op::StatusCode(n);
    ensure!(c.is_err() == (n >= 0x80), "status code {:02X}: is_err() = {}", n, c.is_err());
    ensure!(op::StatusCode::whole(&[n]) == Ok(op::StatusCode(n)) && Codec::enc(&c) == Ok(vec![n]), "status code {:02X} does not keep its number", n);
    o.tag("status codes");
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C20

/// Updating a value built from its parts changes nothing.
pub fn settled_of(input: &[u8], o: &mut Obs, name: &str, t: &Ops) -> Verdict {
    let Some((v, _, _, _)) = generate(input, t.f) else { return Ok(()) };
    let mut w = v.dup();
    if let Err(e) = w.dupd() {
        return fail(format!("{}: updating {:?} fails: {:?}", name, v, e));
    }
    ensure!(*w == *v, "{}: updating {:?} changes it to {:?}", name, v, w);
    o.tag("settled values");
    Ok(())
}
fn fresh<T: Codec>(o: &mut Obs, what: &str, before: &T, changed: T, scratch: T) -> Verdict {
    fresh_of(o, what, before, Box::new(changed), Box::new(scratch), dyn_whole::<T>)
}
fn fresh_of(o: &mut Obs, what: &str, before: &dyn Val, mut changed: Dyn, scratch: Dyn, whole: fn(&[u8]) -> Result<Dyn, String>) -> Verdict {
    let mut again = scratch.dup();
    if let Err(e) = again.dupd() {
        return fail(format!("{}: updating {:?} fails: {:?}", what, scratch, e));
    }
    ensure!(*again == *scratch, "{}: updating {:?} changes it to {:?}", what, scratch, again);
    if let Err(e) = changed.dupd() {
        return fail(format!("{}: updating {:?} fails: {:?}", what, changed, e));
    }
    let (a, b) = (changed.denc(), scratch.denc());
    ensure!(a == b, "{}: {:?}, changed and updated to {:?}, encodes to {:?}; built from scratch it encodes to {:?}", what, before, changed, a.map(|x| hex(&x)), b.map(|x| hex(&x)));
    ensure!(*changed == *scratch, "{}: {:?}, changed and updated, is {:?}; built from scratch it is {:?}", what, before, changed, scratch);
    if let Ok(e) = b {
        let d = whole(&e);
        ensure!(d.as_ref().is_ok_and(|x| **x == *scratch), "{}: {:?} encodes to {}, which decodes to {:?}", what, scratch, hex(&e), d);
        o.distinct(&e);
        o.sample_with(|| short(&format!("{:?} changed to {:?}", before, changed)));
    }
    o.tag(&format!("updates {}", what));
    Ok(())
}
fn blob(r: &mut Rng, n: usize) -> Vec<u8> {
    if r.chance(1, 3) {
        vec![*r.pick(&[0u8, 0xFF]); n]
    } else {
        r.bytes(n)
    }
}
pub fn updates(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let mut s = S::gen(&mut r);
    let parts = (|| -> R<_> {
        Ok((
            (model::addressee(&mut s)?, model::addressee(&mut s)?),
            (model::indirect_interface(&mut s)?, model::indirect_interface(&mut s)?),
            (model::phy_status(&mut s)?, model::phy_status(&mut s)?),
            (model::file_offset(&mut s)?, model::file_offset(&mut s)?, model::file_offset(&mut s)?),
        ))
    })();
    let Ok(((a1, a2), (i1, i2), (p1, p2), (f1, f2, f3))) = parts else { return Ok(()) };
    let arith = |r: &mut Rng| q::ArithmeticQueryParams {
        signed: r.chance(1, 2),
        comparison_type: match r.below(6) {
            0 => q::ArithmeticComparisonType::Inequal,
            1 => q::ArithmeticComparisonType::Equal,
            2 => q::ArithmeticComparisonType::LessThan,
            3 => q::ArithmeticComparisonType::LessThanOrEqual,
            4 => q::ArithmeticComparisonType::GreaterThan,
            _ => q::ArithmeticComparisonType::GreaterThanOrEqual,
        },
    };
    let size = |r: &mut Rng| if r.chance(1, 60) { *r.pick(&[1023usize, 4096, 16383, 16384, 32768, 65535, 65536]) } else { *r.pick(&[0usize, 1, 2, 3, 9, 62, 63, 64, 65, 255, 256, 300]) };
    let (n1, n2) = (size(&mut r), size(&mut r));
    let (q1, q2) = (arith(&mut r), arith(&mut r));
    match r.below(9) {
        0 | 1 => {
            // every subset of the parts
            let m = r.below(32);
            let mut c = a1.clone();
            if m & 1 > 0 {
                c.address = a2.address.clone();
            }
            if m & 2 > 0 {
                c.nls_state = a2.nls_state.clone();
            }
            if m & 4 > 0 {
                c.access_class = a2.access_class.clone();
            }
            #[cfg(feature = "wizzilab")]
            {
                if m & 8 > 0 {
                    c.use_vid = a2.use_vid;
                }
                if m & 16 > 0 {
                    c.group_condition = a2.group_condition.clone();
                }
            }
            #[cfg(not(feature = "wizzilab"))]
            let scratch = net::Addressee::new(c.address.clone(), c.nls_state.clone(), c.access_class.clone());
            #[cfg(feature = "wizzilab")]
            let scratch = net::Addressee::new(c.use_vid, c.group_condition.clone(), c.address.clone(), c.nls_state.clone(), c.access_class.clone());
            fresh(o, "addressee", &a1, c, scratch)
        }
        2 => {
            let old = q::ComparisonWithZero::new(q1, blob(&mut r, n1), f1);
            let mut c = old.clone();
            let mask = blob(&mut r, n2);
            c.mask = mask.clone();
            if r.chance(1, 2) {
                c.params = q2;
                c.file = f2;
            }
            let scratch = q::ComparisonWithZero::new(c.params.clone(), mask, c.file.clone());
            bits(o, "comparison with zero", old, c, scratch)
        }
        3 => {
            let m = |r: &mut Rng, n: usize| if r.chance(1, 2) { blob(r, n) } else { vec![] };
            let old = q::ComparisonWithValue::new(q1, m(&mut r, n1), blob(&mut r, n1), f1);
            let mut c = old.clone();
            c.mask = m(&mut r, n2);
            c.value = blob(&mut r, n2);
            if r.chance(1, 2) {
                c.params = q2;
                c.file = f2;
            }
            let scratch = q::ComparisonWithValue::new(c.params.clone(), c.mask.clone(), c.value.clone(), c.file.clone());
            bits(o, "comparison with value", old, c, scratch)
        }
        4 => {
            let old = q::ComparisonWithOtherFile::new(q1, blob(&mut r, n1), f1.clone(), f3);
            let mut c = old.clone();
            c.mask = blob(&mut r, n2);
            // the length is one of the parts here
            c.length = c.mask.len().into();
            c.file1 = f2;
            if r.chance(1, 2) {
                c.params = q2;
                c.file2 = f1;
            }
            let scratch = q::ComparisonWithOtherFile::new(c.params.clone(), c.mask.clone(), c.file1.clone(), c.file2.clone());
            bits(o, "comparison with file", old, c, scratch)
        }
        5 => {
            let (x, y) = (r.edgy(30) as u32, r.edgy(22) as u32);
            let old = q::BitmapRangeComparison::new(Default::default(), x, y, blob(&mut r, n1), f1);
            let mut c = old.clone();
            c.mask = blob(&mut r, n2);
            c.length = c.mask.len().into();
            c.start = y.into();
            if r.chance(1, 2) {
                c.stop = x.into();
                c.file = f2;
            }
            let scratch = q::BitmapRangeComparison::new(c.params.clone(), c.start.into(), c.stop.into(), c.mask.clone(), c.file.clone());
            bits(o, "bitmap range", old, c, scratch)
        }
        6 => {
            let m = |r: &mut Rng, n: usize| if r.chance(1, 2) { blob(r, n) } else { vec![] };
            let old = q::StringTokenSearch::new(r.below(8) as u8, m(&mut r, n1), blob(&mut r, n1), f1);
            let mut c = old.clone();
            c.mask = m(&mut r, n2);
            c.value = blob(&mut r, n2);
            if r.chance(1, 2) {
                c.max_errors = r.below(8) as u8;
                c.file = f2;
            }
            let scratch = q::StringTokenSearch::new(c.max_errors, c.mask.clone(), c.value.clone(), c.file.clone());
            bits(o, "string token search", old, c, scratch)
        }
        7 => {
            let mut c = p1.clone();
            c.channel_status = match r.below(4) {
                0 => vec![],
                1 => p1.channel_status.iter().chain(&p2.channel_status).cloned().take(255).collect(),
                2 => p2.channel_status.iter().cycle().take(if p2.channel_status.is_empty() { 0 } else { *r.pick(&[1usize, 127, 128, 254, 255]) }).cloned().collect(),
                _ => p2.channel_status.clone(),
            };
            if r.chance(1, 2) {
                c.up_time = p2.up_time;
                c.tx_duty_cycle = p2.tx_duty_cycle;
            }
            let scratch = file::PhyStatus::new(c.up_time, c.rx_time, c.tx_time, c.tx_duty_cycle, c.channel_status.clone());
            fresh(o, "channel status list", &p1, c, scratch)
        }
        _ => {
            let pick = |r: &mut Rng, i: &IndirectInterface| if r.chance(1, 2) { Some(i.clone()) } else { None };
            let old = op::IndirectForward::new(r.chance(1, 2), pick(&mut r, &i1));
            let mut c = old.clone();
            c.configuration = pick(&mut r, &i2);
            if r.chance(1, 3) {
                c.header.response = !c.header.response;
            }
            let scratch = op::IndirectForward::new(c.header.response, c.configuration.clone());
            fresh(o, "indirect forward", &OpIndirect(old), OpIndirect(c), OpIndirect(scratch))
        }
    }
}
/// Parts of queries start inside a byte: encode them as part of a query.
fn bits<T>(o: &mut Obs, what: &str, old: T, mut changed: T, scratch: T) -> Verdict
where
    T: Clone + PartialEq + std::fmt::Debug + DekuUpdate,
    q::Query: FromPart<T>,
{
    let mut again = scratch.clone();
    let r = again.update();
    ensure!(r.is_ok() && again == scratch, "{}: updating {:?} changes it to {:?} ({:?})", what, scratch, again, r);
    if let Err(e) = changed.update() {
        return fail(format!("{}: updating {:?} fails: {:?}", what, changed, e));
    }
    let (a, b) = (Codec::enc(&q::Query::part(changed.clone())), Codec::enc(&q::Query::part(scratch.clone())));
    ensure!(a == b, "{}: {:?}, changed and updated to {:?}, encodes to {:?}; built from scratch it encodes to {:?}", what, old, changed, a.map(|x| hex(&x)), b.map(|x| hex(&x)));
    ensure!(changed == scratch, "{}: {:?}, changed and updated, is {:?}; built from scratch it is {:?}", what, old, changed, scratch);
    match b {
        Ok(e) => {
            let d = q::Query::whole(&e);
            ensure!(d == Ok(q::Query::part(scratch.clone())), "{}: {:?} encodes to {}, which decodes to {:?}", what, scratch, hex(&e), d);
            o.distinct(&e);
        }
        Err(e) => return fail(format!("{}: {:?} does not encode: {:?}", what, scratch, e)),
    }
    o.sample_with(|| short(&format!("{:?} changed to {:?}", old, changed)));
    o.tag(&format!("updates {}", what));
    Ok(())
}
pub trait FromPart<T> {
    fn part(t: T) -> Self;
}
macro_rules! part {
    ($($t:ident),*) => {$(
        impl FromPart<q::$t> for q::Query {
            fn part(t: q::$t) -> Self {
                q::Query::$t(t)
            }
        }
    )*};
}
part!(ComparisonWithZero, ComparisonWithValue, ComparisonWithOtherFile, BitmapRangeComparison, StringTokenSearch);

// ------------------------------------------------------------------------------------------ C21

fn poke<T: Codec>(o: &mut Obs, v: &T) {
    poke_of(o, v, dyn_slice::<T>)
}
fn poke_of(o: &mut Obs, v: &dyn Val, slice: fn(&[u8], usize) -> Result<Sl<Dyn>, String>) {
    let _ = v.denc();
    let mut st = Stream::new(vec![], 0, Plan::default());
    let _ = v.denc_to(&mut st);
    let mut w = v.dup();
    let _ = w.same(v);
    let _ = w.dupd();
    let _ = w.denc();
    let _ = format!("{:?} {:#?}", v, w).len();
    if let Ok(e) = v.denc() {
        // inconsistent values may well encode to something else: only that it ends matters
        let _ = slice(&e, 0).is_ok();
        o.tag("encoded");
    } else {
        o.tag("refused to encode");
    }
}
/// Values with any fields at all.
pub fn scrambled(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let mut s = S::gen(&mut r);
    let parts = (|| -> R<_> {
        Ok((
            (model::addressee(&mut s)?, model::addressee(&mut s)?),
            model::indirect_interface(&mut s)?,
            model::phy_status(&mut s)?,
            (model::file_offset(&mut s)?, model::file_body(&mut s, 0x20, 65)?),
            model::dash7_status(&mut s)?,
            model::query(&mut s)?,
            model::transport_frame(&mut s, 0)?,
            (model::command(&mut s, 0)?, model::command(&mut s, 0)?),
            (model::dash7_configuration(&mut s)?, model::interface_configuration(&mut s)?),
            (model::file_properties(&mut s)?, model::factory_settings(&mut s)?, model::access_profile(&mut s)?, model::firmware_version(&mut s)?),
        ))
    })();
    let Ok(((a1, a2), ind, phy_s, (fo, prof), d7, qu, tf, (c1, c2), (cfg, icfg), (fp, fs, ap, fw))) = parts else { return Ok(()) };
    let (x, y, z) = (r.edgy(8) as u8, r.edgy(8) as u8, r.edgy(32) as u32);
    let header = op::ActionHeader::new(x & 1 > 0, y & 1 > 0);
    let mut adr = a1;
    // deliberately without an update
    if r.chance(1, 2) {
        adr.address = a2.address.clone();
    }
    if r.chance(1, 2) {
        adr.nls_state = a2.nls_state.clone();
    }
    adr.access_class = link::AccessClass { specifier: x, mask: y };
    poke(o, &adr);
    let mut st = d7.clone();
    st.addressee = adr.clone();
    st.response_timeout = VarInt::new_unchecked(z, x & 2 > 0);
    st.channel.index = z as _;
    poke(o, &st);
    let kinds = [
        ses::InterfaceType::Host,
        ses::InterfaceType::Serial,
        ses::InterfaceType::LoRaWanABP,
        ses::InterfaceType::LoRaWanOTAA,
        ses::InterfaceType::Dash7,
        ses::InterfaceType::Unknown,
    ];
    let n = if r.chance(1, 400) { *r.pick(&[255usize, 256, 4096, 16384, 65535, 65536]) } else { r.below(70) as usize };
    let status = match r.below(4) {
        0 => ses::InterfaceStatus::Host,
        1 => ses::InterfaceStatus::Serial,
        2 => ses::InterfaceStatus::Other(r.bytes(n)),
        _ => ses::InterfaceStatus::Dash7(st.clone()),
    };
    let made: op::InterfaceStatusOperation = status.clone().into();
    poke(o, &made);
    let iso = op::InterfaceStatusOperation { interface_type: *r.pick(&kinds), status };
    poke(o, &iso);
    let so = op::StatusOperand {
        status_type: match r.below(3) {
            0 => op::StatusType::Action,
            1 => op::StatusType::Interface,
            _ => op::StatusType::InterfaceFinal,
        },
        opcode: OpCode(x),
        status: if r.chance(1, 2) { op::Status::Interface(iso.clone()) } else { op::Status::Action(op::ActionStatus { action_id: x as _, status: op::StatusCode(y) }) },
    };
    poke(o, &Action::Status(so.clone()));
    // a file under a wrong identifier
    let files = [prof.clone(), File::Other(r.bytes(n)), File::PhyStatus(phy_s.clone()), File::UId(adr.address.clone()), File::VId(adr.address.clone()), File::FactorySettings(fs.clone()), File::FirmwareVersion(fw.clone())];
    let f = r.pick(&files).clone();
    let off = op::FileOffset { file_id: x, offset: z.into() };
    let fd = op::FileData::new(header.clone(), off.clone(), f.clone(), OpCode(y));
    for a in [Action::WriteFileData(fd.clone()), Action::WriteFileDataFlush(fd.clone()), Action::ReturnFileData(fd)] {
        poke(o, &a);
    }
    let fid: FileId = x.try_into().map_err(|e| Viol { sig: String::new(), msg: format!("{:02X}: {:?}", x, e) })?;
    let mut out = Stream::new(vec![], 0, Plan::default());
    let mut w = Writer::new(&mut out);
    let _ = f.to_writer(&mut w, (fid, z));
    let mut g = f.clone();
    let _ = g.update();
    // queries
    let (v1, v2) = (blob(&mut r, n), {
        let k = r.below(9) as usize;
        blob(&mut r, k)
    });
    let qs = vec![
        q::Query::NonVoid(q::NonVoid { length: z.into(), file: off.clone() }),
        q::Query::ComparisonWithZero(q::ComparisonWithZero::new(Default::default(), v1.clone(), off.clone())),
        q::Query::ComparisonWithValue({
            let mut c = q::ComparisonWithValue::new(Default::default(), v2.clone(), v1.clone(), off.clone());
            c.mask = v1.clone();
            c.value = v2.clone();
            c
        }),
        q::Query::ComparisonWithOtherFile({
            let mut c = q::ComparisonWithOtherFile::new(Default::default(), v2.clone(), off.clone(), fo);
            c.length = z.into();
            c
        }),
        q::Query::BitmapRangeComparison({
            let mut c = q::BitmapRangeComparison::new(Default::default(), z, z, v2.clone(), off.clone());
            c.length = z.into();
            c.mask = v1.clone();
            c
        }),
        q::Query::StringTokenSearch({
            let mut c = q::StringTokenSearch::new(x, v2.clone(), v1.clone(), off.clone());
            c.length = z.into();
            c
        }),
        qu,
    ];
    for qy in qs {
        let mut p = qy.clone();
        let _ = p.update();
        poke(o, &p);
        poke(o, &Action::ActionQuery(op::ActionQuery { header: header.clone(), opcode: OpCode(y), query: qy.clone() }));
        poke(o, &Action::BreakQuery(op::ActionQuery { header: header.clone(), opcode: OpCode(y), query: qy }));
    }
    // lists of any size
    let mut p = phy_s;
    let cs = phy::ChannelStatus {
        identifier: phy::ChannelStatusIdentifier { channel_band: phy::ChannelBand::Band433, bandwidth: phy::Bandwidth::KHz200, index: z as _ },
        noise_floor: x as _,
    };
    p.channel_status = vec![cs; r.below(600) as usize];
    poke(o, &p);
    let p2 = file::PhyStatus::new(z, z, z, z as u16, p.channel_status.clone());
    poke(o, &p2);
    // forwards
    let mut i2 = op::IndirectForward::new(x & 1 > 0, Some(ind));
    i2.header.overloaded = y & 1 > 0;
    if x & 4 > 0 {
        i2.configuration = None;
    }
    i2.opcode = OpCode(x);
    poke(o, &Action::IndirectForward(i2));
    let mut dc = cfg;
    dc.addressee = adr.clone();
    dc.dormant_session_timeout = VarInt::new_unchecked(z, y & 2 > 0);
    poke(o, &dc);
    poke(o, &Action::Forward(op::Forward::new(true, InterfaceConfiguration::Dash7(dc))));
    poke(o, &Action::Forward(op::Forward::new(false, icfg)));
    // frames
    let mut t = tf;
    t.control.has_agc = x & 1 > 0;
    t.control.has_listen_timeout = x & 2 > 0;
    t.control.has_execution_delay_timeout = x & 4 > 0;
    t.control.is_ack_requested = x & 8 > 0;
    t.control.is_ack_not_void = x & 16 > 0;
    if y & 1 > 0 {
        t.listen_timeout = Some(VarInt::new_unchecked(z, false));
        t.congestion_timeout = Some(VarInt::new_unchecked(z, true));
    }
    t.command = Command { actions: c1.actions.into_iter().chain(c2.actions).collect() };
    poke(o, &t);
    poke(o, &t.command);
    // files with odd content
    poke(o, &fp);
    let mut ap = ap;
    ap.sub_profiles.iter_mut().for_each(|s| s.subband_bitmap = y as _);
    poke(o, &ap);
    let mut fw = fw;
    let text: String = (0..r.below(20)).map(|_| *r.pick(&['a', 'é', '\u{0}', '漢', '🦀', 'z'])).collect();
    // no spare room behind the text
    fw.application_name = String::from(text.into_boxed_str());
    poke(o, &fw);
    poke(o, &fs);
    // commands: queries and text
    let c = Command::new(vec![Action::Status(so), Action::Nop(op::Nop { header: header.clone(), opcode: OpCode(x) }), Action::Chunk(op::ChunkStep::StartEnd.into())]);
    let _ = (c.tag_id(), c.interface_status().is_some(), c.is_last_response(), c.actions_without_interface_status().len(), format!("{}", c).len());
    poke(o, &c);
    // numbers
    let l = op::Length::from(z);
    poke(o, &l);
    poke(o, &op::Length::from(z as usize));
    poke(o, &VarInt::new_unchecked(z, x & 1 > 0));
    let _ = (VarInt::new(z, true).is_ok(), VarInt::compress(z, x & 1 > 0).is_ok(), VarInt::decompress(x, y).is_ok(), VarInt::is_valid(z));
    poke(o, &op::StatusCode(x));
    poke(o, &OpcodeOf(OpCode(x)));
    o.tag("sets of scrambled values");
    o.distinct(input);
    Ok(())
}
/// An operation code in front of two bits, so that it encodes to a byte.
#[derive(Clone, Debug, PartialEq)]
pub struct OpcodeOf(OpCode);
impl Codec for OpcodeOf {
    fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
        OpCode::slice(b, off.clone()).map(|s| Sl { rest: s.rest, bits: s.bits, suffix: s.suffix, value: OpcodeOf(s.value) })
    }
    fn reader<R0: std::io::Read + std::io::Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
        OpCode::reader(r, off.clone()).map(|x| (x.0, OpcodeOf(x.1)))
    }
    fn whole(b: &[u8]) -> Result<Self, DekuError> {
        OpCode::whole(b).map(OpcodeOf)
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        Codec::enc(&self.0)
    }
    fn put<W: std::io::Write + std::io::Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
        Codec::put(&self.0, w)
    }
    fn upd(&mut self) -> Result<(), DekuError> {
        self.0.upd()
    }
}
/// Conversions of every number.
pub fn conversions(input: &[u8], o: &mut Obs) -> Verdict {
    let n = input[0];
    let f = guard(|| {
        let f: Result<FileId, _> = n.try_into();
        let i: Result<ses::InterfaceType, _> = n.try_into();
        (f, i)
    });
    let (f, i) = match f {
        Ok(x) => x,
        Err(m) => return fail(format!("converting {:02X} panics: {}", n, m)),
    };
    o.tag("numbers converted");
    o.distinct(input);
    if let Ok(f) = f {
        if let Err(m) = guard(|| Into::<u8>::into(f.clone())) {
            let listed = matches!(f, FileId::Other | FileId::Rfu | FileId::D7AalpRfu);
            let msg = format!("converting {:?} into a number panics: {}", f, m);
            return if listed { known(KF3, msg) } else { fail(msg) };
        }
    }
    if let Ok(i) = i {
        if let Err(m) = guard(|| Into::<u8>::into(i)) {
            let msg = format!("converting {:?} into a number panics: {}", i, m);
            return if i == ses::InterfaceType::Unknown { known(KF3, msg) } else { fail(msg) };
        }
    }
    Ok(())
}
#[cfg(feature = "wizzilab")]
pub fn conversions_wizzilab(input: &[u8], o: &mut Obs) -> Verdict {
    let v = input.to_vec();
    o.tag("status conversions");
    if let Err(m) = guard(|| {
        let _: op::InterfaceFinalStatusOperation = ses::InterfaceFinalStatus::Dash7(ses::InterfaceFinalStatusCode::No).into();
    }) {
        return fail(m);
    }
    if let Err(m) = guard(|| {
        let _: op::InterfaceFinalStatusOperation = ses::InterfaceFinalStatus::Other(v.clone()).into();
    }) {
        return known(KF3, format!("converting InterfaceFinalStatus::Other into an operation panics: {}", m));
    }
    if let Err(m) = guard(|| {
        let _: op::InterfaceTxStatusOperation = ses::InterfaceTxStatus::Other(v.clone()).into();
    }) {
        return known(KF3, format!("converting InterfaceTxStatus::Other into an operation panics: {}", m));
    }
    Ok(())
}
pub const KF3: &str = "KF3-conversion-of-unnumbered-value-panics";
