//! The monitors, third part: growth of work, equality, sinks, truncation.
use crate::alloc;
use crate::core::*;
use crate::items::*;
use crate::model::{self, E, S};
use crate::props::*;
use crate::rng::{hash, hex, Rng};
use crate::stream::{Plan, Stream};
use dash7::app::command::Command;
use deku::prelude::*;

// ------------------------------------------------------------------------------------------ C22

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in nanoseconds: other processes do not count.
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

pub const SHAPES: u64 = 18;
/// Bytes of about `n` bytes of one shape, as a command.
fn shape(r: &mut Rng, k: u8, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let many = |r: &mut Rng, codes: &[u8], n: usize| {
        let mut v = vec![];
        // a few dozen actions, over and over, or all different
        let mut pool: Vec<Vec<u8>> = vec![];
        while v.len() < n {
            if pool.len() < 4096 || r.chance(1, 4) {
                let mut s = S::gen(r);
                if model::action(&mut s, Some(codes[v.len() % codes.len()])).is_ok() && s.raw.bytes.len() < 300 {
                    pool.push(s.raw.bytes);
                }
            }
            if !pool.is_empty() {
                let i = r.below(pool.len() as u64) as usize;
                v.extend_from_slice(&pool[i]);
            }
        }
        v
    };
    let long = |head: &[u8], n: usize| {
        let mut v = head.to_vec();
        v.extend([0xC0 | (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
        v
    };
    match k {
        0 => v = vec![*r.pick(&[0u8, 0x40, 0x80, 0xC0]); n],
        1 => v = [0x34u8, 7].iter().cycle().take(n & !1).cloned().collect(),
        2 => v = [0x23u8, 7].iter().cycle().take(n & !1).cloned().collect(),
        3 => {
            // file data
            v = long(&[0x20, 0x40, 0], n);
            v.extend(r.bytes(n));
        }
        4 => {
            // file data of a text file type, too long for it
            v = long(&[0x04, 0x02, 0], n);
            v.extend(vec![b'a'; n]);
        }
        5 => {
            // comparison with a value
            v = long(&[0x08, 0x40], n);
            v.extend(r.bytes(n));
            v.extend([0x40, 0]);
        }
        6 => {
            // with mask and value
            v = long(&[0x09, 0x50], n / 2);
            v.extend(r.bytes(2 * (n / 2)));
            v.extend([0x40, 0]);
        }
        7 => {
            // interface status of an unknown type
            v = long(&[0x62, 0x41], n);
            v.extend(r.bytes(n));
        }
        8 => v = many(r, &[1, 2], n),
        9 => v = many(r, &[32, 4], n),
        10 => v = many(r, &[8, 9], n),
        11 => v = many(r, &[34], n),
        12 => v = many(r, &[52, 35, 34, 0], n),
        13 => v = many(r, &[50, 0], n),
        14 => v = many(r, &[33, 6, 17], n),
        15 => v = many(r, &[49, 48, 10, 11, 23], n),
        16 => {
            // long at first, small ones behind it
            v = long(&[0x20, 0x40, 0], n / 2);
            v.extend(r.bytes(n / 2));
            v.extend(many(r, &[0, 1, 34, 52], n / 2));
        }
        _ => {
            let all: Vec<u8> = model::opcodes().into_iter().filter(|c| *c != 51).collect();
            v = many(r, &all, n)
        }
    }
    v
}

struct Cost {
    what: &'static str,
    ns: u64,
    bytes: usize,
    ops: usize,
}
/// What each operation on such a command costs.
fn costs(b: &[u8]) -> Result<Vec<Cost>, Viol> {
    let mut v: Vec<Cost> = vec![];
    macro_rules! cost {
        ($what:literal, $x:expr) => {{
            alloc::start();
            let t = cpu();
            let x = $x;
            let ns = cpu() - t;
            alloc::stop();
            v.push(Cost { what: $what, ns, bytes: alloc::sum(), ops: 0 });
            x
        }};
    }
    let c = match cost!("decoding", Command::from_bytes((b, 0))) {
        Ok((rest, c)) => {
            ensure!(rest.0.is_empty(), "{} bytes of {} are left over", rest.0.len(), b.len());
            c
        }
        Err(e) => return fail(format!("{}… is rejected: {:?}", hex(&b[..20]), e)),
    };
    let mut s = Stream::new(b.to_vec(), 0, Plan::default());
    let d = cost!("decoding from a stream", Command::from_reader((&mut s, 0)));
    v.last_mut().unwrap().ops = s.calls;
    let e = cost!("encoding", c.to_bytes());
    let Ok(e) = e else { return fail(format!("{}… does not encode: {:?}", hex(&b[..20]), e)) };
    let mut s = Stream::new(Vec::with_capacity(2 * e.len()), 0, Plan::default());
    let r = cost!("encoding into a stream", Codec::enc_to(&c, &mut s));
    v.last_mut().unwrap().ops = s.calls;
    ensure!(r.is_ok() && s.data == e, "{}… encodes otherwise into a stream", hex(&b[..20]));
    let d = match d {
        Ok(d) => d.1,
        Err(e) => return fail(format!("{}… is rejected from a stream: {:?}", hex(&b[..20]), e)),
    };
    ensure!(cost!("comparing", c == d), "{}… decodes otherwise from a stream", hex(&b[..20]));
    let k = cost!("copying", c.clone());
    drop(d);
    let t1 = cost!("the text", format!("{}", k));
    let t2 = cost!("the debug text", format!("{:?}", k));
    cost!("queries", {
        let _ = (k.interface_status(), k.request_tag(), k.request_id(), k.response_tag(), k.response_id(), k.tag_id(), k.is_last_response());
        k.actions_without_interface_status().len()
    });
    let f = cost!("converting into bytes", Vec::<u8>::try_from(k));
    ensure!(f == Ok(e), "{}… converts otherwise into bytes", hex(&b[..20]));
    cost!("dropping", drop(c));
    let _ = (t1, t2);
    Ok(v)
}
/// Work on inputs of one shape and growing size. Input: seed, shape.
pub fn growth(input: &[u8], o: &mut Obs) -> Verdict {
    let k = input[8];
    let sizes = if input.get(9) == Some(&1) { &[1usize << 12, 1 << 15, 1 << 18, 1 << 21][..] } else { &[1 << 12, 1 << 15, 1 << 18] };
    let mut before: Option<(usize, Vec<Cost>)> = None;
    for n in sizes {
        let mut r = Rng::new(seed_of(input));
        let b = shape(&mut r, k, *n);
        let n = b.len();
        let mut best = costs(&b)?;
        let more = if n < 1 << 17 { 3 } else { 0 };
        for _ in 0..more {
            for (x, y) in best.iter_mut().zip(costs(&b)?) {
                x.ns = x.ns.min(y.ns);
            }
        }
        for c in &best {
            // exact counts: generous constants
            ensure!(c.bytes <= 1 << 16 || c.bytes / 4000 <= n, "{} of {} bytes of shape {} asks for {} bytes of memory in total", c.what, n, k, c.bytes);
            ensure!(c.ops <= 64 * n + 1000, "{} of {} bytes of shape {} takes {} calls", c.what, n, k, c.ops);
            o.add("operations on long commands", 1);
        }
        // (what small ones cost depends on the actions that happen to be in them)
        if let Some((m, old)) = before.as_ref().filter(|x| x.0 > 1 << 14) {
            let ratio = n as f64 / *m as f64;
            for i in 0..best.len() {
                // (cheap operations go from the cache to memory: what they cost is taken for more than it is)
                let grows = |a: u64, b: u64| b > 4_000_000 && b as f64 > a.max(100 * *m as u64) as f64 * ratio * 4.5;
                let mem = best[i].bytes > 1 << 20 && best[i].bytes as f64 > old[i].bytes.max(1 << 12) as f64 * ratio * 5.0;
                ensure!(!mem, "{} of shape {}: {} bytes of memory in total for {} bytes, {} for {}", best[i].what, k, old[i].bytes, m, best[i].bytes, n);
                if grows(old[i].ns, best[i].ns) {
                    // once more, to rule out chance
                    let mut small = old[i].ns;
                    let mut large = best[i].ns;
                    for _ in 0..3 {
                        large = large.min(costs(&b)?[i].ns);
                        if !grows(small, large) {
                            break;
                        }
                        let mut r = Rng::new(seed_of(input));
                        let a = shape(&mut r, k, *m);
                        small = small.max(costs(&a)?[i].ns);
                    }
                    ensure!(
                        !grows(small, large),
                        "{} of shape {}: {} µs for {} bytes, but {} µs for {} bytes",
                        best[i].what,
                        k,
                        small / 1000,
                        m,
                        large / 1000,
                        n
                    );
                }
            }
        }
        o.tag(&format!("shape {}", k));
        o.sample_with(|| format!("{} bytes of shape {}: {}", n, k, best.iter().map(|c| format!("{} {} µs {} bytes {} calls", c.what, c.ns / 1000, c.bytes, c.ops)).collect::<Vec<_>>().join(", ")));
        before = Some((n, best));
    }
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23

/// Two values: equality, copies and text against what they encode to.
pub fn equal(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    if it.name.starts_with("op-") || it.name == "file-id" || it.name == "interface-type" {
        // operands apart from their action: their operation code is the caller's;
        // identifiers alone: the catch-all ones stand for any number
        return Ok(());
    }
    let Ok(x) = (it.slice)(b, 0) else { return Ok(()) };
    let x = x.value;
    let Ok(e) = x.denc() else { return Ok(()) };
    let text = x.dbg();
    ensure!(x.same(&*x), "{}: {} is not equal to itself", it.name, text);
    let c = x.dup();
    ensure!(c.same(&*x) && x.same(&*c), "{}: {} is not equal to its copy {:?}", it.name, text, c);
    ensure!(c.dbg() == text && c.denc().as_ref() == Ok(&e), "{}: {} is copied as {:?}", it.name, text, c);
    let mut r = Rng::new(hash(input));
    let tries = if b.len() > 2000 { 2 } else { 6 };
    for t in 0..tries {
        let mut d = b.to_vec();
        match t {
            0 => d = e.clone(),
            _ if d.is_empty() => {}
            1 | 2 | 3 => {
                let i = r.below(d.len() as u64) as usize;
                d[i] ^= 1 << r.below(8);
            }
            _ => d = mutate(&mut r, d),
        }
        let Ok(y) = (it.slice)(&d, 0) else {
            o.tag("not decodable");
            continue;
        };
        let y = y.value;
        let Ok(f) = y.denc() else { continue };
        let eq = x.same(&*y);
        ensure!(y.same(&*x) == eq, "{}: {} and {:?} are equal one way only", it.name, text, y);
        if !eq && e == f && (text.contains("interface_type: Unknown") || y.dbg().contains("interface_type: Unknown")) {
            return known(KF1, format!("{} and {:?} are not equal, but encode to {}", text, y, hex(&e)));
        }
        ensure!(eq == (e == f), "{}: {} and {:?} are {}, but encode to {} and {}", it.name, text, y, if eq { "equal" } else { "not equal" }, hex(&e), hex(&f));
        let other = y.dbg();
        ensure!(eq == (other == text), "{}: {} and {} are {}", it.name, text, other, if eq { "equal" } else { "not equal" });
        o.tag(if eq { "equal pairs" } else { "different pairs" });
    }
    o.tag("copies");
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C24

/// Encode a value every way there is.
pub fn sinks(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let Ok(x) = (it.slice)(b, 0) else { return Ok(()) };
    let x = x.value;
    let mut r = Rng::new(hash(input));
    let base = x.denc();
    let say = |x: &Result<Vec<u8>, String>| match x {
        Ok(e) => hex(&e[..e.len().min(400)]),
        Err(e) => e.clone(),
    };
    if let Some(v) = x.dvec() {
        ensure!(v == base, "{}: {:?} encodes to {} but converts to {}", it.name, x, say(&base), say(&v));
        o.tag("conversions");
    }
    let Ok(e) = base else {
        let mut s = Stream::new(vec![], 0, Plan::default());
        ensure!(x.denc_to(&mut s).is_err(), "{}: {:?} is refused ({}) but encodes into a stream", it.name, x, say(&base));
        let mut room = vec![0u8; 4096];
        ensure!(x.dfill(&mut room).map_or(true, |r| r.is_err()), "{}: {:?} is refused ({}) but encodes into a slice", it.name, x, say(&base));
        o.tag("refused");
        return Ok(());
    };
    if let Some(v) = x.dbits() {
        let agree = match &v {
            Ok((n, bytes)) => (*n + 7) / 8 == e.len() && (!it.aligned || *n == 8 * e.len()) && (n % 8 != 0 || *bytes == e),
            Err(_) => false,
        };
        ensure!(agree, "{}: {:?} encodes to {} but to bits {:?}", it.name, x, hex(&e), v);
        o.tag("bit strings");
    }
    // slices: exact, roomy, too small
    if it.aligned && x.dfill(&mut vec![0; e.len()]).is_some() {
        for extra in [0usize, 1, 2, 9] {
            let fillers = r.bytes(e.len() + extra);
            let mut room = fillers.clone();
            let g = x.dfill(&mut room).unwrap();
            ensure!(g == Ok(e.len()), "{}: {:?} takes {} bytes, but into a slice of {} gives {:?}", it.name, x, e.len(), room.len(), g);
            ensure!(room[..e.len()] == e[..], "{}: {:?} encodes to {} but into a slice to {}", it.name, x, hex(&e), hex(&room[..e.len()]));
            ensure!(room[e.len()..] == fillers[e.len()..], "{}: {:?} writes past its end in a slice", it.name, x);
            o.tag("slices");
        }
        let small: Vec<usize> = if e.len() <= 24 { (0..e.len()).collect() } else { (0..12).map(|_| r.below(e.len() as u64) as usize).chain([0, e.len() - 1]).collect() };
        for n in small {
            let mut room = vec![0x5A; n];
            let g = x.dfill(&mut room).unwrap();
            ensure!(g.is_err(), "{}: {:?} takes {} bytes, but a slice of {} is enough: {:?}", it.name, x, e.len(), n, g);
            o.tag("small slices");
        }
    }
    // streams with something in them already
    for (pos, len, chunk, interrupt) in [
        (0usize, 0usize, 0usize, 0usize),
        (0, 40, 1, 0),
        (3, 3, 2, 3),
        (5, 900, 0, 2),
        (1000, 1000, 3, 0),
        (r.below(60) as usize, 60, r.below(6) as usize, *r.pick(&[0, 2, 3, 5])),
    ] {
        let old = r.bytes(len);
        let mut want = old.clone();
        if want.len() < pos + e.len() {
            want.resize(pos + e.len(), 0);
        }
        want[pos..pos + e.len()].copy_from_slice(&e);
        let mut s = Stream::new(old, pos as u64, Plan { chunk, interrupt, ..Plan::default() });
        let g = x.denc_to(&mut s);
        ensure!(g.is_ok(), "{}: {:?} does not encode into a stream at {} in pieces of {}: {:?}", it.name, x, pos, chunk, g);
        ensure!(s.data == want, "{}: {:?} encodes to {}, but into a stream at {} in pieces of {} to {}", it.name, x, hex(&e), pos, chunk, hex(&s.data));
        ensure!(s.pos == (pos + e.len()) as u64, "{}: {:?} leaves the stream at {} instead of {}", it.name, x, s.pos, pos + e.len());
        o.tag(if chunk > 0 { "chunked streams" } else { "streams" });
    }
    o.distinct(input);
    Ok(())
}

/// Several values through one writer.
pub fn one_writer(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let all = all_items();
    let mut values: Vec<(&str, Dyn)> = vec![];
    let mut want = vec![];
    for _ in 0..2 + r.below(8) {
        let it = if r.chance(1, 3) { &all[r.below(6) as usize] } else { r.pick(all) };
        if !it.aligned {
            continue;
        }
        let m = if r.chance(1, 300) { Mode::Big } else { Mode::Loose };
        let (b, _) = (it.gen)(&mut r, m);
        let Ok(x) = (it.slice)(&b, 0) else { continue };
        let Ok(e) = x.value.denc() else { continue };
        want.extend(e);
        values.push((it.name, x.value));
    }
    let at = r.below(20);
    let plan = Plan { chunk: r.below(4) as usize, interrupt: *r.pick(&[0usize, 0, 2, 3]), ..Plan::default() };
    let mut s = Stream::new(vec![0xEE; at as usize], at, plan);
    {
        let mut w = Writer::new(&mut s);
        for (name, v) in &values {
            let g = v.dput(&mut w);
            ensure!(g.is_ok(), "{}: {:?} does not encode behind others: {:?}", name, v, g);
            o.tag("values behind others");
        }
        ensure!(w.finalize().is_ok(), "the writer does not finish");
        ensure!(w.bits_written == 8 * want.len(), "{:?}: {} bits instead of {}", values, w.bits_written, 8 * want.len());
    }
    ensure!(s.data[at as usize..] == want[..] && s.data[..at as usize].iter().all(|x| *x == 0xEE), "{:?}: {} through one writer instead of {}", values, hex(&s.data), hex(&want));
    if values.len() > 1 {
        o.distinct(&want);
    }
    o.sample_with(|| format!("{} values, {}", values.len(), hex(&want[..want.len().min(60)])));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25

/// Every prefix of something well formed.
pub fn cut_short(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    if it.name == "command9" {
        return Ok(());
    }
    let Ok(x) = (it.slice)(b, 0) else { return Ok(()) };
    let b = &b[..b.len() - x.rest];
    let mut r = Rng::new(hash(input));
    let cuts: Vec<usize> = if b.len() <= 120 { (0..b.len()).collect() } else { (0..40).map(|_| r.below(b.len() as u64) as usize).collect() };
    for n in cuts {
        let p = &b[..n];
        let g = (it.slice)(p, 0);
        let mut s = Stream::new(p.to_vec(), 0, Plan { chunk: r.below(3) as usize, ..Plan::default() });
        let h = (it.reader)(&mut s, 0);
        match (&g, &h) {
            (Ok(a), Ok(b)) => ensure!(a.value.same(&*b.1), "differ"),
            (Err(a), Err(b)) => {
                ensure!(a.starts_with("Incomplete("), "{}: {} of {} bytes: {} {}", it.name, n, x.value.dbg(), hex(p), a);
                ensure!(b.starts_with("Incomplete("), "{}: {} of {} bytes: {} {}", it.name, n, x.value.dbg(), hex(p), b);
                o.tag("cuts reported as incomplete");
            }
            _ => return fail(format!("{}: {}: a slice gives {:?}, a stream {:?}", it.name, hex(p), g.map(|x| x.value.dbg()), h.map(|x| x.1.dbg()))),
        }
    }
    o.distinct(input);
    Ok(())
}

/// Malformed input, with enough behind it that nothing can be missing as well.
fn complete(b: &[u8], e: &E) -> Vec<u8> {
    let mut v = b.to_vec();
    if matches!(e, E::Bad(_)) {
        v.resize(b.len() + 300, 0);
    }
    v
}
/// Whether an error says that there is more to come.
fn incomplete(e: &str) -> bool {
    e.starts_with("Incomplete(")
}
fn told_apart(b: &[u8], o: &mut Obs, name: &str, want: E, slice: Option<String>, stream: Option<String>) -> Verdict {
    let more = match want {
        E::Ambig => {
            o.tag("undecided order of errors");
            return Ok(());
        }
        E::Short => true,
        E::Bad(_) => false,
    };
    for (how, e) in [("slice", slice), ("stream", stream)] {
        let Some(e) = e else {
            // accepted: not this property's business
            o.tag("accepted");
            continue;
        };
        ensure!(
            incomplete(&e) == more,
            "{}: {} from a {} is {} ({:?}), but reported as {}",
            name,
            hex(b),
            how,
            if more { "cut short" } else { "malformed whatever follows" },
            want,
            e
        );
    }
    o.tag(if more { "reported as incomplete" } else { "reported as malformed" });
    o.distinct(b);
    o.sample_with(|| format!("{} {}: {:?}", name, hex(&b[..b.len().min(60)]), want));
    Ok(())
}
pub fn told_of(b: &[u8], o: &mut Obs, name: &str, t: &Ops) -> Verdict {
    let mut s = S::read(b);
    match (t.f)(&mut s) {
        Ok(_) => {
            o.tag("well formed");
            Ok(())
        }
        Err(e) => {
            let b = &complete(b, &e)[..];
            told_apart(b, o, name, e, (t.slice)(b, 0).err(), None)
        }
    }
}
pub fn told_frame(input: &[u8], o: &mut Obs) -> Verdict {
    let b = &input[1..];
    let mut s = S::read(b);
    let k = input[0] as usize % 4;
    let want = match k {
        0 => model::foreground_frame(&mut s).err(),
        1 => model::background_frame(&mut s).err(),
        2 => model::network_frame(&mut s, 0).err(),
        _ => model::transport_frame(&mut s, 0).err(),
    };
    let Some(e) = want else {
        o.tag("well formed");
        return Ok(());
    };
    let it = &all_items()[2 + k];
    let b = &complete(b, &e)[..];
    let mut st = Stream::new(b.to_vec(), 0, Plan { chunk: b.len() % 3, ..Plan::default() });
    told_apart(b, o, it.name, e, (it.slice)(b, 0).err(), (it.reader)(&mut st, 0).err())
}
