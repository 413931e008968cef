//! The monitors: each decides one observed execution.
use crate::core::*;
use crate::items::*;
use crate::model::{self, E, R, S};
use crate::rng::{hex, Rng};
use crate::stream::{Plan, Stream};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation as op;
use dash7::app::query as q;
use dash7::file::{self, File};
use dash7::link;
use dash7::network as net;
use dash7::physical as phy;
use dash7::session as ses;
use dash7::types::{VarInt, VarIntError};
use deku::prelude::*;
use std::sync::OnceLock;

pub fn all_items() -> &'static [Item] {
    static I: OnceLock<Vec<Item>> = OnceLock::new();
    I.get_or_init(items)
}
pub fn item_index(name: &str) -> u8 {
    all_items().iter().position(|i| i.name == name).unwrap() as u8
}
pub fn item_of(input: &[u8]) -> (&'static Item, &[u8]) {
    (&all_items()[input[0] as usize], &input[1..])
}
pub fn seed_of(input: &[u8]) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&input[..8]);
    u64::from_le_bytes(b)
}
pub fn seeded(seed: u64, rest: &[u8]) -> Vec<u8> {
    let mut v = seed.to_le_bytes().to_vec();
    v.extend_from_slice(rest);
    v
}
pub fn short(s: &str) -> String {
    if s.len() > 400 {
        let mut i = 400;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    } else {
        s.to_string()
    }
}
pub const KF1: &str = "KF1-unknown-interface-status-id-lost";
pub const KF2: &str = "KF2-foreground-length-covers-skipped-bytes";

// ------------------------------------------------------------------------------------------ inputs

/// Change bytes the way faulty or hostile senders do.
pub fn mutate(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(10) {
            0 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
            8 if n > 0 => {
                // a number of one to four bytes
                let v = r.edgy(32) as u32;
                let w = (1 + r.below(4) as usize).min(n);
                let i = r.below((n - w) as u64 + 1) as usize;
                b[i..i + w].copy_from_slice(&v.to_be_bytes()[4 - w..]);
            }
            1 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] = *r.pick(&[0u8, 1, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0xD7, 0x33, 0x62, 0x20]);
            }
            2 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] = r.byte();
            }
            3 => {
                let i = r.below(n as u64 + 1) as usize;
                b.insert(i, r.byte());
            }
            4 if n > 0 => {
                let i = r.below(n as u64) as usize;
                b.remove(i);
            }
            5 => b.truncate(r.below(n as u64 + 1) as usize),
            6 => {
                let k = 1 + r.below(6) as usize;
                b.extend(r.bytes(k));
            }
            7 if n > 1 => {
                let i = r.below(n as u64) as usize;
                let j = i + r.below((n - i) as u64) as usize;
                let piece = b[i..j].to_vec();
                let at = r.below(n as u64) as usize;
                b.splice(at..at, piece);
            }
            _ if n > 0 => {
                let i = r.below(n as u64) as usize;
                b[i] = b[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 });
            }
            _ => {}
        }
    }
    b
}
/// An input for an item: well formed, loosely coded, malformed, mutated, cut, or noise.
pub fn sample(r: &mut Rng, it: &Item) -> Vec<u8> {
    let m = *r.pick(&[Mode::Canon, Mode::Loose, Mode::Loose, Mode::Hostile]);
    let mut b = if r.chance(1, 12) {
        let n = r.below(40) as usize;
        r.bytes(n)
    } else {
        (it.gen)(r, m).0
    };
    if r.chance(2, 5) {
        b = mutate(r, b);
    }
    if r.chance(1, 8) {
        b.truncate(r.below(b.len() as u64 + 1) as usize);
    }
    b
}

// ------------------------------------------------------------------------------------------ C01

pub fn total(input: &[u8], o: &mut Obs) -> Verdict {
    let (it, b) = item_of(input);
    let a = (it.slice)(b, 0);
    let w = (it.whole)(b);
    let mut s = Stream::new(b.to_vec(), 0, Plan::default());
    let r = (it.reader)(&mut s, 0);
    if it.aligned && b.len() > 1 {
        let k = 1 + (b[0] as usize % 16);
        // an offset may lie beyond the end
        let _ = (it.slice)(b, 8 * k);
    }
    o.add("decode calls", 3);
    ensure!(a.is_ok() || w.is_err(), "{}: the whole buffer decodes but the slice does not", it.name);
    let tag = match (a.is_ok(), r.is_ok()) {
        (true, _) => "accepted",
        _ => "rejected",
    };
    o.tag(tag);
    if a.is_ok() {
        o.tag(&format!("accepted {}", it.name));
    } else {
        o.tag(&format!("rejected {}", it.name));
    }
    o.distinct(input);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02, C03, C04

/// A type behind its entry points, and the model of its values: keeps the monitors from being compiled once per type.
pub struct Ops<'a> {
    pub slice: fn(&[u8], usize) -> Result<Sl<Dyn>, String>,
    pub whole: fn(&[u8]) -> Result<Dyn, String>,
    pub f: &'a dyn Fn(&mut S) -> R<Dyn>,
}
macro_rules! erased {
    ($($name:ident -> $body:path),*) => {$(
        pub fn $name<T: Codec>(input: &[u8], o: &mut Obs, name: &str, f: impl Fn(&mut S) -> R<T>) -> Verdict {
            $body(input, o, name, &Ops { slice: dyn_slice::<T>, whole: dyn_whole::<T>, f: &|s| Ok(Box::new(f(s)?) as Dyn) })
        }
    )*};
}
erased!(roundtrip -> roundtrip_of, wire -> wire_of, decode -> decode_of, settled -> crate::props2::settled_of, told -> crate::props3::told_of);

pub fn generate(input: &[u8], f: &dyn Fn(&mut S) -> R<Dyn>) -> Option<(Dyn, Vec<u8>, Vec<u8>, Vec<usize>)> {
    let mut r = Rng::new(seed_of(input));
    let mut s = S::gen(&mut r);
    s.big = *input.get(8).unwrap_or(&0);
    let v = f(&mut s).ok()?;
    assert!(s.raw.bytes == s.canon.bytes || s.holes.len() > 0, "canonical generator is not canonical: {} {}", hex(&s.raw.bytes), hex(&s.canon.bytes));
    let nh = s.canon_without_holes();
    Some((v, s.canon.bytes, nh, s.holes))
}

fn roundtrip_of(input: &[u8], o: &mut Obs, name: &str, t: &Ops) -> Verdict {
    let Some((v, _, no_holes, holes)) = generate(input, t.f) else {
        o.tag("not generated");
        return Ok(());
    };
    let e = match v.denc() {
        Ok(e) => e,
        Err(err) => return fail(format!("{}: {:?} does not encode: {:?}", name, v, err)),
    };
    if !holes.is_empty() && e == no_holes {
        return known(KF1, format!("{:?} encodes to {}", v, hex(&e)));
    }
    let mut st = Stream::new(vec![], 0, Plan::default());
    let r = v.denc_to(&mut st);
    ensure!(r.is_ok() && st.data == e, "{}: {:?} encodes to {} into a buffer and to {:?} {} into a stream", name, v, hex(&e), r, hex(&st.data));
    match (t.slice)(&e, 0) {
        Ok(s) => {
            ensure!(*s.value == *v, "{}: {:?} encodes to {}, which decodes to {:?}", name, v, hex(&e), s.value);
            ensure!(s.rest == 0 && s.bits == 0, "{}: {:?} encodes to {}, of which {} bytes are left over", name, v, hex(&e), s.rest);
        }
        Err(err) => return fail(format!("{}: {:?} encodes to {}, which does not decode: {:?}", name, v, hex(&e), err)),
    }
    match (t.whole)(&e) {
        Ok(w) => ensure!(*w == *v, "{}: {} decodes differently as a whole", name, hex(&e)),
        Err(err) => return fail(format!("{}: {:?} encodes to {}, which does not decode as a whole: {:?}", name, v, hex(&e), err)),
    }
    let again = v.dup().denc();
    ensure!(again == Ok(e.clone()), "{}: {:?} encodes differently the second time", name, v);
    o.tag(&format!("round trips {}", name));
    o.distinct(&e);
    o.sample_with(|| short(&format!("{:?} <-> {}", v, hex(&e))));
    Ok(())
}

fn wire_of(input: &[u8], o: &mut Obs, name: &str, t: &Ops) -> Verdict {
    let Some((v, canon, no_holes, holes)) = generate(input, t.f) else {
        o.tag("not generated");
        return Ok(());
    };
    match v.denc() {
        Ok(e) => {
            if e != canon && !holes.is_empty() && e == no_holes {
                return known(KF1, format!("{:?} encodes to {} instead of {}", v, hex(&e), hex(&canon)));
            }
            ensure!(e == canon, "{}: {:?} encodes to {} instead of {}", name, v, hex(&e), hex(&canon));
        }
        Err(err) => return fail(format!("{}: {:?} does not encode: {:?}", name, v, err)),
    }
    o.tag(&format!("encodings {}", name));
    o.distinct(&canon);
    o.sample_with(|| short(&format!("{:?} -> {}", v, hex(&canon))));
    Ok(())
}

fn decode_of(b: &[u8], o: &mut Obs, name: &str, t: &Ops) -> Verdict {
    let mut s = S::read(b);
    let expect = (t.f)(&mut s);
    let got = (t.slice)(b, 0);
    match expect {
        Err(E::Ambig) => {
            o.tag("undecided order of errors");
            Ok(())
        }
        Err(e) => {
            if let Ok(g) = got {
                return fail(format!("{}: {} is not well formed ({:?}) but decodes to {:?}", name, hex(b), e, g.value));
            }
            ensure!((t.whole)(b).is_err(), "{}: {} is not well formed ({:?}) but decodes as a whole", name, hex(b), e);
            o.tag(&format!("rejections {}", name));
            if b.len() > 1 {
                o.distinct(b);
            }
            Ok(())
        }
        Ok(v) => {
            let used = s.pos / 8;
            let g = match got {
                Ok(g) => g,
                Err(err) => return fail(format!("{}: {} means {:?} but is rejected: {:?}", name, hex(b), v, err)),
            };
            ensure!(*g.value == *v, "{}: {} means {:?} but decodes to {:?}", name, hex(b), v, g.value);
            ensure!(g.rest == b.len() - used && g.bits == 0, "{}: {} takes {} bytes but {} are left over", name, hex(b), used, g.rest);
            ensure!((t.whole)(b).is_ok() == (g.rest == 0), "{}: {}: whole-buffer decoding disagrees", name, hex(b));
            let e = match g.value.denc() {
                Ok(e) => e,
                Err(err) => return fail(format!("{}: {} decodes to {:?}, which does not encode: {:?}", name, hex(b), g.value, err)),
            };
            if e != s.canon.bytes && !s.holes.is_empty() && e == s.canon_without_holes() {
                return known(KF1, format!("{} decodes to {:?}, which encodes to {}", hex(b), v, hex(&e)));
            }
            ensure!(e == s.canon.bytes, "{}: {} encodes again to {} instead of {}", name, hex(b), hex(&e), hex(&s.canon.bytes));
            if e != b[..used] {
                o.tag("not canonical");
                match (t.whole)(&e) {
                    Ok(v2) => ensure!(*v2 == *v, "{}: {} and its canonical form {} decode differently", name, hex(b), hex(&e)),
                    Err(err) => return fail(format!("{}: canonical form {} of {} is rejected: {:?}", name, hex(&e), hex(b), err)),
                }
            }
            o.tag(&format!("acceptances {}", name));
            o.distinct(b);
            o.sample_with(|| short(&format!("{} -> {:?}", hex(b), v)));
            Ok(())
        }
    }
}

pub struct Spec {
    pub name: &'static str,
    pub rt: Check,
    pub wire: Check,
    pub dec: Check,
    pub upd: Check,
    pub told: Check,
    pub gen: fn(&mut Rng, Mode) -> (Vec<u8>, bool),
    /// part of the file system (C16)
    pub file: bool,
}
macro_rules! spec {
    ($v:ident, $name:literal, $file:literal, $f:expr) => {
        $v.push(Spec {
            name: $name,
            rt: |i, o| roundtrip(i, o, $name, $f),
            wire: |i, o| wire(i, o, $name, $f),
            dec: |i, o| decode(i, o, $name, $f),
            upd: |i, o| settled(i, o, $name, $f),
            told: |i, o| told(i, o, $name, $f),
            gen: |r, m| draw(r, m, $f),
            file: $file,
        })
    };
}
macro_rules! spec_file {
    ($v:ident, $($name:literal $id:literal $len:literal),*) => {$(
        spec!($v, $name, true, |s: &mut S| Ok(FileOf::<$id, $len>(model::file_body(s, $id, $len as usize)?)));
    )*};
}
macro_rules! spec_action {
    ($v:ident, $($name:literal $code:literal),*) => {$(
        $v.push(Spec {
            name: $name,
            rt: |i, o| roundtrip(i, o, $name, |s: &mut S| model::action(s, Some($code))),
            wire: |i, o| wire(i, o, $name, |s: &mut S| model::action(s, Some($code))),
            dec: |i, o| decode(i, o, $name, |s: &mut S| model::action(s, None)),
            upd: |i, o| settled(i, o, $name, |s: &mut S| model::action(s, Some($code))),
            told: |i, o| told(i, o, $name, |s: &mut S| model::action(s, None)),
            gen: |r, m| draw(r, m, |s: &mut S| model::action(s, Some($code))),
            file: false,
        });
    )*};
}
pub fn specs() -> &'static [Spec] {
    static T: OnceLock<Vec<Spec>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        spec!(v, "command", false, |s: &mut S| model::command(s, 0));
        spec!(v, "action", false, |s: &mut S| model::action(s, None));
        spec_action!(v, "nop" 0, "read-file-data" 1, "read-file-properties" 2, "write-file-data" 4, "write-file-data-flush" 5,
            "write-file-properties" 6, "action-query" 8, "break-query" 9, "permission-request" 10, "verify-checksum" 11,
            "exist-file" 16, "create-new-file" 17, "delete-file" 18, "restore-file" 19, "flush-file" 20, "copy-file" 23,
            "execute-file" 31, "return-file-data" 32, "return-file-properties" 33, "status" 34, "response-tag" 35,
            "chunk" 48, "logic" 49, "forward" 50, "indirect-forward" 51, "request-tag" 52, "extension" 63);
        #[cfg(feature = "wizzilab")]
        spec_action!(v, "tx-status" 38);
        spec!(v, "query", false, model::query);
        spec!(v, "file-offset", false, model::file_offset);
        spec!(v, "length", false, |s: &mut S| Ok(op::Length::from(s.length()?)));
        spec!(v, "varint", false, |s: &mut S| s.varint());
        spec!(v, "action-status", false, model::action_status);
        spec!(v, "permission", false, model::permission);
        spec!(v, "permission-level", false, model::permission_level);
        spec!(v, "interface-status-op", false, model::interface_status_operation);
        spec!(v, "file-header", false, model::file_header);
        spec!(v, "file-permissions", false, model::file_permissions);
        spec!(v, "file-properties", false, model::file_properties);
        spec!(v, "addressee", false, model::addressee);
        spec!(v, "access-class", false, model::access_class);
        spec!(v, "dash7-config", false, model::dash7_configuration);
        spec!(v, "lorawan", false, model::lorawan_base);
        spec!(v, "lorawan-abp", false, model::lorawan_abp);
        spec!(v, "lorawan-otaa", false, model::lorawan_otaa);
        spec!(v, "interface-config", false, model::interface_configuration);
        spec!(v, "indirect-interface", false, model::indirect_interface);
        spec!(v, "dash7-status", false, model::dash7_status);
        spec!(v, "qos", false, model::qos);
        spec!(v, "addr-nb", false, |s: &mut S| Ok(AddrNb(model::address(s, net::AddressType::NbId)?)));
        spec!(v, "addr-uid", false, |s: &mut S| Ok(AddrUid(model::address(s, net::AddressType::UId)?)));
        spec!(v, "addr-vid", false, |s: &mut S| Ok(AddrVid(model::address(s, net::AddressType::VId)?)));
        spec!(v, "transport-control", false, model::transport_control);
        spec!(v, "transport-frame", false, |s: &mut S| model::transport_frame(s, 0));
        #[cfg(feature = "wizzilab")]
        {
            spec!(v, "final-status-op", false, model::final_status_operation);
            spec!(v, "tx-status-op", false, model::tx_status_operation);
            spec!(v, "final-code", false, model::final_code);
        }
        spec!(v, "channel", true, model::channel);
        spec!(v, "channel-header", true, model::channel_header);
        spec!(v, "channel-status", true, model::channel_status);
        spec!(v, "sub-band", true, model::sub_band);
        spec!(v, "sub-profile", true, model::sub_profile);
        spec!(v, "access-profile", true, model::access_profile);
        spec!(v, "factory-settings", true, model::factory_settings);
        spec!(v, "firmware-version", true, model::firmware_version);
        spec!(v, "engineering-mode", true, model::engineering_mode);
        spec!(v, "phy-status", true, model::phy_status);
        spec!(v, "dll-config", true, model::dll_config);
        spec!(v, "dll-status", true, model::dll_status);
        spec!(v, "security-key", true, model::security_key);
        spec_file!(v, "file-00" 0x00 8, "file-01" 0x01 0, "file-02" 0x02 15, "file-03" 0x03 5, "file-04" 0x04 1, "file-05" 0x05 7,
            "file-06" 0x06 2, "file-07" 0x07 3, "file-08" 0x08 0, "file-09" 0x09 15, "file-0a" 0x0A 7, "file-0b" 0x0B 16,
            "file-0c" 0x0C 4, "file-0d" 0x0D 5, "file-0e" 0x0E 16, "file-0f" 0x0F 6, "file-10" 0x10 7, "file-11" 0x11 8,
            "file-12" 0x12 9, "file-13" 0x13 10, "file-14" 0x14 11, "file-16" 0x16 1, "file-17" 0x17 2, "file-18" 0x18 16,
            "file-19" 0x19 16, "file-1a" 0x1A 3, "file-1b" 0x1B 4, "file-1c" 0x1C 5, "file-1d" 0x1D 6, "file-1f" 0x1F 7,
            "file-20" 0x20 65, "file-21" 0x21 0, "file-22" 0x22 0, "file-23" 0x23 0, "file-24" 0x24 0, "file-25" 0x25 0,
            "file-26" 0x26 0, "file-27" 0x27 0, "file-28" 0x28 0, "file-29" 0x29 0, "file-2a" 0x2A 0, "file-2b" 0x2B 0,
            "file-2c" 0x2C 0, "file-2d" 0x2D 0, "file-2e" 0x2E 0, "file-2f" 0x2F 65, "file-30" 0x30 12, "file-f9" 0xF9 300,
            "file-ff" 0xFF 0);
        v
    })
}

/// Constructors build the values their parts describe.
pub fn constructors(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let mut s = S::gen(&mut r);
    let made = (|| -> R<_> {
        Ok((
            model::interface_configuration(&mut s)?,
            model::indirect_interface(&mut s)?,
            model::dash7_status(&mut s)?,
            model::action_status(&mut s)?,
            s.flag()?,
            s.flag()?,
            s.u8()?,
            s.u8()?,
        ))
    })();
    let Ok((cfg, ind, d7, ast, b1, b2, n1, n2)) = made else { return Ok(()) };
    let f = op::Forward::new(b1, cfg.clone());
    ensure!(f == op::Forward { header: op::ForwardHeader { response: b1 }, opcode: OpCode(50), configuration: cfg }, "Forward::new: {:?}", f);
    for c in [None, Some(ind.clone())] {
        let f = op::IndirectForward::new(b1, c.clone());
        ensure!(
            f == op::IndirectForward { header: op::IndirectForwardHeader { overloaded: c.is_some(), response: b1 }, opcode: OpCode(51), configuration: c },
            "IndirectForward::new: {:?}",
            f
        );
        let a = Action::IndirectForward(f);
        ensure!(a.enc().ok().and_then(|e| Action::whole(&e).ok()) == Some(a.clone()), "{:?} does not round trip", a);
    }
    ensure!(op::ActionHeader::new(b1, b2) == op::ActionHeader { group: b1, response: b2 }, "ActionHeader::new");
    ensure!(op::IndirectForwardHeader::new(b1, b2) == op::IndirectForwardHeader { overloaded: b1, response: b2 }, "IndirectForwardHeader::new");
    ensure!(link::AccessClass::new(n1, n2) == link::AccessClass { specifier: n1, mask: n2 }, "AccessClass::new");
    ensure!(link::AccessClass::unavailable() == link::AccessClass { specifier: 15, mask: 15 }, "AccessClass::unavailable");
    ensure!(op::FileOffset::no_offset(n1) == op::FileOffset { file_id: n1, offset: 0u32.into() }, "FileOffset::no_offset");
    let h = d7.channel.header.clone();
    ensure!(phy::ChannelHeader::new(h.channel_band.clone(), h.channel_class.clone(), h.channel_coding.clone()) == h, "ChannelHeader::new");
    for (step, code) in [(op::ChunkStep::Continue, 0x30u8), (op::ChunkStep::Start, 0x70), (op::ChunkStep::End, 0xB0), (op::ChunkStep::StartEnd, 0xF0)] {
        let a = Action::Chunk(step.into());
        ensure!(a.enc() == Ok(vec![code]), "{:?} encodes to {:?}", a, a.enc());
    }
    // a status knows its own type
    let st: op::StatusOperand = op::Status::Action(ast.clone()).into();
    ensure!(st == op::StatusOperand { status_type: op::StatusType::Action, opcode: OpCode(34), status: op::Status::Action(ast) }, "Status into operand: {:?}", st);
    for i in [ses::InterfaceStatus::Host, ses::InterfaceStatus::Serial, ses::InterfaceStatus::Dash7(d7)] {
        let ty = match &i {
            ses::InterfaceStatus::Host => ses::InterfaceType::Host,
            ses::InterfaceStatus::Serial => ses::InterfaceType::Serial,
            _ => ses::InterfaceType::Dash7,
        };
        let io: op::InterfaceStatusOperation = i.clone().into();
        ensure!(io == op::InterfaceStatusOperation { interface_type: ty, status: i }, "InterfaceStatus into operation: {:?}", io);
        let st: op::Status = io.into();
        let so: op::StatusOperand = st.clone().into();
        ensure!(so == op::StatusOperand { status_type: op::StatusType::Interface, opcode: OpCode(34), status: st }, "Status into operand: {:?}", so);
        let a = Action::Status(so);
        ensure!(a.enc().ok().and_then(|e| Action::whole(&e).ok()) == Some(a.clone()), "{:?} does not round trip", a);
    }
    #[cfg(feature = "wizzilab")]
    {
        let i = ses::InterfaceFinalStatus::Dash7(ses::InterfaceFinalStatusCode::Busy);
        let io: op::InterfaceFinalStatusOperation = i.clone().into();
        ensure!(io == op::InterfaceFinalStatusOperation { interface_id: 0xD7, status: i }, "InterfaceFinalStatus into operation: {:?}", io);
        let st: op::Status = io.into();
        let so: op::StatusOperand = st.into();
        let a = Action::Status(so);
        ensure!(a.enc() == Ok(vec![0xA2, 0xD7, 1, 0xFF]), "{:?} encodes to {:?}", a, a.enc());
    }
    o.tag("constructor sets");
    Ok(())
}

/// A command from parts: the conversion into bytes is the encoder.
pub fn command_into_bytes(input: &[u8], o: &mut Obs) -> Verdict {
    let Some((v, _, _, _)) = generate(input, &|s| Ok(Box::new(model::command(s, 0)?) as Dyn)) else { return Ok(()) };
    let v = v.any().downcast_ref::<Command>().unwrap().clone();
    let c = Command::new(v.actions.clone());
    ensure!(c == v, "Command::new changes the actions");
    let a = c.to_bytes();
    let b = Vec::<u8>::try_from(c);
    ensure!(a == b, "to_bytes and the conversion into bytes disagree");
    // a command is its actions one after the other
    let mut cat = vec![];
    for x in &v.actions {
        match x.enc() {
            Ok(e) => cat.extend(e),
            Err(e) => return fail(format!("{:?} does not encode: {:?}", x, e)),
        }
    }
    ensure!(a == Ok(cat), "{:?}: the command does not encode to its actions' encodings", v);
    o.tag("commands of encoded actions");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

pub fn actions_raw(r: &mut Rng, n: usize, indirect_last: bool, mode: Mode) -> Option<Vec<(Vec<u8>, Action)>> {
    let mut v: Vec<(Vec<u8>, Action)> = vec![];
    // commands of few kinds of action, and runs of the same action, are as good as any other
    let all: Vec<u8> = model::opcodes().iter().copied().filter(|c| *c != 51).collect();
    let few: Option<Vec<u8>> = r.chance(1, 3).then(|| (0..1 + r.below(2)).map(|_| *r.pick(&all)).collect());
    let runs = r.chance(1, 3);
    for i in 0..n {
        if runs && i > 0 && !(indirect_last && i + 1 == n) && r.chance(1, 2) {
            let again = v[i - 1].clone();
            v.push(again);
            continue;
        }
        let code = if indirect_last && i + 1 == n {
            51
        } else {
            *r.pick(few.as_ref().unwrap_or(&all))
        };
        for _ in 0..8 {
            let mut s = S::gen(r);
            s.only_canon = mode == Mode::Canon;
            s.big = (mode == Mode::Big) as u8;
            if let Ok(a) = model::action(&mut s, Some(code)) {
                v.push((s.raw.bytes, a));
                break;
            }
        }
        if v.len() != i + 1 {
            return None;
        }
    }
    Some(v)
}

pub fn concat(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let big = input.get(8) == Some(&1);
    let long = big && r.chance(1, 2);
    let n = if long { *r.pick(&[256usize, 256, 512, 1024, 1024, 2048]) - 2 + r.below(5) as usize } else { r.below(11) as usize };
    let ind = n > 0 && r.chance(1, 3);
    let mode = if big && !long { Mode::Big } else if r.chance(1, 2) { Mode::Loose } else { Mode::Canon };
    let Some(parts) = actions_raw(&mut r, n, ind, mode) else { return Ok(()) };
    let p: Vec<u8> = parts.iter().flat_map(|x| x.0.clone()).collect();
    let want: Vec<Action> = parts.iter().map(|x| x.1.clone()).collect();
    let g = match Command::slice(&p, 0) {
        Ok(g) => g,
        Err(e) => return fail(format!("{} is rejected: {:?}", hex(&p), e)),
    };
    ensure!(g.value.actions == want, "{} decodes to {:?}, not {:?}", hex(&p), g.value.actions, want);
    ensure!(g.rest == 0 && g.bits == 0, "{}: {} bytes of a whole command are left over", hex(&p), g.rest);
    ensure!(Command::whole(&p).map(|c| c.actions) == Ok(want.clone()), "{} is not accepted as a whole", hex(&p));
    let mut st = Stream::new(p.clone(), 0, Plan::default());
    match Command::reader(&mut st, 0) {
        Ok((bits, c)) => ensure!(bits == p.len() * 8 && c.actions == want, "{}: a reader uses {} bits", hex(&p), bits),
        Err(e) => return fail(format!("{} is rejected from a reader: {:?}", hex(&p), e)),
    }
    // suffixes
    let k = 1 + r.below(12) as usize;
    let x = if r.chance(1, 2) {
        r.bytes(k)
    } else {
        match actions_raw(&mut r, 2, false, Mode::Loose) {
            Some(v) => v.iter().flat_map(|x| x.0.clone()).collect(),
            None => vec![0x42; k],
        }
    };
    let mut px = p.clone();
    px.extend_from_slice(&x);
    let both = Command::slice(&px, 0);
    let alone = Command::slice(&x, 0);
    if ind {
        match both {
            Ok(b) => {
                ensure!(b.value.actions == want, "{}|{}: the suffix of an indirect forward is interpreted: {:?}", hex(&p), hex(&x), b.value.actions);
                ensure!(b.rest == x.len() && b.bits == 0 && b.suffix, "{}|{}: remainder of {} bytes", hex(&p), hex(&x), b.rest);
            }
            Err(e) => return fail(format!("{}|{}: suffix of an indirect forward: {:?}", hex(&p), hex(&x), e)),
        }
        ensure!(Command::whole(&px).is_err(), "{}|{}: bytes after an indirect forward are dropped", hex(&p), hex(&x));
        let mut st = Stream::new(px.clone(), 0, Plan::default());
        let r = Command::reader(&mut st, 0);
        ensure!(r.as_ref().map(|x| x.0) == Ok(p.len() * 8), "{}|{}: a reader uses {:?} bits", hex(&p), hex(&x), r.map(|x| x.0));
        o.tag("indirect forward suffixes");
    } else {
        match (both, alone) {
            (Ok(b), Ok(a)) => {
                let mut w = want.clone();
                w.extend(a.value.actions);
                ensure!(b.value.actions == w, "{}|{}: decodes to {:?}", hex(&p), hex(&x), b.value.actions);
                ensure!(b.rest == a.rest && b.bits == a.bits && b.suffix, "{}|{}: remainder of {} bytes, {} alone", hex(&p), hex(&x), b.rest, a.rest);
                ensure!(Command::whole(&px).is_ok() == (a.rest == 0), "{}|{}: whole", hex(&p), hex(&x));
                o.tag("concatenations");
            }
            (Err(_), Err(_)) => {
                ensure!(Command::whole(&px).is_err(), "{}|{}: whole", hex(&p), hex(&x));
                o.tag("bad suffixes")
            }
            (Ok(b), Err(e)) => return fail(format!("{}|{}: decodes to {:?} though the suffix alone is rejected: {:?}", hex(&p), hex(&x), b.value.actions, e)),
            (Err(e), Ok(_)) => return fail(format!("{}|{}: is rejected though both parts are accepted: {:?}", hex(&p), hex(&x), e)),
        }
    }
    // cuts
    let mut bounds = vec![0usize];
    for x in &parts {
        bounds.push(bounds.last().unwrap() + x.0.len());
    }
    let cuts: Vec<usize> = if p.len() <= 120 { (0..p.len()).collect() } else { (0..if p.len() > 4000 { 10 } else { 60 }).map(|_| r.below(p.len() as u64) as usize).chain(if long { vec![bounds[bounds.len() - 2]] } else { vec![] }).collect() };
    for c in cuts {
        let g = Command::slice(&p[..c], 0);
        let w = Command::whole(&p[..c]);
        match bounds.iter().position(|b| *b == c) {
            Some(i) => {
                ensure!(g.as_ref().map(|g| (&g.value.actions[..], g.rest)) == Ok((&want[..i], 0)), "{}: cut after action {}: {:?}", hex(&p[..c]), i, g.map(|g| g.value));
                ensure!(w.is_ok(), "{}: cut after action {}: not accepted as a whole", hex(&p[..c]), i);
            }
            None => {
                ensure!(g.is_err() && w.is_err(), "{}: cut inside an action of {} but decodes to {:?}", hex(&p[..c]), hex(&p), g.map(|g| g.value));
                o.tag("cuts inside actions");
            }
        }
    }
    o.distinct(&px);
    o.sample_with(|| short(&format!("{} | {}", hex(&p), hex(&x))));
    Ok(())
}

pub fn remainder(input: &[u8], o: &mut Obs) -> Verdict {
    let it = &all_items()[input[8] as usize];
    let mut r = Rng::new(seed_of(input));
    let m = if input.get(9) == Some(&1) { Mode::Big } else { *r.pick(&[Mode::Canon, Mode::Loose]) };
    let (x, ok) = (it.gen)(&mut r, m);
    if !ok || !it.aligned || (it.greedy && it.name != "foreground") {
        return Ok(());
    }
    let k = 1 + r.below(20) as usize;
    let t = if r.chance(1, 3) { vec![*r.pick(&[0u8, 0xFF, 0x33]); k] } else { r.bytes(k) };
    let mut xt = x.clone();
    xt.extend_from_slice(&t);
    let (a, b) = ((it.slice)(&x, 0), (it.slice)(&xt, 0));
    let (Ok(a), Ok(b)) = (a, b) else { return fail(format!("{}: {} (|{}) is rejected", it.name, hex(&x), hex(&t))) };
    ensure!(a.rest == 0 && a.bits == 0, "{}: {} leaves {} bytes", it.name, hex(&x), a.rest);
    ensure!(b.rest == t.len() && b.bits == 0 && b.suffix, "{}: {}|{} leaves {} bytes {} bits", it.name, hex(&x), hex(&t), b.rest, b.bits);
    ensure!(a.value.same(&*b.value), "{}: {}|{}: what follows changes the value", it.name, hex(&x), hex(&t));
    match (it.whole)(&x) {
        Ok(w) => ensure!(w.same(&*a.value), "{}: {}: whole-buffer decoding differs", it.name, hex(&x)),
        Err(e) => return fail(format!("{}: {} is rejected as a whole: {}", it.name, hex(&x), e)),
    }
    ensure!((it.whole)(&xt).is_err(), "{}: {}|{}: whole-buffer decoding drops bytes", it.name, hex(&x), hex(&t));
    let mut st = Stream::new(xt.clone(), 0, Plan::default());
    match (it.reader)(&mut st, 0) {
        Ok((bits, v)) => {
            ensure!(bits == 8 * x.len(), "{}: {}|{}: {} bits counted", it.name, hex(&x), hex(&t), bits);
            ensure!(v.same(&*a.value), "{}: {}: a reader decodes differently", it.name, hex(&x));
        }
        Err(e) => return fail(format!("{}: {} is rejected from a reader: {}", it.name, hex(&x), e)),
    }
    for c in 0..x.len().min(if x.len() > 4000 { 8 } else { 80 }) {
        let c = if x.len() <= 80 { c } else { r.below(x.len() as u64) as usize };
        ensure!((it.slice)(&x[..c], 0).is_err(), "{}: {} is accepted though cut short of {}", it.name, hex(&x[..c]), hex(&x));
        o.tag("cuts");
    }
    o.tag(&format!("remainders {}", it.name));
    o.distinct(&xt);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06

fn put_len(r: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let min = if n < 1 << 6 { 0 } else if n < 1 << 14 { 1 } else { 2 };
    let form = if r.chance(3, 4) { min } else { min + r.below(4 - min) };
    let v = (n as u64) | form << (6 + 8 * form);
    for i in (0..=form).rev() {
        out.push((v >> (8 * i)) as u8);
    }
}
/// Content for a length-prefixed operand: right, too short, too long, unrelated, deceptive.
pub fn content(r: &mut Rng, valid: Vec<u8>, big: bool) -> Vec<u8> {
    if big {
        let n = {
            let mut s = S::gen(r);
            s.big = 1;
            s.paylen()
        };
        let mut v = match r.below(3) {
            0 => r.bytes(n),
            1 => vec![*r.pick(&[0u8, 0x34, 0xFF, 0x33]); n],
            _ => valid,
        };
        v.resize(v.len().max(n), 0x52);
        return v;
    }
    match r.below(8) {
        0 | 1 => valid,
        2 => {
            let mut v = valid;
            v.truncate(r.below(v.len() as u64 + 1) as usize);
            v
        }
        3 => {
            let mut v = valid;
            let k = 1 + r.below(5) as usize;
            v.extend(r.bytes(k));
            v
        }
        4 => {
            let k = r.below(90) as usize;
            r.bytes(k)
        }
        5 => {
            let k = r.below(70) as usize;
            vec![*r.pick(&[0u8, 0x34, 0xFF, 0x33]); k]
        }
        6 => mutate(r, valid),
        _ => {
            let a = actions_raw(r, 2, false, Mode::Canon);
            a.map_or(vec![], |v| v.iter().flat_map(|x| x.0.clone()).collect())
        }
    }
}
pub fn operand(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let big = input.get(8) == Some(&1);
    let mut head = vec![];
    let wiz = cfg!(feature = "wizzilab");
    let kind = r.below(if wiz { 8 } else { 6 });
    let data;
    match kind {
        0..=3 => {
            head.push(*r.pick(&[0x04u8, 0x05, 0x20]) | (r.byte() & 0xC0));
            let id = if r.chance(3, 4) { *r.pick(&model::TYPED) } else { r.byte() };
            head.push(id);
            head.push(r.byte() & 0x3F);
            let valid = draw(&mut r, Mode::Loose, |s| model::file_body(s, id, 9)).0;
            data = content(&mut r, valid, big);
        }
        4 | 5 => {
            head.push(0x62);
            let id = *r.pick(&[0u8, 1, 2, 3, 0xD7, 0xD7, 0x42, 0xFF]);
            head.push(id);
            let valid = match id {
                0 | 1 => vec![],
                0xD7 => draw(&mut r, Mode::Loose, model::dash7_status).0,
                _ => r.bytes(6),
            };
            data = content(&mut r, valid, big);
        }
        #[cfg(feature = "wizzilab")]
        6 => {
            head.push(0xA2);
            let id = *r.pick(&[0u8, 1, 0xD7, 0xD7, 0x42]);
            head.push(id);
            let valid = if id == 0xD7 { draw(&mut r, Mode::Loose, model::final_code).0 } else { r.bytes(3) };
            data = content(&mut r, valid, big);
        }
        #[cfg(feature = "wizzilab")]
        _ => {
            head.push(0x66);
            let id = *r.pick(&[0u8, 1, 0xD7, 0xD7, 0x42]);
            head.push(id);
            let valid = if id == 0xD7 {
                // channel, level, error, reserved, time, addressee
                let mut v = r.bytes(4);
                v[0] &= 0x3F;
                v.push(*r.pick(&[0u8, 0xFF, 0xEA]));
                v.extend(r.bytes(7));
                v.extend(draw(&mut r, Mode::Loose, model::addressee).0);
                v
            } else {
                r.bytes(3)
            };
            data = content(&mut r, valid, big);
        }
        #[cfg(not(feature = "wizzilab"))]
        _ => unreachable!(),
    }
    put_len(&mut r, &mut head, data.len());
    let mut op_bytes = head.clone();
    op_bytes.extend_from_slice(&data);
    let tail: Vec<u8> = match r.below(4) {
        0 => vec![],
        1 => {
            let k = 1 + r.below(70) as usize;
            r.bytes(k)
        }
        _ => {
            let k = 1 + r.below(4) as usize;
            match actions_raw(&mut r, k, false, Mode::Loose) {
                Some(v) => v.iter().flat_map(|x| x.0.clone()).collect(),
                None => vec![],
            }
        }
    };
    let mut all = op_bytes.clone();
    all.extend_from_slice(&tail);

    let mut s = S::read(&op_bytes);
    let want = model::action(&mut s, None);
    let (alone, then) = (Action::slice(&op_bytes, 0), Action::slice(&all, 0));
    // what follows has no influence
    match (&alone, &then) {
        (Ok(a), Ok(b)) => {
            ensure!(a.value == b.value, "{}|{}: what follows changes the operand: {:?}", hex(&op_bytes), hex(&tail), b.value);
            ensure!(a.rest == 0, "{}: {} bytes of the operand are left over", hex(&op_bytes), a.rest);
            ensure!(b.rest == tail.len() && b.bits == 0 && b.suffix, "{}|{}: {} bytes are left over", hex(&op_bytes), hex(&tail), b.rest);
        }
        (Err(_), Err(_)) => {}
        (a, b) => {
            return fail(format!("{}|{}: what follows decides on acceptance: {:?} / {:?}", hex(&op_bytes), hex(&tail), a.as_ref().map(|x| &x.value), b.as_ref().map(|x| &x.value)))
        }
    }
    match want {
        Ok(v) => {
            match &alone {
                Ok(a) => ensure!(a.value == v, "{} means {:?} but decodes to {:?}", hex(&op_bytes), v, a.value),
                Err(e) => return fail(format!("{} means {:?} but is rejected: {:?}", hex(&op_bytes), v, e)),
            }
            o.tag("operands understood");
            let rest = Command::slice(&tail, 0);
            match (Command::slice(&all, 0), rest) {
                (Ok(c), Ok(t)) => {
                    ensure!(c.value.actions.first() == Some(&v), "{}|{}: first action {:?}", hex(&op_bytes), hex(&tail), c.value.actions.first());
                    ensure!(c.value.actions[1..] == t.value.actions[..], "{}|{}: the following actions are {:?}", hex(&op_bytes), hex(&tail), &c.value.actions[1..]);
                    ensure!(c.rest == t.rest, "{}|{}: {} bytes are left over", hex(&op_bytes), hex(&tail), c.rest);
                    o.add("following actions", t.value.actions.len() as u64);
                }
                (Err(_), Err(_)) => o.tag("bad followers"),
                (c, t) => return fail(format!("{}|{}: the operand decides on what follows: {:?} / {:?}", hex(&op_bytes), hex(&tail), c.map(|x| x.value), t.map(|x| x.value))),
            }
        }
        Err(E::Ambig) => o.tag("undecided order of errors"),
        Err(e) => {
            ensure!(alone.is_err(), "{} is not well formed ({:?}) but decodes to {:?}", hex(&op_bytes), e, alone.map(|x| x.value));
            ensure!(Command::slice(&all, 0).is_err(), "{}|{} is not well formed ({:?}) but accepted", hex(&op_bytes), hex(&tail), e);
            o.tag("operands refused");
        }
    }
    // declared but missing bytes
    if !data.is_empty() {
        let c = head.len() + r.below(data.len() as u64) as usize;
        let g = Action::slice(&op_bytes[..c], 0);
        ensure!(g.is_err(), "{}: {} of {} declared bytes are missing but it decodes to {:?}", hex(&op_bytes[..c]), op_bytes.len() - c, data.len(), g.map(|x| x.value));
        o.tag("missing bytes");
    }
    o.distinct(&all);
    o.sample_with(|| short(&format!("{} | {}", hex(&op_bytes), hex(&tail))));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07, C08, C09

pub fn pairs() -> &'static Vec<u32> {
    static V: OnceLock<Vec<u32>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<u32> = (0..=255u8).map(model::varint_value).collect();
        v.sort();
        v.dedup();
        v
    })
}
/// Check all numbers of a block of 1024.
pub fn compress_block(input: &[u8], o: &mut Obs) -> Verdict {
    let block = u32::from_le_bytes(input[..4].try_into().unwrap());
    let table = pairs();
    let max = *table.last().unwrap();
    ensure!(VarInt::MAX == max, "the maximum is {} instead of {}", VarInt::MAX, max);
    let mut last = [None::<u32>; 2];
    for v in block..=block.saturating_add(1023) {
        for ceil in [false, true] {
            let r = VarInt::compress(v, ceil);
            let made = VarInt::new(v, ceil);
            let unchecked = VarInt::new_unchecked(v, ceil);
            let enc = Codec::enc(&unchecked);
            ensure!(VarInt::is_valid(v) == (v <= max), "is_valid({})", v);
            if v > max {
                ensure!(r == Err(VarIntError::ValueTooLarge(v)), "compress({}, {}) = {:?}", v, ceil, r);
                ensure!(made == Err(VarIntError::ValueTooLarge(v)), "new({}, {}) = {:?}", v, ceil, made);
                ensure!(enc.is_err(), "{} encodes to {:?}", v, enc);
                o.tag("refused numbers");
                continue;
            }
            let Ok((e, m)) = r else { return fail(format!("compress({}, {}) = {:?}", v, ceil, r)) };
            ensure!(e < 8 && m < 32, "compress({}, {}) = ({}, {})", v, ceil, e, m);
            let got = model::varint_value(e << 5 | m);
            // the step is four to the smallest exponent whose range reaches the number
            let step = (0..8).map(|e| 1u32 << (2 * e)).find(|q| v <= 31 * q).unwrap();
            let want = if ceil { v.div_ceil(step) } else { v / step } * step;
            ensure!(got == want, "compress({}, {}) = ({}, {}) denotes {} instead of {}", v, ceil, e, m, got, want);
            ensure!(if ceil { got >= v } else { got <= v } && got.abs_diff(v) < step, "compress({}, {}) denotes {}", v, ceil, got);
            if ceil {
                let i = table.partition_point(|x| *x < v); // first not below
                ensure!(got == table[i], "compress({}, true) denotes {}, not the smallest representable {}", v, got, table[i]);
            }
            if table.binary_search(&v).is_ok() {
                ensure!(got == v, "compress({}, {}) denotes {}", v, ceil, got);
            }
            if let (true, Some(l)) = (ceil, last[ceil as usize]) {
                ensure!(l <= got, "compress({}, {}) denotes less than for {}", v, ceil, v - 1);
            }
            last[ceil as usize] = Some(got);
            ensure!(VarInt::decompress(e, m) == Ok(got), "decompress({}, {}) = {:?}", e, m, VarInt::decompress(e, m));
            match &enc {
                Ok(b) => ensure!(b[..] == [e << 5 | m], "{} encodes to {}", v, hex(b)),
                Err(x) => return fail(format!("{} does not encode: {:?}", v, x)),
            }
            match made {
                Ok(x) => {
                    ensure!(Into::<u32>::into(x) == v, "new({}) holds {}", v, Into::<u32>::into(x));
                    ensure!(x == unchecked, "new and new_unchecked differ for {}", v);
                }
                Err(x) => return fail(format!("new({}, {}) = {:?}", v, ceil, x)),
            }
            if !ceil {
                ensure!(Into::<u32>::into(VarInt::from(v)) == v && VarInt::from(v) == unchecked, "from({})", v);
            }
        }
        o.tag("numbers compressed");
    }
    o.distinct(input);
    o.sample_with(|| format!("numbers {} to {}", block, block as u64 + 1023));
    Ok(())
}
pub fn decompress_all(input: &[u8], o: &mut Obs) -> Verdict {
    let e = input[0];
    for m in 0..=255u8 {
        let r = VarInt::decompress(e, m);
        match (e < 8, m < 32) {
            (true, true) => {
                let want = m as u32 * 4u32.pow(e as u32);
                ensure!(r == Ok(want), "decompress({}, {}) = {:?}", e, m, r);
                let b = e << 5 | m;
                let d = VarInt::whole(&[b]);
                ensure!(d.as_ref().map(|x| Into::<u32>::into(*x)) == Ok(want), "{:02X} decodes to {:?}", b, d);
                // representable: exact in both modes
                for ceil in [false, true] {
                    let c = VarInt::compress(want, ceil);
                    ensure!(c.as_ref().map(|x| model::varint_value(x.0 << 5 | x.1)) == Ok(want), "compress({}, {}) = {:?}", want, ceil, c);
                }
                ensure!(VarInt::slice(&[b, 0x55], 0).map(|s| (s.rest, s.value)) == d.map(|d| (1, d)), "{:02X} followed by a byte", b);
                o.tag("encoded numbers");
            }
            (false, true) => ensure!(r == Err(VarIntError::ExponentTooLarge(e)), "decompress({}, {}) = {:?}", e, m, r),
            (true, false) => ensure!(r == Err(VarIntError::MantissaTooLarge(m)), "decompress({}, {}) = {:?}", e, m, r),
            _ => ensure!(
                r == Err(VarIntError::ExponentTooLarge(e)) || r == Err(VarIntError::MantissaTooLarge(m)),
                "decompress({}, {}) = {:?}",
                e,
                m,
                r
            ),
        }
        o.tag("pairs");
    }
    o.distinct(input);
    Ok(())
}

fn length_bytes(v: u32) -> ([u8; 4], usize) {
    let form = if v < 1 << 6 { 0 } else if v < 1 << 14 { 1 } else if v < 1 << 22 { 2 } else { 3 };
    let w = v | (form as u32) << (6 + 8 * form);
    let b = w.to_be_bytes();
    let mut out = [0u8; 4];
    out[..form + 1].copy_from_slice(&b[3 - form..]);
    (out, form + 1)
}
pub fn length_one(v: u32, o: &mut Obs) -> Verdict {
    let l = op::Length::from(v);
    ensure!(Into::<u32>::into(l) == v && Into::<usize>::into(l) == v as usize, "Length::from({}) holds {}", v, Into::<u32>::into(l));
    let e = Codec::enc(&l);
    if v >= 1 << 30 {
        ensure!(e.is_err(), "{} encodes to {}", v, hex(&e.unwrap_or_default()));
        o.tag("refused numbers");
        return Ok(());
    }
    let (want, n) = length_bytes(v);
    let e = match e {
        Ok(e) => e,
        Err(x) => return fail(format!("length {} does not encode: {:?}", v, x)),
    };
    ensure!(e[..] == want[..n], "length {} encodes to {} instead of {}", v, hex(&e), hex(&want[..n]));
    let d = op::Length::slice(&e, 0);
    ensure!(d.as_ref().map(|d| (d.rest, d.value)) == Ok((0, l)), "{} decodes to {:?} instead of {}", hex(&e), d.map(|d| d.value), v);
    o.tag(["1 byte", "2 bytes", "3 bytes", "4 bytes"][n - 1]);
    Ok(())
}
/// 4096 consecutive numbers.
pub fn length_block(input: &[u8], o: &mut Obs) -> Verdict {
    let block = u32::from_le_bytes(input[..4].try_into().unwrap());
    for v in block..=block.saturating_add(4095) {
        length_one(v, o)?;
    }
    o.distinct(input);
    o.sample_with(|| format!("numbers {} to {}", block, block as u64 + 4095));
    Ok(())
}
pub fn length_seed(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    for _ in 0..64 {
        let w = 1 + r.below(32) as u32;
        length_one(r.edgy(w) as u32, o)?;
    }
    o.distinct(input);
    Ok(())
}
/// Any form, minimal or not, with something behind it.
pub fn length_form(input: &[u8], o: &mut Obs) -> Verdict {
    let form = (input[0] >> 6) as usize;
    let d = op::Length::slice(input, 0);
    if input.len() < form + 1 {
        ensure!(d.is_err() && op::Length::whole(input).is_err(), "{} is cut but decodes to {:?}", hex(input), d.map(|d| d.value));
        o.tag("cut forms");
        return Ok(());
    }
    let mut v = (input[0] & 0x3F) as u32;
    for b in &input[1..=form] {
        v = v << 8 | *b as u32;
    }
    ensure!(
        d.as_ref().map(|d| (d.rest, d.bits, Into::<u32>::into(d.value))) == Ok((input.len() - form - 1, 0, v)),
        "{} decodes to {:?} instead of {}",
        hex(input),
        d.map(|d| d.value),
        v
    );
    ensure!(op::Length::whole(&input[..form + 1]).map(|l| l.into()) == Ok(v), "{} as a whole", hex(&input[..form + 1]));
    if input.len() > form + 1 {
        ensure!(op::Length::whole(input).is_err(), "{} drops bytes", hex(input));
    }
    o.tag(["form 1", "form 2", "form 3", "form 4"][form]);
    o.distinct(input);
    Ok(())
}

/// Encode a value holding a number that may not fit; decode and compare when it is accepted.
fn refuse<T: Codec>(o: &mut Obs, what: &str, v: T, fits: bool) -> Verdict {
    refuse_of(o, what, Box::new(v), fits, dyn_whole::<T>)
}
fn refuse_of(o: &mut Obs, what: &str, v: Dyn, fits: bool, whole: fn(&[u8]) -> Result<Dyn, String>) -> Verdict {
    let mut st = Stream::new(vec![], 0, Plan::default());
    let to_stream = v.denc_to(&mut st);
    let e = v.denc();
    ensure!(to_stream.is_ok() == e.is_ok(), "{}: buffer and stream encoders disagree on {:?}", what, v);
    match e {
        Ok(b) => {
            let d = whole(&b);
            ensure!(d.as_ref().is_ok_and(|x| **x == *v), "{}: {:?} encodes to {}, which decodes to {:?}", what, v, hex(&b), d);
            ensure!(fits, "{}: {:?} does not fit but encodes to {}", what, v, hex(&b));
            o.tag(&format!("in range {}", what));
        }
        Err(_) => {
            ensure!(!fits, "{}: {:?} fits but does not encode", what, v);
            o.tag(&format!("refused {}", what));
        }
    }
    Ok(())
}
/// A constructor given numbers that may not fit.
fn built<T: Codec>(o: &mut Obs, what: &str, made: T, meant: &T, fits: bool) -> Verdict {
    ensure!(!fits || made == *meant, "{}: the constructor makes {:?} of {:?}", what, made, meant);
    let e = made.enc();
    ensure!(e.is_ok() == fits, "{}: constructed as {:?} for {:?}, encodes to {:?}", what, made, meant, e.map(|x| hex(&x)));
    o.tag(&format!("constructed {}", what));
    Ok(())
}
pub fn out_of_range(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let n = {
        let w = 1 + r.below(32) as u32;
        r.edgy(w) as u32
    };
    let n = if r.chance(1, 3) { *r.pick(&[(1u32 << 30) - 1, 1 << 30, (1 << 30) + 1, u32::MAX, 1 << 31, 507904, 507905, 507903]) } else { n };
    let (a, b) = (r.edgy(8) as u8, r.edgy(8) as u8);
    let idx = r.edgy(16) as u16;
    let mut s = S::gen(&mut r);
    let parts = (|| -> R<_> { Ok((model::addressee(&mut s)?, model::dash7_status(&mut s)?, model::file_header(&mut s)?, model::channel_status(&mut s)?, model::query(&mut s)?)) })();
    let Ok((adr, d7, _fh, cs, qu)) = parts else { return Ok(()) };
    let ac = link::AccessClass { specifier: a, mask: b };
    let ac_fits = a < 16 && b < 16;
    let mut adr2 = adr.clone();
    adr2.access_class = ac.clone();
    let len_fits = n < 1 << 30;
    let vi_fits = model::varint_value(0xFF) >= n;
    let exact = pairs().binary_search(&n).is_ok();
    let header = op::ActionHeader::new(a & 1 > 0, b & 1 > 0);
    let file = op::FileOffset { file_id: a, offset: n.into() };
    match r.below(17) {
        16 => {
            // keys and identifiers of a fixed size
            let mut size = |right: usize| if r.chance(1, 2) { right } else { *r.pick(&[0, 1, right - 1, right + 1, 2 * right, 40, 300]) };
            let base = LoRaWANInterfaceConfiguration { adr_enabled: a & 1 > 0, request_ack: b & 1 > 0, application_port: a as _, data_rate: b as _ };
            let (x, y) = (size(16), size(16));
            let abp = LoRaWANABPInterfaceConfiguration { base: base.clone(), network_session_key: vec![a; x], app_session_key: vec![b; y], device_address: n as _, network_id: !n as _ };
            let fits = x == 16 && y == 16;
            refuse(o, "session keys", abp.clone(), fits)?;
            refuse(o, "session keys in a command", Command { actions: vec![Action::Forward(op::Forward::new(true, InterfaceConfiguration::LoRaWanABP(abp)))] }, fits)?;
            let (x, y, z) = (size(8), size(8), size(16));
            let otaa = LoRaWANOTAAInterfaceConfiguration { base, device_eui: vec![a; x], app_eui: vec![b; y], app_key: vec![a; z] };
            let fits = x == 8 && y == 8 && z == 16;
            refuse(o, "identifiers and key", otaa.clone(), fits)?;
            refuse(o, "identifiers and key in an action", Action::Forward(op::Forward::new(false, InterfaceConfiguration::LoRaWanOTAA(otaa))), fits)?
        }
        0 => {
            built(o, "access class", link::AccessClass::new(a, b), &ac, ac_fits)?;
            refuse(o, "access class", ac, ac_fits)?
        }
        1 => {
            #[cfg(not(feature = "wizzilab"))]
            let made = net::Addressee::new(adr2.address.clone(), adr2.nls_state.clone(), link::AccessClass::new(a, b));
            #[cfg(feature = "wizzilab")]
            let made = net::Addressee::new(adr2.use_vid, adr2.group_condition.clone(), adr2.address.clone(), adr2.nls_state.clone(), link::AccessClass::new(a, b));
            built(o, "addressee access class", made, &adr2, ac_fits)?;
            refuse(o, "addressee access class", adr2, ac_fits)?
        }
        2 => {
            let mut d = d7;
            d.addressee = adr2;
            let a: op::StatusOperand = op::Status::Interface(ses::InterfaceStatus::Dash7(d).into()).into();
            refuse(o, "status access class", Command { actions: vec![Action::Status(a)] }, ac_fits)?
        }
        3 => {
            let f = op::IndirectForward::new(true, Some(IndirectInterface::Dash7(adr2)));
            refuse(o, "forwarded access class", Action::IndirectForward(f), ac_fits)?
        }
        4 => {
            let k = r.below(4) as usize;
            let qy = q::StringTokenSearch::new(a, vec![b; k], vec![a; k], op::FileOffset::no_offset(b));
            refuse(o, "error tolerance", q::Query::StringTokenSearch(qy), a < 8)?
        }
        5 => {
            let mut c = cs.clone();
            c.identifier.index = idx as _;
            refuse(o, "channel index", c, idx < 1 << 11)?
        }
        6 => {
            let mut c = cs.clone();
            c.identifier.index = idx as _;
            let p = file::PhyStatus::new(n, n, n, idx, vec![cs.clone(), c, cs]);
            let f = op::FileData::new(header, op::FileOffset::no_offset(9), File::PhyStatus(p), OpCode::RETURN_FILE_DATA);
            refuse(o, "channel index in a file", Action::ReturnFileData(f), idx < 1 << 11)?
        }
        7 => {
            let w = 1 + r.below(63) as u32;
            let big = if r.chance(1, 4) { (r.below(1 << 20) << 32) + n as u64 } else { r.edgy(w) };
            let l = op::Length::from(big as usize);
            refuse(o, "length of a size", l, big < 1 << 30)?;
            ensure!(big >= 1 << 30 || Into::<u32>::into(l) as u64 == big, "Length::from({}usize) is {:?}", big, l);
            refuse(o, "length", op::Length::from(n), len_fits)?
        }
        8 => refuse(o, "file offset", file, len_fits)?,
        9 => refuse(o, "read offset", Action::ReadFileData(op::ReadFileData { header, opcode: OpCode(1), offset: file, length: 3u32.into() }), len_fits)?,
        10 => refuse(o, "read length", Action::ReadFileData(op::ReadFileData { header, opcode: OpCode(1), offset: op::FileOffset::no_offset(b), length: n.into() }), len_fits)?,
        11 => {
            let f = op::FileData::new(header, file, File::Other(vec![1, 2, 3]), OpCode::WRITE_FILE_DATA);
            refuse(o, "write offset", Action::WriteFileData(f), len_fits || a == 0 && false)?
        }
        12 => {
            let qy = match qu {
                q::Query::NonVoid(_) => q::Query::NonVoid(q::NonVoid { length: n.into(), file: op::FileOffset::no_offset(a) }),
                q::Query::BitmapRangeComparison(x) => q::Query::BitmapRangeComparison(q::BitmapRangeComparison::new(x.params, n, 3, vec![1], op::FileOffset::no_offset(b))),
                q::Query::ComparisonWithOtherFile(x) => {
                    let f1 = op::FileOffset::no_offset(a);
                    q::Query::ComparisonWithOtherFile(q::ComparisonWithOtherFile::new(x.params, vec![2, 3], f1, op::FileOffset { file_id: b, offset: n.into() }))
                }
                _ => q::Query::BitmapRangeComparison(q::BitmapRangeComparison::new(Default::default(), 1, n, vec![], op::FileOffset::no_offset(b))),
            };
            refuse(o, "query number", Action::ActionQuery(op::ActionQuery { header, opcode: OpCode(8), query: qy }), len_fits)?
        }
        13 => {
            let v = VarInt::new_unchecked(n, false);
            for ceil in [false, true] {
                let made = VarInt::new(n, ceil);
                ensure!(made.is_ok() == vi_fits, "VarInt::new({}, {}) is {:?}", n, ceil, made);
                ensure!(VarInt::new_unchecked(n, ceil).enc().is_ok() == vi_fits, "VarInt::new_unchecked({}, {}) encodes to {:?}", n, ceil, VarInt::new_unchecked(n, ceil).enc());
            }
            ensure!(VarInt::from(n).enc().is_ok() == vi_fits, "VarInt::from({}) encodes to {:?}", n, VarInt::from(n).enc());
            if exact || !vi_fits {
                refuse(o, "compressed number", v, vi_fits)?
            } else {
                // rounding is not truncation: C07 decides on it
                ensure!(v.enc().is_ok(), "{} is within range but does not encode", n);
            }
        }
        14 => {
            let mut d = d7;
            d.response_timeout = VarInt::new_unchecked(n, false);
            d.addressee.address = net::Address::NoId;
            let _ = d.addressee.update();
            if exact || !vi_fits {
                refuse(o, "compressed number in a status", d, vi_fits)?
            }
        }
        _ => {
            let k = 250 + r.below(14) as usize + if r.chance(1, 4) { 256 } else { 0 };
            let p = file::PhyStatus::new(1, 2, 3, 4, vec![cs; k]);
            refuse(o, "channel status count", p.clone(), k < 256)?;
            let f = op::FileData::new(header, op::FileOffset::no_offset(9), File::PhyStatus(p), OpCode::RETURN_FILE_DATA);
            refuse(o, "channel status count in a command", Command { actions: vec![Action::ReturnFileData(f)] }, k < 256)?
        }
    }
    o.distinct(input);
    Ok(())
}
/// Sweep of the narrow fields.
pub fn out_of_range_sweep(input: &[u8], o: &mut Obs) -> Verdict {
    let a = input[0];
    for b in 0..=255u8 {
        let meant = link::AccessClass { specifier: a, mask: b };
        built(o, "access class", link::AccessClass::new(a, b), &meant, a < 16 && b < 16)?;
        refuse(o, "access class", meant, a < 16 && b < 16)?;
        let i = (a as u16) << 8 | b as u16;
        refuse(
            o,
            "channel index",
            phy::ChannelStatus {
                identifier: phy::ChannelStatusIdentifier { channel_band: phy::ChannelBand::Band868, bandwidth: phy::Bandwidth::KHz25, index: i as _ },
                noise_floor: b as _,
            },
            i < 1 << 11,
        )?;
        refuse(o, "error tolerance", q::Query::StringTokenSearch(q::StringTokenSearch::new(a, vec![], vec![b; b as usize % 5], op::FileOffset::no_offset(b))), a < 8)?;
    }
    o.distinct(input);
    Ok(())
}
