//! Independent reference model of the DASH7 formats.
//!
//! One description per item, written against [`S`], which either *reads* bits from an input (reference
//! decoder) or *draws* them from a PRNG (generator). While doing so it keeps the canonical encoding of what
//! it has seen (reference encoder). The values it returns are the library's own, built through public
//! constructors, so that they can be compared with `==`; the bit level work is all done here.
use crate::rng::Rng;
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation::*;
use dash7::app::query::*;
use dash7::data;
use dash7::file::{self, File};
use dash7::link::{self, AccessClass, SubProfile};
use dash7::network::*;
use dash7::physical::*;
use dash7::session::*;
use dash7::transport;
use dash7::types::VarInt;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum E {
    /// ran out of input
    Short,
    /// not well formed
    Bad(&'static str),
    /// both malformed and short inside a bounded operand: the outcome depends on the order of detection
    Ambig,
}
pub type R<T> = Result<T, E>;

enum Src<'a> {
    Read(&'a [u8]),
    Gen(&'a mut Rng),
}

#[derive(Default, Clone)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
}
impl Bits {
    pub fn put(&mut self, v: u128, n: u32) {
        for i in (0..n).rev() {
            if self.len % 8 == 0 {
                self.bytes.push(0);
            }
            let bit = ((v >> i) & 1) as u8;
            let last = self.bytes.len() - 1;
            self.bytes[last] |= bit << (7 - self.len % 8);
            self.len += 1;
        }
    }
    pub fn put_bytes(&mut self, b: &[u8]) {
        if self.len % 8 == 0 {
            self.bytes.extend_from_slice(b);
            self.len += b.len() * 8;
        } else {
            for x in b {
                self.put(*x as u128, 8);
            }
        }
    }
    /// DASH7 length field in its minimal form
    pub fn put_length(&mut self, v: u32) {
        let form = if v < 1 << 6 { 0 } else if v < 1 << 14 { 1 } else if v < 1 << 22 { 2 } else { 3 };
        self.put(form, 2);
        self.put(v as u128, 6 + 8 * form as u32);
    }
}

pub struct S<'a> {
    src: Src<'a>,
    /// bits consumed (read) or produced (gen)
    pub pos: usize,
    /// what was generated (gen only)
    pub raw: Bits,
    /// canonical encoding of what was read or generated
    pub canon: Bits,
    /// gen: only canonical forms (minimal lengths and numbers, reserved bits zero)
    pub only_canon: bool,
    /// gen: chance (of 1000) of an undefined enumeration value, at which generation ends with Bad
    pub hostile: u64,
    /// gen: 1 draws payloads and commands of up to some 70 000 bytes, 2 one of 4 MiB and more
    pub big: u8,
    /// canonical byte positions of interface ids that the library does not keep (known finding KF1)
    pub holes: Vec<usize>,
    /// known finding KF2: bits already skipped before the frame, which its length erroneously covers
    pub base: usize,
}

/// The library's number types.
pub trait Num: Copy {
    fn from_bits(v: u64) -> Self;
    fn from_signed(v: i64) -> Self;
}
macro_rules! num {
    ($($t:ty)*) => {$(
        impl Num for $t {
            fn from_bits(v: u64) -> Self {
                v as $t
            }
            fn from_signed(v: i64) -> Self {
                v as $t
            }
        }
    )*};
}
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128);

pub fn size_class(v: u64) -> u32 {
    64 - v.leading_zeros()
}

impl<'a> S<'a> {
    pub fn read(input: &'a [u8]) -> Self {
        S { src: Src::Read(input), pos: 0, raw: Bits::default(), canon: Bits::default(), only_canon: false, hostile: 0, big: 0, holes: vec![], base: 0 }
    }
    pub fn gen(rng: &'a mut Rng) -> Self {
        S { src: Src::Gen(rng), pos: 0, raw: Bits::default(), canon: Bits::default(), only_canon: true, hostile: 0, big: 0, holes: vec![], base: 0 }
    }
    pub fn gen_loose(rng: &'a mut Rng) -> Self {
        let mut s = S::gen(rng);
        s.only_canon = false;
        s
    }
    pub fn is_gen(&self) -> bool {
        matches!(self.src, Src::Gen(_))
    }
    pub fn rng(&mut self) -> &mut Rng {
        match &mut self.src {
            Src::Gen(r) => r,
            _ => unreachable!("rng in read mode"),
        }
    }
    pub fn at_end(&self) -> bool {
        match &self.src {
            Src::Read(b) => self.pos >= b.len() * 8,
            Src::Gen(_) => false,
        }
    }
    /// The canonical bytes with the known-lost interface ids left out (KF1).
    pub fn canon_without_holes(&self) -> Vec<u8> {
        self.canon.bytes.iter().enumerate().filter(|(i, _)| !self.holes.contains(i)).map(|(_, b)| *b).collect()
    }

    fn take(&mut self, n: u32) -> R<u128> {
        match &self.src {
            Src::Read(b) => {
                if self.pos + n as usize > b.len() * 8 {
                    return Err(E::Short);
                }
                let mut v = 0u128;
                for i in self.pos..self.pos + n as usize {
                    v = v << 1 | (b[i / 8] >> (7 - i % 8) & 1) as u128;
                }
                self.pos += n as usize;
                Ok(v)
            }
            Src::Gen(_) => unreachable!(),
        }
    }
    fn emit(&mut self, v: u128, n: u32) {
        self.raw.put(v, n);
        self.pos += n as usize;
    }
    /// A plain number.
    pub fn bits(&mut self, n: u32) -> R<u64> {
        let v = if self.is_gen() {
            let v = self.rng().edgy(n) as u128;
            self.emit(v, n);
            v
        } else {
            self.take(n)?
        };
        self.canon.put(v, n);
        Ok(v as u64)
    }
    pub fn fixed(&mut self, n: u32, v: u64) -> R<u64> {
        self.one_of(n, &[v])
    }
    /// Like `bits`, but generated as this value.
    pub fn bits_as(&mut self, n: u32, v: u64) -> R<u64> {
        if self.is_gen() {
            self.emit(v as u128, n);
            self.canon.put(v as u128, n);
            Ok(v)
        } else {
            self.bits(n)
        }
    }
    pub fn flag(&mut self) -> R<bool> {
        if self.is_gen() {
            let v = self.rng().chance(1, 2);
            self.bits_as(1, v as u64)?;
            Ok(v)
        } else {
            Ok(self.bits(1)? == 1)
        }
    }
    // The number of bits is this description's; the type is whatever the library keeps the number in.
    pub fn u8<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits(self.bits(8)?))
    }
    pub fn i8<T: Num>(&mut self) -> R<T> {
        Ok(T::from_signed(self.bits(8)? as u8 as i8 as i64))
    }
    pub fn u16<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits(self.bits(16)?))
    }
    pub fn u32<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits(self.bits(32)?))
    }
    pub fn u64<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits(self.bits(64)?))
    }
    pub fn u16le<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits((self.bits(16)? as u16).swap_bytes() as u64))
    }
    pub fn u32le<T: Num>(&mut self) -> R<T> {
        Ok(T::from_bits((self.bits(32)? as u32).swap_bytes() as u64))
    }
    /// A number of fewer bits than its type.
    pub fn few<T: Num>(&mut self, n: u32) -> R<T> {
        Ok(T::from_bits(self.bits(n)?))
    }
    /// Reserved bits: ignored, canonically zero.
    pub fn pad(&mut self, n: u32) -> R<()> {
        if self.is_gen() {
            let v = if self.only_canon { 0 } else { self.rng().edgy(n) as u128 };
            self.emit(v, n);
        } else {
            self.take(n)?;
        }
        self.canon.put(0, n);
        Ok(())
    }
    /// One of the defined values.
    pub fn one_of(&mut self, n: u32, allowed: &[u64]) -> R<u64> {
        if self.is_gen() {
            let h = self.hostile;
            let v = if h > 0 && self.rng().chance(h, 1000) {
                self.rng().edgy(n)
            } else {
                *self.rng().pick(allowed)
            };
            self.emit(v as u128, n);
            self.canon.put(v as u128, n);
            if !allowed.contains(&v) {
                return Err(E::Bad("enum"));
            }
            Ok(v)
        } else {
            let v = self.bits(n)?;
            if !allowed.contains(&v) {
                return Err(E::Bad("enum"));
            }
            Ok(v)
        }
    }
    pub fn bytes(&mut self, n: usize) -> R<Vec<u8>> {
        if self.is_gen() {
            let b = match self.rng().below(5) {
                0 => vec![*self.rng().pick(&[0u8, 0xFF, 0x33, 0x62, 0x34]); n],
                1 => {
                    // noise with a few numbers that may mean something
                    let mut b = self.rng().bytes(n);
                    for _ in 0..1 + self.rng().below(3) {
                        let v = self.rng().edgy(32) as u32;
                        let w = 1 + self.rng().below(4) as usize;
                        let at = *self.rng().pick(&[0, n / 2, n.saturating_sub(w)]);
                        if at + w <= n {
                            b[at..at + w].copy_from_slice(&v.to_be_bytes()[4 - w..]);
                        }
                    }
                    b
                }
                _ => self.rng().bytes(n),
            };
            self.raw.put_bytes(&b);
            self.canon.put_bytes(&b);
            self.pos += n * 8;
            Ok(b)
        } else {
            if let Src::Read(b) = &self.src {
                let b: &'a [u8] = b;
                if self.pos + n * 8 > b.len() * 8 {
                    return Err(E::Short);
                }
                if self.pos % 8 == 0 {
                    let v = b[self.pos / 8..self.pos / 8 + n].to_vec();
                    self.canon.put_bytes(&v);
                    self.pos += n * 8;
                    return Ok(v);
                }
            }
            (0..n).map(|_| self.u8()).collect()
        }
    }
    /// `n` bytes, in an array of whatever size the library keeps them in.
    pub fn arr<const N: usize>(&mut self, n: usize) -> R<[u8; N]> {
        let b = self.bytes(n)?;
        let mut a = [0; N];
        for (x, y) in a.iter_mut().zip(b) {
            *x = y;
        }
        Ok(a)
    }
    pub fn paylen(&mut self) -> usize {
        let big = self.big;
        if big == 2 {
            self.big = 0;
        }
        let r = self.rng();
        if big == 2 {
            return (1 << 22) - 4 + r.below(9) as usize;
        }
        if big == 1 && r.chance(2, 3) {
            // around the sizes at which counters of 8 to 16 bits and usual buffers end
            let at = match r.below(20) {
                0..=3 => 256,
                4 | 5 => 512,
                6 | 7 => 1024,
                8 | 9 => 2048,
                10..=12 => 4096,
                13 => 8192,
                14 | 15 => 16384,
                16 => 32768,
                17 | 18 => 65536,
                _ => return 300 + r.below(70_000) as usize,
            };
            return at - 6 + r.below(13) as usize;
        }
        if r.chance(1, 8) {
            // a size the code under test names
            if let Some(v) = r.word(true, 6000) {
                return v as usize;
            }
        }
        match r.below(100) {
            0..=64 => r.below(7) as usize,
            65..=84 => r.below(40) as usize,
            85..=94 => 58 + r.below(12) as usize,
            95..=98 => 248 + r.below(16) as usize,
            _ => r.below(600) as usize,
        }
    }
    /// A length field. `v` is what to generate.
    fn length_as(&mut self, v: u32) -> R<u32> {
        if self.is_gen() {
            let min = if v < 1 << 6 { 0 } else if v < 1 << 14 { 1 } else if v < 1 << 22 { 2 } else { 3 };
            let form = if self.only_canon || self.rng().chance(3, 4) { min } else { min + self.rng().below(4 - min) };
            self.emit(form as u128, 2);
            self.emit(v as u128, 6 + 8 * form as u32);
            self.canon.put_length(v);
            Ok(v)
        } else {
            let form = self.take(2)? as u32;
            let v = self.take(6 + 8 * form)? as u32;
            self.canon.put_length(v);
            Ok(v)
        }
    }
    /// A length field that does not delimit anything.
    pub fn length(&mut self) -> R<u32> {
        let v = if self.is_gen() {
            let r = self.rng();
            let w = *r.pick(&[0u32, 3, 6, 6, 7, 13, 14, 15, 21, 22, 23, 29, 30, 30]);
            r.edgy(w) as u32
        } else {
            0
        };
        self.length_as(v)
    }
    fn payload_length(&mut self) -> R<u32> {
        let v = if self.is_gen() { self.paylen() as u32 } else { 0 };
        self.length_as(v)
    }
    pub fn varint(&mut self) -> R<VarInt> {
        let b = if self.is_gen() {
            let b = self.rng().edgy(8) as u8;
            let b = if self.only_canon { canon_varint(b) } else { b };
            self.emit(b as u128, 8);
            b
        } else {
            self.take(8)? as u8
        };
        self.canon.put(canon_varint(b) as u128, 8);
        Ok(VarInt::new_unchecked(varint_value(b), false))
    }
    /// An operand behind a length field: `gen` draws its content, `interpret` gives it its meaning.
    fn delimited<T>(&mut self, gen: impl FnOnce(&mut S) -> R<()>, interpret: impl FnOnce(&[u8]) -> R<(T, Vec<u8>)>) -> R<T> {
        let data = if self.is_gen() {
            let (canon, hostile, big) = (self.only_canon, self.hostile, self.big);
            let (data, res, big) = {
                let mut sub = S::gen(self.rng());
                sub.only_canon = canon;
                sub.hostile = hostile;
                sub.big = big;
                let res = gen(&mut sub);
                assert!(sub.raw.len % 8 == 0 || res.is_err());
                (sub.raw.bytes, res, sub.big)
            };
            self.big = big;
            self.length_as_raw(data.len() as u32);
            self.raw.put_bytes(&data);
            self.pos += data.len() * 8;
            res?;
            data
        } else {
            let form = self.take(2)? as u32;
            let n = self.take(6 + 8 * form)? as usize;
            match &self.src {
                Src::Read(b) => {
                    let p = self.pos / 8;
                    assert!(self.pos % 8 == 0);
                    if p + n > b.len() {
                        return Err(E::Short);
                    }
                    self.pos += n * 8;
                    b[p..p + n].to_vec()
                }
                _ => unreachable!(),
            }
        };
        let (v, canon) = interpret(&data)?;
        self.canon.put_length(canon.len() as u32);
        self.canon.put_bytes(&canon);
        Ok(v)
    }
    fn length_as_raw(&mut self, v: u32) {
        let keep = self.canon.clone();
        self.length_as(v).unwrap();
        self.canon = keep;
    }
}

pub fn varint_value(b: u8) -> u32 {
    (b & 31) as u32 * (1u32 << (2 * (b >> 5)))
}
/// The canonical byte: the smallest exponent whose mantissa range reaches the value.
pub fn canon_varint(b: u8) -> u8 {
    let v = varint_value(b);
    for e in 0..8u32 {
        if v <= 31 << (2 * e) {
            return (e << 5 | v >> (2 * e)) as u8;
        }
    }
    unreachable!()
}

// ------------------------------------------------------------------------------------------ small parts

pub fn group_condition(s: &mut S) -> R<transport::GroupCondition> {
    use transport::GroupCondition::*;
    Ok(match s.bits(2)? {
        0 => Any,
        1 => NotEqual,
        2 => Equal,
        _ => GreaterThan,
    })
}
pub fn address_type(s: &mut S) -> R<AddressType> {
    Ok(match s.bits(2)? {
        0 => AddressType::NbId,
        1 => AddressType::NoId,
        2 => AddressType::UId,
        _ => AddressType::VId,
    })
}
pub fn nls_method(s: &mut S) -> R<NlsMethod> {
    let v = if cfg!(feature = "wizzilab") { s.bits(3)? } else { s.one_of(4, &[0, 1, 2, 3, 4, 5, 6, 7])? };
    Ok(match v {
        0 => NlsMethod::None,
        1 => NlsMethod::AesCtr,
        2 => NlsMethod::AesCbcMac128,
        3 => NlsMethod::AesCbcMac64,
        4 => NlsMethod::AesCbcMac32,
        5 => NlsMethod::AesCcm128,
        6 => NlsMethod::AesCcm64,
        _ => NlsMethod::AesCcm32,
    })
}
pub fn address(s: &mut S, t: AddressType) -> R<Address> {
    Ok(match t {
        AddressType::NbId => Address::NbId(s.varint()?),
        AddressType::NoId => Address::NoId,
        AddressType::UId => Address::UId(s.u64()?),
        AddressType::VId => Address::VId(s.u16()?),
    })
}
pub fn nls_state(s: &mut S, m: NlsMethod) -> R<NlsState> {
    Ok(match m {
        NlsMethod::None => NlsState::None,
        NlsMethod::AesCtr => NlsState::AesCtr(s.arr(5)?),
        NlsMethod::AesCbcMac128 => NlsState::AesCbcMac128(s.arr(5)?),
        NlsMethod::AesCbcMac64 => NlsState::AesCbcMac64(s.arr(5)?),
        NlsMethod::AesCbcMac32 => NlsState::AesCbcMac32(s.arr(5)?),
        NlsMethod::AesCcm128 => NlsState::AesCcm128(s.arr(5)?),
        NlsMethod::AesCcm64 => NlsState::AesCcm64(s.arr(5)?),
        NlsMethod::AesCcm32 => NlsState::AesCcm32(s.arr(5)?),
    })
}
pub fn access_class(s: &mut S) -> R<AccessClass> {
    Ok(AccessClass { specifier: s.few(4)?, mask: s.few(4)? })
}
#[cfg(not(feature = "wizzilab"))]
pub fn addressee(s: &mut S) -> R<Addressee> {
    s.pad(2)?;
    let t = address_type(s)?;
    let m = nls_method(s)?;
    let ac = access_class(s)?;
    let a = address(s, t)?;
    let n = nls_state(s, m)?;
    Ok(Addressee::new(a, n, ac))
}
#[cfg(feature = "wizzilab")]
pub fn addressee(s: &mut S) -> R<Addressee> {
    let g = group_condition(s)?;
    let t = address_type(s)?;
    let v = s.flag()?;
    let m = nls_method(s)?;
    let ac = access_class(s)?;
    let a = address(s, t)?;
    let n = nls_state(s, m)?;
    Ok(Addressee::new(v, g, a, n, ac))
}
pub fn band(s: &mut S) -> R<ChannelBand> {
    Ok(match s.one_of(3, &[0, 1, 2, 3, 4])? {
        0 => ChannelBand::Rfu0,
        1 => ChannelBand::Rfu1,
        2 => ChannelBand::Band433,
        3 => ChannelBand::Band868,
        _ => ChannelBand::Band915,
    })
}
pub fn channel_header(s: &mut S) -> R<ChannelHeader> {
    s.pad(1)?;
    let b = band(s)?;
    let c = match s.bits(2)? {
        0 => ChannelClass::LoRate,
        1 => ChannelClass::Lora,
        2 => ChannelClass::NormalRate,
        _ => ChannelClass::HiRate,
    };
    let k = match s.bits(2)? {
        0 => ChannelCoding::Pn9,
        1 => ChannelCoding::Rfu,
        2 => ChannelCoding::FecPn9,
        _ => ChannelCoding::Cw,
    };
    Ok(ChannelHeader { channel_band: b, channel_class: c, channel_coding: k })
}
pub fn channel(s: &mut S) -> R<Channel> {
    Ok(Channel { header: channel_header(s)?, index: s.u16()? })
}
pub fn channel_status(s: &mut S) -> R<ChannelStatus> {
    let channel_band = band(s)?;
    let bandwidth = if s.one_of(2, &[0, 1])? == 0 { Bandwidth::KHz200 } else { Bandwidth::KHz25 };
    let index = s.few(11)?;
    Ok(ChannelStatus { identifier: ChannelStatusIdentifier { channel_band, bandwidth, index }, noise_floor: s.u8()? })
}
pub fn sub_band(s: &mut S) -> R<SubBand> {
    Ok(SubBand { channel_index_start: s.u16()?, channel_index_end: s.u16()?, eirp: s.i8()?, clear_channel_assessment: s.u8()?, duty: s.u8()? })
}
pub fn sub_profile(s: &mut S) -> R<SubProfile> {
    Ok(SubProfile { subband_bitmap: s.u8()?, scan_automation_period: s.varint()? })
}
pub fn access_profile(s: &mut S) -> R<link::AccessProfile> {
    let mut a = link::AccessProfile { channel_header: channel_header(s)?, ..Default::default() };
    let profiles = (0..4).map(|_| sub_profile(s)).collect::<R<Vec<_>>>()?;
    let bands = (0..8).map(|_| sub_band(s)).collect::<R<Vec<_>>>()?;
    for (x, y) in a.sub_profiles.iter_mut().zip(profiles) {
        *x = y;
    }
    for (x, y) in a.sub_bands.iter_mut().zip(bands) {
        *x = y;
    }
    Ok(a)
}
pub fn qos(s: &mut S) -> R<QoS> {
    let stop_on_error = s.flag()?;
    let record = s.flag()?;
    let retry_mode = match s.bits(3)? {
        0 => RetryMode::No,
        1 => RetryMode::OneshotRetry,
        2 => RetryMode::FifoFast,
        3 => RetryMode::FifoSlow,
        4 => RetryMode::SingleFast,
        5 => RetryMode::SingleSlow,
        6 => RetryMode::OneshotSticky,
        _ => RetryMode::Rfu,
    };
    let response_mode = match s.one_of(3, &[0, 1, 2, 4, 5, 6])? {
        0 => ResponseMode::No,
        1 => ResponseMode::All,
        2 => ResponseMode::Any,
        4 => ResponseMode::NoRepeat,
        5 => ResponseMode::OnError,
        _ => ResponseMode::Preferred,
    };
    Ok(QoS { stop_on_error, record, retry_mode, response_mode })
}
pub fn dash7_configuration(s: &mut S) -> R<Dash7InterfaceConfiguration> {
    Ok(Dash7InterfaceConfiguration {
        qos: qos(s)?,
        dormant_session_timeout: s.varint()?,
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: s.varint()?,
        addressee: addressee(s)?,
    })
}
pub fn lorawan_base(s: &mut S) -> R<LoRaWANInterfaceConfiguration> {
    s.pad(5)?;
    let adr_enabled = s.flag()?;
    let request_ack = s.flag()?;
    s.pad(1)?;
    Ok(LoRaWANInterfaceConfiguration { adr_enabled, request_ack, application_port: s.u8()?, data_rate: s.u8()? })
}
pub fn lorawan_abp(s: &mut S) -> R<LoRaWANABPInterfaceConfiguration> {
    Ok(LoRaWANABPInterfaceConfiguration {
        base: lorawan_base(s)?,
        network_session_key: s.bytes(16)?,
        app_session_key: s.bytes(16)?,
        device_address: s.u32le()?,
        network_id: s.u32le()?,
    })
}
pub fn lorawan_otaa(s: &mut S) -> R<LoRaWANOTAAInterfaceConfiguration> {
    Ok(LoRaWANOTAAInterfaceConfiguration { base: lorawan_base(s)?, device_eui: s.bytes(8)?, app_eui: s.bytes(8)?, app_key: s.bytes(16)? })
}
fn interface_id(s: &mut S) -> R<u8> {
    if s.is_gen() {
        let r = s.rng();
        let v = if r.chance(5, 6) { *r.pick(&[0u8, 1, 2, 3, 0xD7, 0xD7, 0xD7]) } else { r.byte() };
        Ok(s.bits_as(8, v as u64)? as u8)
    } else {
        s.u8()
    }
}
pub fn interface_configuration(s: &mut S) -> R<InterfaceConfiguration> {
    Ok(match interface_id(s)? {
        0 => InterfaceConfiguration::Host,
        1 => InterfaceConfiguration::Serial,
        2 => InterfaceConfiguration::LoRaWanABP(lorawan_abp(s)?),
        3 => InterfaceConfiguration::LoRaWanOTAA(lorawan_otaa(s)?),
        0xD7 => InterfaceConfiguration::Dash7(dash7_configuration(s)?),
        n => InterfaceConfiguration::Unknown(n.into()),
    })
}
pub fn indirect_interface(s: &mut S) -> R<IndirectInterface> {
    Ok(match interface_id(s)? {
        0 => IndirectInterface::Host,
        1 => IndirectInterface::Serial,
        0xD7 => IndirectInterface::Dash7(addressee(s)?),
        n => IndirectInterface::Unknown(n.into()),
    })
}
pub fn dash7_status(s: &mut S) -> R<Dash7InterfaceStatus> {
    let channel = channel(s)?;
    let (rx_level, link_budget, target_rx_level) = (s.u8()?, s.u8()?, s.u8()?);
    let (nls, missed, retry, unicast) = (s.flag()?, s.flag()?, s.flag()?, s.flag()?);
    s.pad(4)?;
    Ok(Dash7InterfaceStatus {
        channel,
        rx_level,
        link_budget,
        target_rx_level,
        nls,
        missed,
        retry,
        unicast,
        fifo_token: s.u8()?,
        sequence_number: s.u8()?,
        response_timeout: s.varint()?,
        addressee: addressee(s)?,
    })
}
pub fn file_offset(s: &mut S) -> R<FileOffset> {
    Ok(FileOffset { file_id: s.u8()?, offset: s.length()?.into() })
}
pub fn action_header(s: &mut S) -> R<ActionHeader> {
    Ok(ActionHeader { group: s.flag()?, response: s.flag()? })
}
pub fn file_permissions(s: &mut S) -> R<data::FilePermissions> {
    fn user(s: &mut S) -> R<data::UserPermissions> {
        Ok(data::UserPermissions { read: s.flag()?, write: s.flag()?, executable: s.flag()? })
    }
    Ok(data::FilePermissions { encrypted: s.flag()?, executable: s.flag()?, user: user(s)?, guest: user(s)? })
}
pub fn file_properties(s: &mut S) -> R<data::FileProperties> {
    let enabled = s.flag()?;
    let condition = match s.one_of(3, &[0, 1, 2, 3])? {
        0 => data::ActionCondition::List,
        1 => data::ActionCondition::Read,
        2 => data::ActionCondition::Write,
        _ => data::ActionCondition::WriteFlush,
    };
    s.pad(2)?;
    let storage_class = match s.bits(2)? {
        0 => data::StorageClass::Transient,
        1 => data::StorageClass::Volatile,
        2 => data::StorageClass::Restorable,
        _ => data::StorageClass::Permanent,
    };
    Ok(data::FileProperties { enabled, condition, storage_class })
}
pub fn file_header(s: &mut S) -> R<data::FileHeader> {
    Ok(data::FileHeader {
        permissions: file_permissions(s)?,
        properties: file_properties(s)?,
        alp_command_file_id: s.u8()?,
        interface_file_id: s.u8()?,
        file_size: s.u32()?,
        allocated_size: s.u32()?,
    })
}
pub fn permission(s: &mut S) -> R<Permission> {
    s.one_of(8, &[0x42])?;
    Ok(Permission::Dash7(s.arr(8)?))
}
pub fn permission_level(s: &mut S) -> R<PermissionLevel> {
    Ok(if s.one_of(8, &[0, 1])? == 0 { PermissionLevel::User } else { PermissionLevel::Root })
}
pub fn action_status(s: &mut S) -> R<ActionStatus> {
    Ok(ActionStatus { action_id: s.u8()?, status: StatusCode(s.u8()?) })
}

// ------------------------------------------------------------------------------------------ queries

fn arithmetic(s: &mut S) -> R<ArithmeticQueryParams> {
    use ArithmeticComparisonType::*;
    let signed = s.flag()?;
    let comparison_type = match s.one_of(3, &[0, 1, 2, 3, 4, 5])? {
        0 => Inequal,
        1 => Equal,
        2 => LessThan,
        3 => LessThanOrEqual,
        4 => GreaterThan,
        _ => GreaterThanOrEqual,
    };
    Ok(ArithmeticQueryParams { signed, comparison_type })
}
fn range(s: &mut S) -> R<RangeQueryParams> {
    let signed = s.flag()?;
    let comparison_type = if s.one_of(3, &[0, 1])? == 0 { RangeComparisonType::NotInRange } else { RangeComparisonType::InRange };
    Ok(RangeQueryParams { signed, comparison_type })
}
/// Some legal queries have no constructor (a mask of length zero that is flagged as present, a comparison
/// of some length without a mask): take the private fields from a minimal decoded query, everything public
/// is then overwritten.
fn template(first: u8, length: u32, tail: &[u8]) -> Option<Query> {
    let mut b = Bits::default();
    b.put(first as u128, 8);
    b.put_length(length);
    b.put_bytes(tail);
    std::panic::catch_unwind(|| Query::try_from(b.bytes.as_slice()).ok()).ok().flatten()
}
/// Can this query be built with its constructor alone?
pub fn query(s: &mut S) -> R<Query> {
    let id = s.one_of(3, &[0, 1, 2, 3, 4, 7])?;
    if id == 0 {
        s.pad(5)?;
        return Ok(Query::NonVoid(NonVoid { length: s.length()?.into(), file: file_offset(s)? }));
    }
    let mask_present = s.flag()?;
    Ok(match id {
        1 => {
            let params = arithmetic(s)?;
            let length = if mask_present { s.payload_length()? } else { s.length()? };
            let mask = if mask_present { s.bytes(length as usize)? } else { vec![] };
            let file = file_offset(s)?;
            let natural = ComparisonWithZero::new(params.clone(), mask.clone(), file.clone());
            if mask_present == (length > 0) && length as usize == mask.len() {
                Query::ComparisonWithZero(natural)
            } else {
                match template(if mask_present { 0x30 } else { 0x20 }, length, &[0, 0]) {
                    Some(Query::ComparisonWithZero(mut q)) => {
                        q.params = params;
                        q.mask = mask;
                        q.file = file;
                        Query::ComparisonWithZero(q)
                    }
                    _ => Query::ComparisonWithZero(natural),
                }
            }
        }
        2 => {
            let params = arithmetic(s)?;
            let length = s.payload_length()?;
            let mask = if mask_present { s.bytes(length as usize)? } else { vec![] };
            let value = s.bytes(length as usize)?;
            let file = file_offset(s)?;
            let natural = ComparisonWithValue::new(params.clone(), mask.clone(), value.clone(), file.clone());
            if mask_present && length == 0 {
                match template(0x50, 0, &[0, 0]) {
                    Some(Query::ComparisonWithValue(mut q)) => {
                        q.params = params;
                        q.mask = mask;
                        q.value = value;
                        q.file = file;
                        Query::ComparisonWithValue(q)
                    }
                    _ => Query::ComparisonWithValue(natural),
                }
            } else {
                Query::ComparisonWithValue(natural)
            }
        }
        3 => {
            let params = arithmetic(s)?;
            let length = if mask_present { s.payload_length()? } else { s.length()? };
            let mask = if mask_present { s.bytes(length as usize)? } else { vec![] };
            let file1 = file_offset(s)?;
            let file2 = file_offset(s)?;
            let mut q = ComparisonWithOtherFile::new(params.clone(), mask.clone(), file1.clone(), file2.clone());
            if mask_present && length == 0 {
                if let Some(Query::ComparisonWithOtherFile(t)) = template(0x70, 0, &[0, 0, 0, 0]) {
                    q = t;
                    q.params = params;
                    q.mask = mask;
                    q.file1 = file1;
                    q.file2 = file2;
                }
            }
            q.length = length.into();
            Query::ComparisonWithOtherFile(q)
        }
        4 => {
            let params = range(s)?;
            let length = if s.is_gen() && s.only_canon && !mask_present {
                // keep generated values mostly constructible
                if s.rng().chance(3, 4) { s.length_as(0)? } else { s.payload_length()? }
            } else {
                s.payload_length()?
            };
            let start = s.length()?;
            let stop = s.length()?;
            let mask = s.bytes(length as usize)?;
            let file = file_offset(s)?;
            let natural = BitmapRangeComparison::new(params.clone(), start, stop, mask.clone(), file.clone());
            if mask_present == (length > 0) {
                Query::BitmapRangeComparison(natural)
            } else {
                match template(if mask_present { 0x90 } else { 0x80 }, 0, &[0, 0, 0, 0]) {
                    Some(Query::BitmapRangeComparison(mut q)) => {
                        q.params = params;
                        q.length = length.into();
                        q.start = start.into();
                        q.stop = stop.into();
                        q.mask = mask;
                        q.file = file;
                        Query::BitmapRangeComparison(q)
                    }
                    _ => Query::BitmapRangeComparison(natural),
                }
            }
        }
        _ => {
            s.pad(1)?;
            let max_errors = s.few(3)?;
            let length = s.payload_length()?;
            let mask = if mask_present { s.bytes(length as usize)? } else { vec![] };
            let value = s.bytes(length as usize)?;
            let file = file_offset(s)?;
            let mut q = StringTokenSearch::new(max_errors, mask.clone(), value.clone(), file.clone());
            if mask_present && length == 0 {
                if let Some(Query::StringTokenSearch(t)) = template(0xF0, 0, &[0, 0]) {
                    q = t;
                    q.max_errors = max_errors;
                    q.mask = mask;
                    q.value = value;
                    q.file = file;
                }
            }
            Query::StringTokenSearch(q)
        }
    })
}

// ------------------------------------------------------------------------------------------ files

/// File ids with a structure of their own.
pub const TYPED: [u8; 24] = [
    0x00, 0x01, 0x02, 0x05, 0x06, 0x09, 0x0A, 0x0B, 0x0E, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E,
];
/// Size of the file's structure, `None` without one. The physical status has a variable part of 3 bytes per entry.
pub fn file_size(id: u8, data: &[u8]) -> Option<usize> {
    Some(match id {
        0x00 => 8,
        0x01 => 1 + 9 * 4 + 11 + 4 + 1 + 1 + 2,
        0x02 => 15,
        0x05 => 7,
        0x06 => 2,
        0x09 => 15 + 3 * data.get(14).copied().unwrap_or(0) as usize,
        0x0A => 7,
        0x0B => 16,
        0x0E => 16,
        0x20..=0x2E => 65,
        _ => return None,
    })
}
fn text<const N: usize>(s: &mut S) -> R<String> {
    if s.is_gen() {
        let r = s.rng();
        let mut t: Vec<u8> = match r.below(4) {
            0 => (0..N).map(|_| b'a' + r.below(26) as u8).collect(),
            1 => "é√\u{1F600}é".bytes().collect(),
            2 => vec![0; N],
            _ => (0..N).map(|_| r.below(0x80) as u8).collect(),
        };
        t.resize(N, 0);
        let hostile = s.hostile > 0 && s.rng().chance(1, 8);
        if hostile {
            let i = s.rng().below(N as u64) as usize;
            t[i] = s.rng().byte() | 0x80;
        } else if std::str::from_utf8(&t).is_err() {
            t = vec![b'x'; N];
        }
        for b in &t {
            s.bits_as(8, *b as u64)?;
        }
        String::from_utf8(t).map_err(|_| E::Bad("utf8"))
    } else {
        let b = s.bytes(N)?;
        String::from_utf8(b).map_err(|_| E::Bad("utf8"))
    }
}
pub fn factory_settings(s: &mut S) -> R<file::FactorySettings> {
    Ok(file::FactorySettings {
        gain: s.i8()?,
        rx_bw_low_rate: s.u32()?,
        rx_bw_normal_rate: s.u32()?,
        rx_bw_high_rate: s.u32()?,
        bitrate_lo_rate: s.u32()?,
        fdev_lo_rate: s.u32()?,
        bitrate_normal_rate: s.u32()?,
        fdev_normal_rate: s.u32()?,
        bitrate_hi_rate: s.u32()?,
        fdev_hi_rate: s.u32()?,
        preamble_size_lo_rate: s.u8()?,
        preamble_size_normal_rate: s.u8()?,
        preamble_size_hi_rate: s.u8()?,
        preamble_detector_size_lo_rate: s.u8()?,
        preamble_detector_size_normal_rate: s.u8()?,
        preamble_detector_size_hi_rate: s.u8()?,
        preamble_tol_lo_rate: s.u8()?,
        preamble_tol_normal_rate: s.u8()?,
        preamble_tol_hi_rate: s.u8()?,
        rssi_smoothing: s.u8()?,
        rssi_offset: s.u8()?,
        lora_bw: s.u32()?,
        lora_sf: s.u8()?,
        gaussian: s.u8()?,
        paramp: s.u16()?,
    })
}
pub fn firmware_version(s: &mut S) -> R<file::FirmwareVersion> {
    Ok(file::FirmwareVersion { major: s.u8()?, minor: s.u8()?, application_name: text::<6>(s)?, git_sha1: text::<7>(s)? })
}
pub fn engineering_mode(s: &mut S) -> R<file::EngineeringMode> {
    use file::EngineeringModeMethod::*;
    let mode = match s.one_of(8, &[0, 1, 2, 3, 4])? {
        0 => Off,
        1 => ContTx,
        2 => TransientTx,
        3 => PerRx,
        _ => PerTx,
    };
    Ok(file::EngineeringMode { mode, flags: s.u8()?, timeout: s.u8()?, channel: channel(s)?, eirp: s.i8()? })
}
pub fn phy_status(s: &mut S) -> R<file::PhyStatus> {
    let (up, rx, tx, duty) = (s.u32()?, s.u32()?, s.u32()?, s.u16()?);
    let n = if s.is_gen() {
        let r = s.rng();
        let n = match r.below(20) {
            0 => 255,
            1 => 254,
            2 => r.below(256),
            _ => r.below(6),
        };
        s.bits_as(8, n)?
    } else {
        s.bits(8)?
    };
    let mut list = vec![];
    for _ in 0..n {
        list.push(channel_status(s)?);
    }
    Ok(file::PhyStatus::new(up, rx, tx, duty, list))
}
pub fn dll_config(s: &mut S) -> R<file::DllConfig> {
    let ac = s.u8()?;
    s.pad(16)?;
    Ok(file::DllConfig { ac, lq_filter: s.u8()?, nf_ctrl: s.u8()?, rx_nf_method_parameter: s.u8()?, tx_nf_method_parameter: s.u8()? })
}
pub fn dll_status(s: &mut S) -> R<file::DllStatus> {
    Ok(file::DllStatus {
        last_rx_packet_level: s.u8()?,
        last_rx_packet_link_budget: s.u8()?,
        noise_floor: s.u8()?,
        channel_header: channel_header(s)?,
        channel_index: s.u16()?,
        scan_timeout_ratio: s.u16()?,
        scan_count: s.u32()?,
        scan_timeout_count: s.u32()?,
    })
}
pub fn security_key(s: &mut S) -> R<file::SecurityKey> {
    Ok(file::SecurityKey { key: u128::from_le_bytes(s.arr(16)?) as _ })
}
/// The structure behind a file id (`Other` of `length` bytes without one).
pub fn file_body(s: &mut S, id: u8, length: usize) -> R<File> {
    macro_rules! ap {
        ($v:ident) => {
            File::$v(file::AccessProfile { profile: access_profile(s)? })
        };
    }
    Ok(match id {
        0x00 => File::UId(Address::UId(s.u64()?)),
        0x01 => File::FactorySettings(factory_settings(s)?),
        0x02 => File::FirmwareVersion(firmware_version(s)?),
        0x05 => File::EngineeringMode(engineering_mode(s)?),
        0x06 => File::VId(Address::VId(s.u16()?)),
        0x09 => File::PhyStatus(phy_status(s)?),
        0x0A => File::DllConfig(dll_config(s)?),
        0x0B => File::DllStatus(dll_status(s)?),
        0x0E => File::NwlSecurityKey(security_key(s)?),
        0x20 => ap!(AccessProfile00),
        0x21 => ap!(AccessProfile01),
        0x22 => ap!(AccessProfile02),
        0x23 => ap!(AccessProfile03),
        0x24 => ap!(AccessProfile04),
        0x25 => ap!(AccessProfile05),
        0x26 => ap!(AccessProfile06),
        0x27 => ap!(AccessProfile07),
        0x28 => ap!(AccessProfile08),
        0x29 => ap!(AccessProfile09),
        0x2A => ap!(AccessProfile10),
        0x2B => ap!(AccessProfile11),
        0x2C => ap!(AccessProfile12),
        0x2D => ap!(AccessProfile13),
        0x2E => ap!(AccessProfile14),
        _ => File::Other(s.bytes(length)?),
    })
}
/// What a file data operand of these bytes means, and its canonical bytes.
pub fn interpret_file(id: u8, data: &[u8]) -> R<(File, Vec<u8>)> {
    let mut r = S::read(data);
    match file_body(&mut r, id, data.len()) {
        Ok(f) if r.at_end() => Ok((f, r.canon.bytes)),
        Ok(_) | Err(E::Short) => Ok((File::Other(data.to_vec()), data.to_vec())),
        Err(e) => {
            if data.len() < file_size(id, data).unwrap_or(0) {
                Err(E::Ambig)
            } else {
                Err(e)
            }
        }
    }
}
fn gen_file_data(s: &mut S, id: u8) -> R<()> {
    let typed = TYPED.contains(&id);
    if typed && s.rng().chance(3, 4) {
        file_body(s, id, 0)?;
        if !s.only_canon && s.rng().chance(1, 6) {
            let n = 1 + s.rng().below(9) as usize;
            s.bytes(n)?;
        }
    } else {
        let n = s.paylen();
        let b = if typed && s.only_canon {
            // data that cannot be mistaken for the file: keep the enumerations valid
            vec![0; n]
        } else {
            s.rng().bytes(n)
        };
        s.raw.put_bytes(&b);
        s.canon.put_bytes(&b);
        s.pos += 8 * b.len();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ statuses

fn exactly<T>(data: &[u8], f: impl FnOnce(&mut S) -> R<T>) -> R<(T, Vec<u8>)> {
    let mut r = S::read(data);
    match f(&mut r) {
        Ok(v) if r.at_end() => Ok((v, r.canon.bytes)),
        Ok(_) => Err(E::Bad("length mismatch")),
        Err(E::Short) => Err(E::Bad("length mismatch")),
        Err(e) => Err(e),
    }
}
pub fn interface_status_operation(s: &mut S) -> R<InterfaceStatusOperation> {
    let pos = s.canon.len / 8;
    let id = interface_id(s)?;
    let ty = match id {
        0 => InterfaceType::Host,
        1 => InterfaceType::Serial,
        2 => InterfaceType::LoRaWanABP,
        3 => InterfaceType::LoRaWanOTAA,
        0xD7 => InterfaceType::Dash7,
        _ => InterfaceType::Unknown,
    };
    if ty == InterfaceType::Unknown {
        s.holes.push(pos);
    }
    let status = s.delimited(
        |s| match id {
            0 | 1 => {
                if s.hostile > 0 && s.rng().chance(1, 4) {
                    let n = s.paylen();
                    s.bytes(n)?;
                }
                Ok(())
            }
            0xD7 => {
                dash7_status(s)?;
                if s.hostile > 0 && s.rng().chance(1, 8) {
                    let n = s.paylen();
                    s.bytes(n)?;
                }
                Ok(())
            }
            _ => {
                let n = s.paylen();
                s.bytes(n).map(|_| ())
            }
        },
        |data| match id {
            0 => exactly(data, |_| Ok(InterfaceStatus::Host)),
            1 => exactly(data, |_| Ok(InterfaceStatus::Serial)),
            2 | 3 => Err(E::Bad("no status for LoRaWAN")),
            0xD7 => exactly(data, |s| Ok(InterfaceStatus::Dash7(dash7_status(s)?))),
            _ => Ok((InterfaceStatus::Other(data.to_vec()), data.to_vec())),
        },
    )?;
    Ok(InterfaceStatusOperation { interface_type: ty, status })
}

#[cfg(feature = "wizzilab")]
pub const FINAL_CODES: [u64; 23] = [
    0, 0xFF, 0xFE, 0xFD, 0xFC, 0xFB, 0xFA, 0xF9, 0xF8, 0xF7, 0xF6, 0xF5, 0xF4, 0xF3, 0xF2, 0xF1, 0xF0, 0xEF, 0xEE, 0xED, 0xEC, 0xEB, 0xEA,
];
#[cfg(feature = "wizzilab")]
pub fn final_code(s: &mut S) -> R<InterfaceFinalStatusCode> {
    use InterfaceFinalStatusCode::*;
    Ok(match s.one_of(8, &FINAL_CODES)? {
        0 => No,
        0xFF => Busy,
        0xFE => BadParam,
        0xFD => DutyCycle,
        0xFC => CcaTo,
        0xFB => NlsKey,
        0xFA => TxUdf,
        0xF9 => RxOvf,
        0xF8 => RxCrc,
        0xF7 => Abort,
        0xF6 => NoAck,
        0xF5 => RxTo,
        0xF4 => NotSupportedBand,
        0xF3 => NotSupportedChannel,
        0xF2 => NotSupportedModulation,
        0xF1 => VoidChannelList,
        0xF0 => NotSupportedLen,
        0xEF => ParamOvf,
        0xEE => VidWoNls,
        0xED => TxSched,
        0xEC => RxSched,
        0xEB => BufferOvf,
        _ => NotSupportedMode,
    })
}
#[cfg(feature = "wizzilab")]
pub fn final_status_operation(s: &mut S) -> R<InterfaceFinalStatusOperation> {
    let id = interface_id(s)?;
    let status = s.delimited(
        |s| {
            if id == 0xD7 {
                final_code(s)?;
                if s.hostile == 0 || s.rng().chance(7, 8) {
                    return Ok(());
                }
            }
            let n = s.paylen();
            s.bytes(n).map(|_| ())
        },
        |data| match id {
            0xD7 => exactly(data, |s| Ok(InterfaceFinalStatus::Dash7(final_code(s)?))),
            _ => Ok((InterfaceFinalStatus::Other(data.to_vec()), data.to_vec())),
        },
    )?;
    Ok(InterfaceFinalStatusOperation { interface_id: id, status })
}
#[cfg(feature = "wizzilab")]
fn tx_template() -> Option<TxStatusOperation> {
    // TX status action of a DASH7 interface: channel, level, error, reserved, time, addressee (no id, no security)
    let b = [0x66, 0xD7, 0x0E, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10, 0];
    let r = std::panic::catch_unwind(|| Action::try_from(&b[..]).ok()).ok().flatten();
    match r {
        Some(Action::TxStatus(t)) => Some(t),
        _ => None,
    }
}
#[cfg(feature = "wizzilab")]
fn dash7_tx_status(s: &mut S) -> R<InterfaceTxStatus> {
    let channel = channel(s)?;
    let level = s.i8()?;
    let error = final_code(s)?;
    s.pad(24)?;
    let lts = s.u32le()?;
    let addressee = addressee(s)?;
    let Some(TxStatusOperation { status: TxStatus::Interface(InterfaceTxStatusOperation { status: InterfaceTxStatus::Dash7(mut d), .. }), .. }) = tx_template() else {
        // the library does not even read the template: give it something it will not agree with
        return Ok(InterfaceTxStatus::Other(vec![0xEE; 3]));
    };
    d.channel = channel;
    d.target_rx_level = level;
    d.error = error;
    d.lts = lts;
    d.addressee = addressee;
    Ok(InterfaceTxStatus::Dash7(d))
}
#[cfg(feature = "wizzilab")]
pub fn tx_status_operation(s: &mut S) -> R<InterfaceTxStatusOperation> {
    let id = interface_id(s)?;
    let status = s.delimited(
        |s| {
            if id == 0xD7 {
                dash7_tx_status(s)?;
                if s.hostile == 0 || s.rng().chance(7, 8) {
                    return Ok(());
                }
            }
            let n = s.paylen();
            s.bytes(n).map(|_| ())
        },
        |data| match id {
            0xD7 => exactly(data, dash7_tx_status),
            _ => Ok((InterfaceTxStatus::Other(data.to_vec()), data.to_vec())),
        },
    )?;
    Ok(InterfaceTxStatusOperation { interface_id: id, status })
}

// ------------------------------------------------------------------------------------------ actions

pub fn opcodes() -> Vec<u8> {
    let mut v = vec![0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 16, 17, 18, 19, 20, 23, 31, 32, 33, 34, 35, 48, 49, 50, 51, 52, 63];
    if cfg!(feature = "wizzilab") {
        v.push(38);
    }
    v
}

/// Draw or read an action. `op` fixes the operation code to generate.
pub fn action(s: &mut S, op: Option<u8>) -> R<Action> {
    let code = if s.is_gen() {
        match op {
            Some(c) => c,
            None => *s.rng().pick(&opcodes()),
        }
    } else {
        // the code is behind the two header bits of the same byte
        let c = s.take(8)? as u8 & 0x3F;
        s.pos -= 8;
        c
    };
    if !opcodes().contains(&code) {
        if s.is_gen() {
            s.bits(2)?;
            s.bits_as(6, code as u64)?;
        }
        return Err(E::Bad("opcode"));
    }
    let opcode = OpCode(code);
    macro_rules! code {
        () => {
            s.bits_as(6, code as u64)?
        };
    }
    Ok(match code {
        0 | 63 => {
            let header = action_header(s)?;
            code!();
            if code == 0 {
                Action::Nop(Nop { header, opcode })
            } else {
                Action::Extension(Extension { header, opcode })
            }
        }
        1 => {
            let header = action_header(s)?;
            code!();
            Action::ReadFileData(ReadFileData { header, opcode, offset: file_offset(s)?, length: s.length()?.into() })
        }
        2 | 16 | 18 | 19 | 20 | 31 => {
            let header = action_header(s)?;
            code!();
            let f = FileId { header, opcode, file_id: s.u8()? };
            match code {
                2 => Action::ReadFileProperties(f),
                16 => Action::ExistFile(f),
                18 => Action::DeleteFile(f),
                19 => Action::RestoreFile(f),
                20 => Action::FlushFile(f),
                _ => Action::ExecuteFile(f),
            }
        }
        4 | 5 | 32 => {
            let header = action_header(s)?;
            code!();
            let file_id = if s.is_gen() {
                let r = s.rng();
                let v = if r.chance(2, 3) { *r.pick(&TYPED) } else { r.byte() };
                s.bits_as(8, v as u64)? as u8
            } else {
                s.u8()?
            };
            let offset = FileOffset { file_id, offset: s.length()?.into() };
            let data = s.delimited(|s| gen_file_data(s, file_id), |data| interpret_file(file_id, data))?;
            let f = FileData::new(header, offset, data, opcode);
            match code {
                4 => Action::WriteFileData(f),
                5 => Action::WriteFileDataFlush(f),
                _ => Action::ReturnFileData(f),
            }
        }
        6 | 17 | 33 => {
            let header = action_header(s)?;
            code!();
            let f = FileProperties { header, opcode, file_id: s.u8()?, file_header: file_header(s)? };
            match code {
                6 => Action::WriteFileProperties(f),
                17 => Action::CreateNewFile(f),
                _ => Action::ReturnFileProperties(f),
            }
        }
        8 | 9 | 11 => {
            let header = action_header(s)?;
            code!();
            let q = ActionQuery { header, opcode, query: query(s)? };
            match code {
                8 => Action::ActionQuery(q),
                9 => Action::BreakQuery(q),
                _ => Action::VerifyChecksum(q),
            }
        }
        10 => {
            let header = action_header(s)?;
            code!();
            Action::PermissionRequest(PermissionRequest { header, opcode, level: permission_level(s)?, permission: permission(s)? })
        }
        23 => {
            let header = action_header(s)?;
            code!();
            Action::CopyFile(CopyFile { header, opcode, src_file_id: s.u8()?, dst_file_id: s.u8()? })
        }
        34 => {
            let allowed: &[u64] = if cfg!(feature = "wizzilab") { &[0, 1, 2] } else { &[0, 1] };
            let t = if s.is_gen() && s.hostile == 0 { *s.rng().pick(allowed) } else { 0 };
            let t = if s.is_gen() {
                if s.hostile > 0 { s.one_of(2, allowed)? } else { s.bits_as(2, t)? }
            } else {
                s.one_of(2, allowed)?
            };
            code!();
            match t {
                0 => Action::Status(StatusOperand { status_type: StatusType::Action, opcode, status: Status::Action(action_status(s)?) }),
                1 => Action::Status(StatusOperand { status_type: StatusType::Interface, opcode, status: Status::Interface(interface_status_operation(s)?) }),
                #[cfg(feature = "wizzilab")]
                _ => Action::Status(StatusOperand { status_type: StatusType::InterfaceFinal, opcode, status: Status::InterfaceFinal(final_status_operation(s)?) }),
                #[cfg(not(feature = "wizzilab"))]
                _ => unreachable!(),
            }
        }
        35 => {
            let header = ResponseTagHeader { end_of_packet: s.flag()?, error: s.flag()? };
            code!();
            Action::ResponseTag(ResponseTag { header, opcode, id: s.u8()? })
        }
        #[cfg(feature = "wizzilab")]
        38 => {
            s.one_of(2, &[1])?;
            code!();
            let op = tx_status_operation(s)?;
            match tx_template() {
                Some(mut t) => {
                    t.status = TxStatus::Interface(op);
                    Action::TxStatus(t)
                }
                None => Action::Nop(Nop::default()),
            }
        }
        48 => {
            let step = match s.bits(2)? {
                0 => ChunkStep::Continue,
                1 => ChunkStep::Start,
                2 => ChunkStep::End,
                _ => ChunkStep::StartEnd,
            };
            code!();
            Action::Chunk(Chunk { step, opcode })
        }
        49 => {
            let logic = match s.bits(2)? {
                0 => LogicOp::Or,
                1 => LogicOp::Xor,
                2 => LogicOp::Nor,
                _ => LogicOp::Nand,
            };
            code!();
            Action::Logic(Logic { logic, opcode })
        }
        50 => {
            s.pad(1)?;
            let header = ForwardHeader { response: s.flag()? };
            code!();
            Action::Forward(Forward { header, opcode, configuration: interface_configuration(s)? })
        }
        51 => {
            let header = IndirectForwardHeader { overloaded: s.flag()?, response: s.flag()? };
            code!();
            let configuration = if header.overloaded { Some(indirect_interface(s)?) } else { None };
            Action::IndirectForward(IndirectForward { header, opcode, configuration })
        }
        52 => {
            let header = RequestTagHeader { end_of_packet: s.flag()? };
            s.pad(1)?;
            code!();
            Action::RequestTag(RequestTag { header, opcode, id: s.u8()? })
        }
        _ => return Err(E::Bad("opcode")),
    })
}

pub fn is_indirect(a: Option<&Action>) -> bool {
    matches!(a, Some(Action::IndirectForward(_)))
}

/// Read a command: until the end of the input, an indirect forward, or (with a nonzero length) until that
/// many bytes since the start have been used.
pub fn command(s: &mut S, length: u32) -> R<Command> {
    let mut actions: Vec<Action> = vec![];
    if s.is_gen() {
        let long = s.big == 1 && s.rng().chance(1, 2);
        if long {
            s.big = 0;
        }
        let n = match s.rng().below(12) {
            _ if long => {
                let at = match s.rng().below(16) {
                    0..=5 => 256,
                    6..=8 => 512,
                    9..=12 => 1024,
                    13 | 14 => 300 + s.rng().below(1500),
                    _ => 4096,
                };
                at - 3 + s.rng().below(7)
            }
            0 => 0,
            1..=4 => 1,
            5..=9 => 2 + s.rng().below(3),
            _ if s.rng().chance(1, 10) => s.rng().word(true, 600).unwrap_or(12),
            _ => 2 + s.rng().below(9),
        };
        let mut last: Option<(usize, usize)> = None;
        for _ in 0..n {
            // the same action again
            if let (Some((a, c)), true) = (last, s.rng().chance(1, 12)) {
                let (raw, canon) = (s.raw.bytes[a..].to_vec(), s.canon.bytes[c..].to_vec());
                last = Some((s.raw.bytes.len(), s.canon.bytes.len()));
                s.raw.put_bytes(&raw);
                s.canon.put_bytes(&canon);
                s.pos += raw.len() * 8;
                actions.push(actions.last().unwrap().clone());
                continue;
            }
            let holes = s.holes.len();
            let at = (s.raw.bytes.len(), s.canon.bytes.len());
            let mut op = None;
            // an indirect forward ends the command: keep it rare
            if long || s.rng().chance(19, 20) {
                loop {
                    op = Some(*s.rng().pick(&opcodes()));
                    if op != Some(51) {
                        break;
                    }
                }
            }
            actions.push(action(s, op)?);
            if is_indirect(actions.last()) {
                break;
            }
            last = (s.holes.len() == holes).then_some(at);
        }
    } else {
        while (length == 0 || ((s.pos + s.base) / 8) < length as usize) && !s.at_end() && !is_indirect(actions.last()) {
            actions.push(action(s, None)?);
        }
    }
    Ok(Command { actions })
}

// ------------------------------------------------------------------------------------------ frames

/// Debug output without field names, so that only values and their order count.
pub fn norm(dbg: &str) -> String {
    let b: Vec<char> = dbg.chars().collect();
    let mut out = String::with_capacity(dbg.len());
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            out.push(c);
            if c == '\\' && i + 1 < b.len() {
                out.push(b[i + 1]);
                i += 1;
            } else if c == '"' {
                in_str = false;
            }
            i += 1;
            continue;
        }
        if c == '"' {
            in_str = true;
            out.push(c);
            i += 1;
            continue;
        }
        if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            if i + 1 < b.len() && b[i] == ':' && b[i + 1] == ' ' {
                i += 2;
            } else {
                out.extend(&b[st..i]);
            }
            continue;
        }
        out.push(c);
        i += 1;
    }
    out
}

pub fn transport_control(s: &mut S) -> R<transport::Control> {
    let c = transport::Control {
        is_dialog_start: s.flag()?,
        has_listen_timeout: s.flag()?,
        has_execution_delay_timeout: s.flag()?,
        is_ack_requested: s.flag()?,
        is_ack_not_void: s.flag()?,
        is_ack_record_requested: s.flag()?,
        has_agc: s.flag()?,
    };
    s.pad(1)?;
    Ok(c)
}
pub fn transport_frame(s: &mut S, length: u32) -> R<transport::Frame> {
    let control = transport_control(s)?;
    let (dialog_id, transaction_id) = (s.u8()?, s.u8()?);
    let target_rx_level_i = if control.has_agc { Some(s.u8()?) } else { None };
    let listen_timeout = if control.has_listen_timeout { Some(s.varint()?) } else { None };
    let execution_delay_timeout = if control.has_execution_delay_timeout { Some(s.varint()?) } else { None };
    let congestion_timeout = if control.is_ack_requested && control.is_dialog_start { Some(s.varint()?) } else { None };
    let ack_template = if control.is_ack_not_void {
        Some(transport::AckTemplate { transaction_id_start: s.u8()?, transaction_id_stop: s.u8()? })
    } else {
        None
    };
    let command = command(s, length)?;
    Ok(transport::Frame {
        control,
        dialog_id,
        transaction_id,
        target_rx_level_i,
        listen_timeout,
        execution_delay_timeout,
        congestion_timeout,
        ack_template,
        command,
    })
}
pub fn network_control(s: &mut S) -> R<(bool, bool, AddressType, NlsMethod)> {
    let no_origin = s.flag()?;
    let hopping = s.flag()?;
    let origin = address_type(s)?;
    if cfg!(feature = "wizzilab") {
        s.pad(1)?;
    }
    Ok((no_origin, hopping, origin, nls_method(s)?))
}
pub fn hopping_control(s: &mut S) -> R<(bool, AddressType)> {
    s.pad(1)?;
    let counter = s.flag()?;
    let dest = address_type(s)?;
    s.pad(4)?;
    Ok((counter, dest))
}
/// The expected debug form (without field names) and the transport frame inside.
pub fn network_frame(s: &mut S, length: u32) -> R<(String, transport::Frame)> {
    let (no_origin, hopping, origin, nls) = network_control(s)?;
    let hop = if hopping {
        let (counter, dest) = hopping_control(s)?;
        format!("Some(HoppingControl {{ {:?}, {:?} }})", counter, dest)
    } else {
        "None".into()
    };
    let ac = access_class(s)?;
    let adr = address(s, origin)?;
    let t = transport_frame(s, length)?;
    Ok((
        format!(
            "Frame {{ Control {{ {:?}, {:?}, {:?}, {:?} }}, {}, {}, {}, {} }}",
            no_origin,
            hopping,
            origin,
            nls,
            hop,
            norm(&format!("{:?}", ac)),
            norm(&format!("{:?}", adr)),
            norm(&format!("{:?}", t))
        ),
        t,
    ))
}
pub fn foreground_frame(s: &mut S) -> R<String> {
    assert!(!s.is_gen());
    let length = s.length()?;
    let subnet = s.u8::<u8>()?;
    let at = address_type(s)?;
    let eirp = s.bits(6)?;
    let adr = address(s, at)?;
    let (n, _) = network_frame(s, length)?;
    let crc = s.u16le::<u16>()?;
    Ok(format!(
        "ForegroundFrame {{ Length({}), {}, ForegroundFrameControl {{ {:?}, {} }}, {}, {}, {} }}",
        length,
        subnet,
        at,
        eirp,
        norm(&format!("{:?}", adr)),
        n,
        crc
    ))
}
/// A whole foreground frame: header, content, matching length, checksum.
pub fn gen_foreground(rng: &mut Rng, loose: bool, hostile: u64, big: u8) -> (Vec<u8>, bool) {
    let mut s = S::gen(rng);
    s.only_canon = !loose;
    s.hostile = hostile;
    s.big = big;
    let ok = (|| -> R<()> {
        s.u8::<u8>()?;
        let at = address_type(&mut s)?;
        s.bits(6)?;
        address(&mut s, at)?;
        network_frame(&mut s, 0)?;
        Ok(())
    })()
    .is_ok();
    let body = s.raw.bytes;
    let mut best = vec![];
    // the length counts from the start of the frame, its own field included
    for form in 1..=4usize {
        let total = body.len() + form;
        let mut b = Bits::default();
        b.put_length(total as u32);
        if b.bytes.len() == form {
            best = b.bytes;
            break;
        }
    }
    best.extend_from_slice(&body);
    best.extend_from_slice(&rng.bytes(2));
    (best, ok)
}
pub fn background_frame(s: &mut S) -> R<String> {
    let subnet = s.u8::<u8>()?;
    let at = address_type(s)?;
    let tag = s.bits(6)?;
    let payload = s.u16le::<u16>()?;
    let crc = s.u16le::<u16>()?;
    Ok(format!("BackgroundFrame {{ {}, BackgroundFrameControl {{ {:?}, {} }}, {}, {} }}", subnet, at, tag, payload, crc))
}
