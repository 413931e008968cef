//! Every public decodable type behind one interface.
use crate::model::{self, E, R, S};
use crate::rng::Rng;
use crate::stream::Stream;
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation as op;
use dash7::app::query as q;
use dash7::data;
use dash7::file::{self, File};
use dash7::link;
use dash7::network as net;
use dash7::physical as phy;
use dash7::session as ses;
use dash7::transport as tr;
use dash7::types::VarInt;
use deku::prelude::*;
use std::any::Any;
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek, Write};

pub struct Sl<T> {
    pub rest: usize,
    pub bits: usize,
    /// the remainder is the end of the input itself
    pub suffix: bool,
    pub value: T,
}
impl<T> Sl<T> {
    fn new(b: &[u8], rest: (&[u8], usize), value: T) -> Self {
        let suffix = rest.0.is_empty() || (rest.0.len() <= b.len() && std::ptr::eq(&b[b.len() - rest.0.len()], &rest.0[0]));
        Sl { rest: rest.0.len(), bits: rest.1, suffix, value }
    }
}

pub trait Codec: Sized + Clone + PartialEq + Debug + 'static {
    /// decode from a slice, `off` bits into it
    fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError>;
    /// decode from a stream; number of bits used, `off` included
    fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError>;
    /// decode the whole buffer
    fn whole(b: &[u8]) -> Result<Self, DekuError>;
    fn enc(&self) -> Result<Vec<u8>, DekuError>;
    /// encode behind what a writer already has
    fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError>;
    fn enc_to<W: Write + Seek>(&self, w: &mut W) -> Result<(), DekuError> {
        let mut w = Writer::new(w);
        self.put(&mut w)?;
        w.finalize()
    }
    fn upd(&mut self) -> Result<(), DekuError>;
    /// the remaining ways of encoding, where the type has them
    fn fill(&self, _: &mut [u8]) -> Option<Result<usize, DekuError>> {
        None
    }
    fn into_vec(self) -> Option<Result<Vec<u8>, DekuError>> {
        None
    }
    fn bit_string(&self) -> Option<Result<(usize, Vec<u8>), DekuError>> {
        None
    }
}

macro_rules! container {
    ($($t:ty),* $(,)?) => {$(
        impl Codec for $t {
            fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
                let (rest, v) = <$t as DekuContainerRead>::from_bytes((b, off))?;
                Ok(Sl::new(b, rest, v))
            }
            fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
                <$t as DekuContainerRead>::from_reader((r, off))
            }
            fn whole(b: &[u8]) -> Result<Self, DekuError> {
                <$t>::try_from(b)
            }
            fn enc(&self) -> Result<Vec<u8>, DekuError> {
                DekuContainerWrite::to_bytes(self)
            }
            fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
                DekuWriter::to_writer(self, w, ())
            }
            fn upd(&mut self) -> Result<(), DekuError> {
                DekuUpdate::update(self)
            }
            fn fill(&self, b: &mut [u8]) -> Option<Result<usize, DekuError>> {
                Some(DekuContainerWrite::to_slice(self, b))
            }
            fn into_vec(self) -> Option<Result<Vec<u8>, DekuError>> {
                Some(Vec::<u8>::try_from(self))
            }
            fn bit_string(&self) -> Option<Result<(usize, Vec<u8>), DekuError>> {
                Some(DekuContainerWrite::to_bits(self).map(|x| (x.len(), x.into_vec())))
            }
        }
    )*};
}
container!(
    q::Query, q::NonVoid, q::ComparisonWithZero, q::ComparisonWithValue, q::ComparisonWithOtherFile,
    q::BitmapRangeComparison, q::StringTokenSearch, q::ArithmeticQueryParams, q::RangeQueryParams,
    q::ArithmeticComparisonType, q::RangeComparisonType,
    op::FileOffset, op::Length, op::ActionStatus, op::StatusCode, op::Permission, op::PermissionLevel,
    op::ActionHeader, op::StatusType, op::InterfaceStatusOperation, op::ResponseTagHeader, op::ChunkStep, op::LogicOp,
    op::ForwardHeader, op::IndirectForwardHeader, op::RequestTagHeader, OpCode,
    data::FileHeader, data::FilePermissions, data::FileProperties, data::UserPermissions, data::StorageClass, data::ActionCondition,
    net::Addressee, net::NlsMethod, net::AddressType, net::Frame, net::Control, net::HoppingControl,
    Dash7InterfaceConfiguration, LoRaWANInterfaceConfiguration, LoRaWANABPInterfaceConfiguration, LoRaWANOTAAInterfaceConfiguration,
    InterfaceConfiguration, IndirectInterface,
    ses::Dash7InterfaceStatus, ses::QoS, ses::RetryMode, ses::ResponseMode, ses::InterfaceType,
    phy::Channel, phy::ChannelHeader, phy::ChannelStatus, phy::ChannelStatusIdentifier, phy::SubBand, phy::Bandwidth,
    phy::ChannelBand, phy::ChannelClass, phy::ChannelCoding, phy::CsmaCaMode, phy::NoiseFloor,
    link::AccessProfile, link::SubProfile, link::AccessClass, link::ForegroundFrame, link::BackgroundFrame,
    link::ForegroundFrameControl, link::BackgroundFrameControl,
    file::FactorySettings, file::FirmwareVersion, file::EngineeringMode, file::EngineeringModeMethod, file::PhyStatus,
    file::DllConfig, file::DllStatus, file::SecurityKey, file::FileId, file::AccessProfile<3>,
    tr::Frame, tr::Control, tr::AckTemplate, tr::GroupCondition,
    VarInt,
);
#[cfg(feature = "wizzilab")]
container!(op::InterfaceFinalStatusOperation, op::InterfaceTxStatusOperation, ses::InterfaceFinalStatusCode, op::TxStatusType);

impl Codec for Action {
    fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
        let (rest, v) = <Action as DekuContainerRead>::from_bytes((b, off))?;
        Ok(Sl::new(b, rest, v))
    }
    fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
        <Action as DekuContainerRead>::from_reader((r, off))
    }
    fn whole(b: &[u8]) -> Result<Self, DekuError> {
        Action::try_from(b)
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        Vec::<u8>::try_from(self.clone())
    }
    fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
        DekuWriter::to_writer(self, w, ())
    }
    fn upd(&mut self) -> Result<(), DekuError> {
        DekuUpdate::update(self)
    }
    fn fill(&self, b: &mut [u8]) -> Option<Result<usize, DekuError>> {
        Some(DekuContainerWrite::to_slice(self, b))
    }
    fn into_vec(self) -> Option<Result<Vec<u8>, DekuError>> {
        Some(Vec::<u8>::try_from(self))
    }
    fn bit_string(&self) -> Option<Result<(usize, Vec<u8>), DekuError>> {
        Some(DekuContainerWrite::to_bits(self).map(|x| (x.len(), x.into_vec())))
    }
}
impl Codec for Command {
    fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
        let (rest, v) = Command::from_bytes((b, off))?;
        Ok(Sl::new(b, rest, v))
    }
    fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
        Command::from_reader((r, off))
    }
    fn whole(b: &[u8]) -> Result<Self, DekuError> {
        Command::try_from(b)
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        self.to_bytes()
    }
    fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
        DekuWriter::to_writer(self, w, 0)
    }
    fn upd(&mut self) -> Result<(), DekuError> {
        Ok(())
    }
    fn into_vec(self) -> Option<Result<Vec<u8>, DekuError>> {
        Some(Vec::<u8>::try_from(self))
    }
}

/// Types whose decoding needs context, through the reader trait.
macro_rules! contextual {
    ($name:ident, $t:ty, $c:ty, $ctx:expr) => {
        contextual!($name, $t, $c, $ctx, DekuUpdate::update);
    };
    ($name:ident, $t:ty, $c:ty, $ctx:expr, $upd:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name(pub $t);
        impl Codec for $name {
            fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
                let mut c = Cursor::new(b);
                let (bits, v) = Self::reader(&mut c, off)?;
                Ok(Sl::new(b, (&b[bits / 8..], bits % 8), v))
            }
            fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
                let mut r = Reader::new(r);
                if off > 0 {
                    r.skip_bits(off)?;
                }
                let v = <$t as DekuReader<'_, $c>>::from_reader_with_ctx(&mut r, $ctx)?;
                Ok((r.bits_read, $name(v)))
            }
            fn whole(b: &[u8]) -> Result<Self, DekuError> {
                let s = Self::slice(b, 0)?;
                if s.rest > 0 {
                    return Err(DekuError::Parse("rest".into()));
                }
                Ok(s.value)
            }
            fn enc(&self) -> Result<Vec<u8>, DekuError> {
                let mut c = Stream::new(vec![], 0, Default::default());
                Codec::enc_to(self, &mut c)?;
                Ok(c.data)
            }
            fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
                <$t as DekuWriter<$c>>::to_writer(&self.0, w, $ctx)
            }
            fn upd(&mut self) -> Result<(), DekuError> {
                $upd(&mut self.0)
            }
        }
    };
}
contextual!(AddrNb, net::Address, net::AddressType, net::AddressType::NbId);
contextual!(AddrNo, net::Address, net::AddressType, net::AddressType::NoId);
contextual!(AddrUid, net::Address, net::AddressType, net::AddressType::UId);
contextual!(AddrVid, net::Address, net::AddressType, net::AddressType::VId);
contextual!(NlsNone, net::NlsState, net::NlsMethod, net::NlsMethod::None);
contextual!(NlsCtr, net::NlsState, net::NlsMethod, net::NlsMethod::AesCtr);
contextual!(NlsCcm, net::NlsState, net::NlsMethod, net::NlsMethod::AesCcm32);
contextual!(IsHost, ses::InterfaceStatus, (ses::InterfaceType, u32), (ses::InterfaceType::Host, 0));
contextual!(IsLora, ses::InterfaceStatus, (ses::InterfaceType, u32), (ses::InterfaceType::LoRaWanABP, 3));
contextual!(IsDash7, ses::InterfaceStatus, (ses::InterfaceType, u32), (ses::InterfaceType::Dash7, 20));
contextual!(IsOther, ses::InterfaceStatus, (ses::InterfaceType, u32), (ses::InterfaceType::Unknown, 7));
contextual!(StAction, op::Status, op::StatusType, op::StatusType::Action);
contextual!(StIface, op::Status, op::StatusType, op::StatusType::Interface);
contextual!(StFinal, op::Status, op::StatusType, op::StatusType::InterfaceFinal);
contextual!(OpNop, op::Nop, OpCode, OpCode::NOP);
contextual!(OpFileData, op::FileData, OpCode, OpCode::RETURN_FILE_DATA);
contextual!(OpQuery, op::ActionQuery, OpCode, OpCode::ACTION_QUERY);
contextual!(OpIndirect, op::IndirectForward, OpCode, OpCode::INDIRECT_FORWARD);
contextual!(CmdLen, Command, u32, 9, |_: &mut Command| Ok(()));

/// A file of a fixed id; `LEN` is the length asked for.
#[derive(Clone, Debug, PartialEq)]
pub struct FileOf<const ID: u8, const LEN: u32>(pub File);
impl<const ID: u8, const LEN: u32> Codec for FileOf<ID, LEN> {
    fn slice(b: &[u8], off: usize) -> Result<Sl<Self>, DekuError> {
        let (rest, v) = File::from_bytes((b, off), ID.try_into()?, LEN)?;
        Ok(Sl::new(b, rest, FileOf(v)))
    }
    fn reader<R0: Read + Seek>(r: &mut R0, off: usize) -> Result<(usize, Self), DekuError> {
        let mut r = Reader::new(r);
        if off > 0 {
            r.skip_bits(off)?;
        }
        let v = <File as DekuReader<'_, (file::FileId, u32)>>::from_reader_with_ctx(&mut r, (ID.try_into()?, LEN))?;
        Ok((r.bits_read, FileOf(v)))
    }
    fn whole(b: &[u8]) -> Result<Self, DekuError> {
        let s = Self::slice(b, 0)?;
        if s.rest > 0 {
            return Err(DekuError::Parse("rest".into()));
        }
        Ok(s.value)
    }
    fn enc(&self) -> Result<Vec<u8>, DekuError> {
        let mut c = Stream::new(vec![], 0, Default::default());
        Codec::enc_to(self, &mut c)?;
        Ok(c.data)
    }
    fn put<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
        self.0.to_writer(w, (ID.try_into()?, LEN))
    }
    fn upd(&mut self) -> Result<(), DekuError> {
        DekuUpdate::update(&mut self.0)
    }
}

// ------------------------------------------------------------------------------------------ type erasure

pub trait Val {
    fn fmt_to(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result;
    fn dbg(&self) -> String;
    fn denc(&self) -> Result<Vec<u8>, String>;
    fn denc_to(&self, s: &mut Stream) -> Result<(), String>;
    fn dput(&self, w: &mut Writer<&mut Stream>) -> Result<(), String>;
    fn dfill(&self, b: &mut [u8]) -> Option<Result<usize, String>>;
    fn dvec(&self) -> Option<Result<Vec<u8>, String>>;
    fn dbits(&self) -> Option<Result<(usize, Vec<u8>), String>>;
    fn same(&self, o: &dyn Val) -> bool;
    fn dup(&self) -> Dyn;
    fn dupd(&mut self) -> Result<(), String>;
    fn any(&self) -> &dyn Any;
}
pub type Dyn = Box<dyn Val>;
impl Debug for dyn Val + '_ {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.fmt_to(f)
    }
}
impl PartialEq for dyn Val {
    fn eq(&self, o: &dyn Val) -> bool {
        self.same(o)
    }
}
impl<T: Codec> Val for T {
    fn fmt_to(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Debug::fmt(self, f)
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn denc(&self) -> Result<Vec<u8>, String> {
        Codec::enc(self).map_err(|e| format!("{:?}", e))
    }
    fn denc_to(&self, s: &mut Stream) -> Result<(), String> {
        Codec::enc_to(self, s).map_err(|e| format!("{:?}", e))
    }
    fn dput(&self, w: &mut Writer<&mut Stream>) -> Result<(), String> {
        Codec::put(self, w).map_err(|e| format!("{:?}", e))
    }
    fn dfill(&self, b: &mut [u8]) -> Option<Result<usize, String>> {
        self.fill(b).map(|r| r.map_err(|e| format!("{:?}", e)))
    }
    fn dvec(&self) -> Option<Result<Vec<u8>, String>> {
        self.clone().into_vec().map(|r| r.map_err(|e| format!("{:?}", e)))
    }
    fn dbits(&self) -> Option<Result<(usize, Vec<u8>), String>> {
        self.bit_string().map(|r| r.map_err(|e| format!("{:?}", e)))
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>().map_or(false, |o| o == self)
    }
    fn dup(&self) -> Dyn {
        Box::new(self.clone())
    }
    fn dupd(&mut self) -> Result<(), String> {
        Codec::upd(self).map_err(|e| format!("{:?}", e))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Canon,
    Loose,
    Hostile,
    /// loosely coded, with long payloads or many actions
    Big,
}

pub struct Item {
    pub name: &'static str,
    /// uses all input there is
    pub greedy: bool,
    /// takes whole bytes
    pub aligned: bool,
    pub slice: fn(&[u8], usize) -> Result<Sl<Dyn>, String>,
    pub reader: fn(&mut Stream, usize) -> Result<(usize, Dyn), String>,
    pub whole: fn(&[u8]) -> Result<Dyn, String>,
    /// bytes, and whether they are well formed
    pub gen: fn(&mut Rng, Mode) -> (Vec<u8>, bool),
}

pub fn dyn_slice<T: Codec>(b: &[u8], off: usize) -> Result<Sl<Dyn>, String> {
    let s = T::slice(b, off).map_err(|e| format!("{:?}", e))?;
    Ok(Sl { rest: s.rest, bits: s.bits, suffix: s.suffix, value: Box::new(s.value) })
}
pub fn dyn_reader<T: Codec>(s: &mut Stream, off: usize) -> Result<(usize, Dyn), String> {
    let (n, v) = T::reader(s, off).map_err(|e| format!("{:?}", e))?;
    Ok((n, Box::new(v)))
}
pub fn dyn_whole<T: Codec>(b: &[u8]) -> Result<Dyn, String> {
    Ok(Box::new(T::whole(b).map_err(|e| format!("{:?}", e))?))
}
/// Draw the bytes of an item from its model.
pub fn draw<T>(rng: &mut Rng, mode: Mode, f: impl FnOnce(&mut S) -> R<T>) -> (Vec<u8>, bool) {
    let mut s = S::gen(rng);
    s.only_canon = mode == Mode::Canon;
    s.hostile = if mode == Mode::Hostile { 60 } else { 0 };
    s.big = (mode == Mode::Big) as u8;
    let r = f(&mut s);
    let mut b = s.raw.bytes;
    if let Err(E::Bad(_)) = r {
        // what follows an undefined value
        let n = rng.below(24) as usize;
        b.extend(rng.bytes(n));
    }
    (b, r.is_ok())
}
fn noise(rng: &mut Rng, _: Mode) -> (Vec<u8>, bool) {
    let n = rng.below(20) as usize;
    (rng.bytes(n), false)
}

macro_rules! item {
    ($v:ident, $name:literal, $t:ty) => {
        $v.push(Item { name: $name, greedy: false, aligned: false, slice: dyn_slice::<$t>, reader: dyn_reader::<$t>, whole: dyn_whole::<$t>, gen: noise })
    };
    ($v:ident, $name:literal, $t:ty, $f:expr) => {
        $v.push(Item { name: $name, greedy: false, aligned: true, slice: dyn_slice::<$t>, reader: dyn_reader::<$t>, whole: dyn_whole::<$t>, gen: |r, m| draw(r, m, $f) })
    };
    ($v:ident, $name:literal, $t:ty, greedy $f:expr) => {
        $v.push(Item { name: $name, greedy: true, aligned: true, slice: dyn_slice::<$t>, reader: dyn_reader::<$t>, whole: dyn_whole::<$t>, gen: $f })
    };
}

pub fn items() -> Vec<Item> {
    let mut v = vec![];
    item!(v, "command", Command, greedy |r, m| draw(r, m, |s| model::command(s, 0)));
    item!(v, "action", Action, |s| model::action(s, None));
    item!(v, "foreground", link::ForegroundFrame, greedy |r, m| model::gen_foreground(r, m != Mode::Canon, if m == Mode::Hostile { 60 } else { 0 }, (m == Mode::Big) as u8));
    item!(v, "background", link::BackgroundFrame, model::background_frame);
    item!(v, "network", net::Frame, greedy |r, m| draw(r, m, |s| model::network_frame(s, 0)));
    item!(v, "transport", tr::Frame, greedy |r, m| draw(r, m, |s| model::transport_frame(s, 0)));
    item!(v, "command9", CmdLen, greedy |r, m| (draw(r, m, |s| model::command(s, 0)).0, false));
    item!(v, "query", q::Query, model::query);
    item!(v, "file-offset", op::FileOffset, model::file_offset);
    item!(v, "length", op::Length, |s| s.length());
    item!(v, "varint", VarInt, |s| s.varint());
    item!(v, "action-status", op::ActionStatus, model::action_status);
    item!(v, "status-code", op::StatusCode, |s| s.u8::<u8>());
    item!(v, "permission", op::Permission, model::permission);
    item!(v, "permission-level", op::PermissionLevel, model::permission_level);
    item!(v, "interface-status-op", op::InterfaceStatusOperation, model::interface_status_operation);
    item!(v, "file-header", data::FileHeader, model::file_header);
    item!(v, "file-permissions", data::FilePermissions, model::file_permissions);
    item!(v, "file-properties", data::FileProperties, model::file_properties);
    item!(v, "addressee", net::Addressee, model::addressee);
    item!(v, "access-class", link::AccessClass, model::access_class);
    item!(v, "dash7-config", Dash7InterfaceConfiguration, model::dash7_configuration);
    item!(v, "lorawan", LoRaWANInterfaceConfiguration, model::lorawan_base);
    item!(v, "lorawan-abp", LoRaWANABPInterfaceConfiguration, model::lorawan_abp);
    item!(v, "lorawan-otaa", LoRaWANOTAAInterfaceConfiguration, model::lorawan_otaa);
    item!(v, "interface-config", InterfaceConfiguration, model::interface_configuration);
    item!(v, "indirect-interface", IndirectInterface, model::indirect_interface);
    item!(v, "dash7-status", ses::Dash7InterfaceStatus, model::dash7_status);
    item!(v, "qos", ses::QoS, model::qos);
    item!(v, "interface-type", ses::InterfaceType, |s| s.u8::<u8>());
    item!(v, "channel", phy::Channel, model::channel);
    item!(v, "channel-header", phy::ChannelHeader, model::channel_header);
    item!(v, "channel-status", phy::ChannelStatus, model::channel_status);
    item!(v, "sub-band", phy::SubBand, model::sub_band);
    item!(v, "sub-profile", link::SubProfile, model::sub_profile);
    item!(v, "access-profile", link::AccessProfile, model::access_profile);
    item!(v, "access-profile-3", file::AccessProfile<3>, model::access_profile);
    item!(v, "factory-settings", file::FactorySettings, model::factory_settings);
    item!(v, "firmware-version", file::FirmwareVersion, model::firmware_version);
    item!(v, "engineering-mode", file::EngineeringMode, model::engineering_mode);
    item!(v, "phy-status", file::PhyStatus, model::phy_status);
    item!(v, "dll-config", file::DllConfig, model::dll_config);
    item!(v, "dll-status", file::DllStatus, model::dll_status);
    item!(v, "security-key", file::SecurityKey, model::security_key);
    item!(v, "file-id", file::FileId, |s| s.u8::<u8>());
    item!(v, "transport-control", tr::Control, model::transport_control);
    item!(v, "ack-template", tr::AckTemplate, |s| s.u16::<u16>());
    item!(v, "network-control", net::Control, model::network_control);
    item!(v, "hopping-control", net::HoppingControl, model::hopping_control);
    item!(v, "fg-control", link::ForegroundFrameControl, |s| s.u8::<u8>());
    item!(v, "bg-control", link::BackgroundFrameControl, |s| s.u8::<u8>());
    item!(v, "file-00", FileOf<0x00, 8>, |s| model::file_body(s, 0x00, 8));
    item!(v, "file-01", FileOf<0x01, 56>, |s| model::file_body(s, 0x01, 56));
    item!(v, "file-02", FileOf<0x02, 15>, |s| model::file_body(s, 0x02, 15));
    item!(v, "file-03", FileOf<0x03, 5>, |s| model::file_body(s, 0x03, 5));
    item!(v, "file-05", FileOf<0x05, 7>, |s| model::file_body(s, 0x05, 7));
    item!(v, "file-06", FileOf<0x06, 2>, |s| model::file_body(s, 0x06, 2));
    item!(v, "file-09", FileOf<0x09, 15>, |s| model::file_body(s, 0x09, 15));
    item!(v, "file-0a", FileOf<0x0A, 7>, |s| model::file_body(s, 0x0A, 7));
    item!(v, "file-0b", FileOf<0x0B, 16>, |s| model::file_body(s, 0x0B, 16));
    item!(v, "file-0e", FileOf<0x0E, 16>, |s| model::file_body(s, 0x0E, 16));
    item!(v, "file-20", FileOf<0x20, 65>, |s| model::file_body(s, 0x20, 65));
    item!(v, "file-2e", FileOf<0x2E, 65>, |s| model::file_body(s, 0x2E, 65));
    item!(v, "file-2f", FileOf<0x2F, 0>, |s| model::file_body(s, 0x2F, 0));
    item!(v, "file-f9", FileOf<0xF9, 300>, |s| model::file_body(s, 0xF9, 300));
    item!(v, "file-fa", FileOf<0xFA, 0x3FFF_FFFF>, |s| s.bytes(9).and(Err::<(), _>(E::Short)));
    item!(v, "addr-nb", AddrNb, |s| model::address(s, net::AddressType::NbId));
    item!(v, "addr-no", AddrNo, |s| model::address(s, net::AddressType::NoId));
    item!(v, "addr-uid", AddrUid, |s| model::address(s, net::AddressType::UId));
    item!(v, "addr-vid", AddrVid, |s| model::address(s, net::AddressType::VId));
    item!(v, "nls-none", NlsNone, |s| model::nls_state(s, net::NlsMethod::None));
    item!(v, "nls-ctr", NlsCtr, |s| model::nls_state(s, net::NlsMethod::AesCtr));
    item!(v, "nls-ccm", NlsCcm, |s| model::nls_state(s, net::NlsMethod::AesCcm32));
    item!(v, "is-host", IsHost, |_| Ok(()));
    item!(v, "is-lora", IsLora, |s| s.bytes(3).and(Err::<(), _>(E::Short)));
    item!(v, "is-dash7", IsDash7, model::dash7_status);
    item!(v, "is-other", IsOther, |s| s.bytes(7));
    item!(v, "st-action", StAction, model::action_status);
    item!(v, "st-iface", StIface, model::interface_status_operation);
    #[cfg(not(feature = "wizzilab"))]
    item!(v, "st-final", StFinal, |s| s.bytes(3).and(Err::<(), _>(E::Short)));
    #[cfg(feature = "wizzilab")]
    item!(v, "st-final", StFinal, model::final_status_operation);
    item!(v, "op-nop", OpNop, |s| model::action(s, Some(0)));
    item!(v, "op-file-data", OpFileData, |s| model::action(s, Some(32)));
    item!(v, "op-query", OpQuery, |s| model::action(s, Some(8)));
    item!(v, "op-indirect", OpIndirect, |s| model::action(s, Some(51)));
    // parts of bytes
    item!(v, "p-nonvoid", q::NonVoid);
    item!(v, "p-cmpzero", q::ComparisonWithZero);
    item!(v, "p-cmpvalue", q::ComparisonWithValue);
    item!(v, "p-cmpfile", q::ComparisonWithOtherFile);
    item!(v, "p-bitmap", q::BitmapRangeComparison);
    item!(v, "p-token", q::StringTokenSearch);
    item!(v, "p-arith", q::ArithmeticQueryParams);
    item!(v, "p-range", q::RangeQueryParams);
    item!(v, "p-arith-type", q::ArithmeticComparisonType);
    item!(v, "p-range-type", q::RangeComparisonType);
    item!(v, "p-header", op::ActionHeader);
    item!(v, "p-status-type", op::StatusType);
    item!(v, "p-response-tag", op::ResponseTagHeader);
    item!(v, "p-chunk", op::ChunkStep);
    item!(v, "p-logic", op::LogicOp);
    item!(v, "p-forward", op::ForwardHeader);
    item!(v, "p-indirect", op::IndirectForwardHeader);
    item!(v, "p-request-tag", op::RequestTagHeader);
    item!(v, "p-opcode", OpCode);
    item!(v, "p-user", data::UserPermissions);
    item!(v, "p-storage", data::StorageClass);
    item!(v, "p-condition", data::ActionCondition);
    item!(v, "p-nls", net::NlsMethod);
    item!(v, "p-address", net::AddressType);
    item!(v, "p-retry", ses::RetryMode);
    item!(v, "p-response", ses::ResponseMode);
    item!(v, "p-channel-id", phy::ChannelStatusIdentifier);
    item!(v, "p-bandwidth", phy::Bandwidth);
    item!(v, "p-band", phy::ChannelBand);
    item!(v, "p-class", phy::ChannelClass);
    item!(v, "p-coding", phy::ChannelCoding);
    item!(v, "p-csma", phy::CsmaCaMode);
    item!(v, "p-noise", phy::NoiseFloor);
    item!(v, "p-group", tr::GroupCondition);
    item!(v, "p-engineering", file::EngineeringModeMethod);
    #[cfg(feature = "wizzilab")]
    {
        item!(v, "final-status-op", op::InterfaceFinalStatusOperation, model::final_status_operation);
        item!(v, "tx-status-op", op::InterfaceTxStatusOperation, model::tx_status_operation);
        item!(v, "final-code", ses::InterfaceFinalStatusCode, model::final_code);
        item!(v, "p-tx-type", op::TxStatusType);
    }
    v
}
