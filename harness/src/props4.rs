//! The monitors, fourth part: identifiers, named codes, defaults.
use crate::core::*;
use crate::items::*;
use crate::model::{self, S};
use crate::props::*;
use crate::rng::{hash, hex, Rng};
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::*;
use dash7::app::operation as op;
use dash7::app::query as q;
use dash7::data;
use dash7::file::{self, File, FileId};
use dash7::link;
use dash7::network as net;
use dash7::physical as phy;
use dash7::session as ses;
use dash7::transport as tr;
use dash7::types::VarInt;
use deku::prelude::*;

/// Identifiers of everything tagged within an action.
pub fn identifiers(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let mut s = S::gen(&mut r);
    let code = input[8];
    if model::action(&mut s, Some(code)).is_err() {
        return Ok(());
    }
    let b = s.raw.bytes;
    let Ok(a) = Action::whole(&b) else { return Ok(()) };
    let id = a.deku_id();
    ensure!(id == Ok(OpCode(b[0] & 0x3F)) && b[0] & 0x3F == code, "{} decodes to {:?} which is {:?}", hex(&b), a, id);
    o.tag("operation codes");
    let ask = |x: &Addressee, o: &mut Obs| -> Verdict {
        use net::{Address as A, AddressType as T, NlsMethod as M, NlsState as N};
        let ty = match &x.address {
            A::NbId(_) => T::NbId,
            A::NoId => T::NoId,
            A::UId(_) => T::UId,
            A::VId(_) => T::VId,
        };
        ensure!(x.address.deku_id() == Ok(ty), "{}: {:?} is {:?}", hex(&b), x, x.address.deku_id());
        let m = match &x.nls_state {
            N::None => M::None,
            N::AesCtr(_) => M::AesCtr,
            N::AesCbcMac128(_) => M::AesCbcMac128,
            N::AesCbcMac64(_) => M::AesCbcMac64,
            N::AesCbcMac32(_) => M::AesCbcMac32,
            N::AesCcm128(_) => M::AesCcm128,
            N::AesCcm64(_) => M::AesCcm64,
            N::AesCcm32(_) => M::AesCcm32,
        };
        ensure!(x.nls_state.deku_id() == Ok(m), "{}: {:?} is {:?}", hex(&b), x, x.nls_state.deku_id());
        o.tag("addressees");
        Ok(())
    };
    use net::Addressee;
    match &a {
        Action::ActionQuery(x) | Action::BreakQuery(x) | Action::VerifyChecksum(x) => {
            let id = x.query.deku_id();
            ensure!(id == Ok(b[1] >> 5), "{} holds {:?} which is {:?}", hex(&b), x.query, id);
            o.tag("queries");
        }
        Action::Status(x) => {
            let id = x.status.deku_id();
            ensure!(id == Ok(x.status_type) && x.status_type.deku_id() == Ok(b[0] >> 6), "{} holds {:?} which is {:?}", hex(&b), x, id);
            o.tag("statuses");
            if let op::Status::Interface(x) = &x.status {
                let id = x.status.deku_id();
                ensure!(id == Ok(x.interface_type), "{} holds {:?} which is {:?}", hex(&b), x, id);
                let raw = x.interface_type.deku_id();
                ensure!(raw == Ok(b[1]) || (raw.is_err() && x.interface_type == ses::InterfaceType::Unknown), "{} holds {:?} which is {:?}", hex(&b), x, raw);
                o.tag("interface statuses");
                if let ses::InterfaceStatus::Dash7(d) = &x.status {
                    ask(&d.addressee, o)?;
                }
            }
        }
        Action::Forward(x) => {
            let id = x.configuration.deku_id();
            let unknown = matches!(x.configuration, InterfaceConfiguration::Unknown(_));
            ensure!(id == Ok(b[1]) || (id.is_err() && unknown), "{} holds {:?} which is {:?}", hex(&b), x.configuration, id);
            o.tag("interface configurations");
            if let InterfaceConfiguration::Dash7(d) = &x.configuration {
                ask(&d.addressee, o)?;
            }
        }
        Action::IndirectForward(x) => {
            if let Some(c) = &x.configuration {
                let id = c.deku_id();
                let unknown = matches!(c, IndirectInterface::Unknown(_));
                ensure!(id == Ok(b[1]) || (id.is_err() && unknown), "{} holds {:?} which is {:?}", hex(&b), c, id);
                o.tag("indirect interfaces");
                if let IndirectInterface::Dash7(d) = c {
                    ask(d, o)?;
                }
            }
        }
        Action::PermissionRequest(_) | Action::Chunk(_) | Action::Logic(_) => {
            let id = match &a {
                Action::Chunk(x) => x.step.deku_id(),
                Action::Logic(x) => x.logic.deku_id(),
                _ => Ok(b[0] >> 6),
            };
            ensure!(id == Ok(b[0] >> 6), "{} decodes to {:?} whose kind is {:?}", hex(&b), a, id);
        }
        _ => {}
    }
    o.distinct(&b);
    o.sample_with(|| format!("{} is {:?}", hex(&b[..b.len().min(60)]), id));
    Ok(())
}

/// Identifiers of files.
pub fn file_identifiers(input: &[u8], o: &mut Obs) -> Verdict {
    let id = input[0];
    let mut r = Rng::new(hash(input));
    for _ in 0..20 {
        let b = draw(&mut r, Mode::Loose, |s| model::file_body(s, id, 9)).0;
        let known: FileId = id.try_into().unwrap();
        let Ok((_, f)) = File::from_bytes((&b, 0), known.clone(), b.len() as u32) else { continue };
        let got = f.deku_id();
        match &f {
            File::Other(_) => ensure!(got.is_err() || got == Ok(known), "file {:02X} {:?} is {:?}", id, f, got),
            _ => ensure!(got == Ok(known), "file {:02X} {:?} is {:?}", id, f, got),
        }
        if let Some(n) = crate::props2::told_id(&f) {
            ensure!(n == id, "the structure of {:?} calls itself file {:02X}, but it was decoded as file {:02X}", f, n, id);
        }
        o.tag("files");
    }
    o.distinct(input);
    Ok(())
}

/// Identifiers of the enumerations, and the named codes. Input: a byte.
pub fn small_identifiers(input: &[u8], o: &mut Obs) -> Verdict {
    let n = input[0];
    const UNTOLD: [&str; 5] = ["bandwidth", "band", "class", "coding", "final status code"];
    macro_rules! small {
        ($($t:ty, $bits:expr, $name:literal);* $(;)?) => {$(
            // followed by enough for a variant's own data
            if let Ok(x) = <$t as Codec>::slice(&[n, 0, 0, 0], 0) {
                let id = x.value.deku_id();
                // (an enumeration defined by discriminants has no identifier to tell)
                ensure!(id == Ok(n >> (8 - $bits)) || (id == Err(DekuError::IdVariantNotFound) && UNTOLD.contains(&$name)), "{}: {:02X} decodes to {:?} which is {:?}", $name, n, x.value, id);
                o.tag($name);
            }
        )*};
    }
    small!(
        q::ArithmeticComparisonType, 3, "arithmetic comparison";
        q::RangeComparisonType, 3, "range comparison";
        op::PermissionLevel, 8, "permission level";
        op::StatusType, 2, "status type";
        op::ChunkStep, 2, "chunk step";
        op::LogicOp, 2, "logic";
        net::NlsMethod, if cfg!(feature = "wizzilab") { 3 } else { 4 }, "security method";
        net::AddressType, 2, "address type";
        phy::Bandwidth, 2, "bandwidth";
        phy::ChannelBand, 3, "band";
        phy::ChannelClass, 2, "class";
        phy::ChannelCoding, 2, "coding";
        phy::CsmaCaMode, 4, "collision avoidance";
        ses::RetryMode, 3, "retry mode";
        ses::ResponseMode, 3, "response mode";
        data::ActionCondition, 3, "condition";
        data::StorageClass, 2, "storage class";
        tr::GroupCondition, 2, "group condition";
        file::EngineeringModeMethod, 8, "engineering mode";
    );
    #[cfg(feature = "wizzilab")]
    small!(ses::InterfaceFinalStatusCode, 8, "final status code"; op::TxStatusType, 2, "tx status type");
    for (name, code, want) in [
        ("NOP", OpCode::NOP, 0u8), ("READ_FILE_DATA", OpCode::READ_FILE_DATA, 1), ("READ_FILE_PROPERTIES", OpCode::READ_FILE_PROPERTIES, 2),
        ("WRITE_FILE_DATA", OpCode::WRITE_FILE_DATA, 4), ("WRITE_FILE_DATA_FLUSH", OpCode::WRITE_FILE_DATA_FLUSH, 5), ("WRITE_FILE_PROPERTIES", OpCode::WRITE_FILE_PROPERTIES, 6),
        ("ACTION_QUERY", OpCode::ACTION_QUERY, 8), ("BREAK_QUERY", OpCode::BREAK_QUERY, 9), ("PERMISSION_REQUEST", OpCode::PERMISSION_REQUEST, 10),
        ("VERIFY_CHECKSUM", OpCode::VERIFY_CHECKSUM, 11), ("EXIST_FILE", OpCode::EXIST_FILE, 16), ("CREATE_NEW_FILE", OpCode::CREATE_NEW_FILE, 17),
        ("DELETE_FILE", OpCode::DELETE_FILE, 18), ("RESTORE_FILE", OpCode::RESTORE_FILE, 19), ("FLUSH_FILE", OpCode::FLUSH_FILE, 20),
        ("COPY_FILE", OpCode::COPY_FILE, 23), ("EXECUTE_FILE", OpCode::EXECUTE_FILE, 31), ("RETURN_FILE_DATA", OpCode::RETURN_FILE_DATA, 32),
        ("RETURN_FILE_PROPERTIES", OpCode::RETURN_FILE_PROPERTIES, 33), ("STATUS", OpCode::STATUS, 34), ("RESPONSE_TAG", OpCode::RESPONSE_TAG, 35),
        ("CHUNK", OpCode::CHUNK, 48), ("LOGIC", OpCode::LOGIC, 49), ("FORWARD", OpCode::FORWARD, 50), ("INDIRECT_FORWARD", OpCode::INDIRECT_FORWARD, 51),
        ("REQUEST_TAG", OpCode::REQUEST_TAG, 52), ("EXTENSION", OpCode::EXTENSION, 63),
    ] {
        ensure!(code == OpCode(want), "operation code {} is {:?}", name, code);
    }
    use op::StatusCode as C;
    for (name, code, want) in [
        ("OK", C::OK, 0u8), ("RECEIVED", C::RECEIVED, 1), ("ITF_FULL", C::ITF_FULL, 2), ("FILE_ID_MISSING", C::FILE_ID_MISSING, 0xFF),
        ("CREATE_FILE_ID_ALREADY_EXIST", C::CREATE_FILE_ID_ALREADY_EXIST, 0xFE), ("FILE_IS_NOT_RESTORABLE", C::FILE_IS_NOT_RESTORABLE, 0xFD),
        ("INSUFFICIENT_PERMISSION", C::INSUFFICIENT_PERMISSION, 0xFC), ("CREATE_FILE_LENGTH_OVERFLOW", C::CREATE_FILE_LENGTH_OVERFLOW, 0xFB),
        ("CREATE_FILE_ALLOCATION_OVERFLOW", C::CREATE_FILE_ALLOCATION_OVERFLOW, 0xFA), ("WRITE_OFFSET_OVERFLOW", C::WRITE_OFFSET_OVERFLOW, 0xF9),
        ("WRITE_DATA_OVERFLOW", C::WRITE_DATA_OVERFLOW, 0xF8), ("WRITE_STORAGE_UNAVAILABLE", C::WRITE_STORAGE_UNAVAILABLE, 0xF7),
        ("UNKNOWN_OPERATION", C::UNKNOWN_OPERATION, 0xF6), ("OPERATION_INCOMPLETE", C::OPERATION_INCOMPLETE, 0xF5),
        ("OPERATION_WRONG_FORMAT", C::OPERATION_WRONG_FORMAT, 0xF4), ("UNKNOWN_ERROR", C::UNKNOWN_ERROR, 0x80),
    ] {
        ensure!(code == C(want), "status code {} is {:?}", name, code);
    }
    o.distinct(input);
    Ok(())
}

/// Default values. Input: anything.
pub fn defaults(_: &[u8], o: &mut Obs) -> Verdict {
    macro_rules! plain {
        ($($t:ty),* $(,)?) => {$(
            let v = <$t>::default();
            let name = stringify!($t);
            match v.enc() {
                Err(e) => return fail(format!("the default {} ({:?}) does not encode: {:?}", name, v, e)),
                Ok(e) => {
                    let d = <$t as Codec>::slice(&e, 0);
                    let ok = matches!(&d, Ok(x) if x.value == v && x.rest <= 1);
                    ensure!(ok, "the default {} ({:?}) encodes to {}, which decodes to {:?}", name, v, hex(&e), d.map(|x| (x.value, x.rest)));
                    ensure!(v.clone() == <$t>::default(), "the default {} is not always the same", name);
                    o.tag("defaults");
                    o.distinct(name.as_bytes());
                }
            }
        )*};
    }
    plain!(
        q::Query, q::NonVoid, q::ComparisonWithZero, q::ComparisonWithValue, q::ComparisonWithOtherFile, q::BitmapRangeComparison, q::StringTokenSearch,
        q::ArithmeticQueryParams, q::RangeQueryParams, q::ArithmeticComparisonType, q::RangeComparisonType,
        op::FileOffset, op::Length, op::ActionStatus, op::StatusCode, op::Permission, op::PermissionLevel, op::ActionHeader, op::StatusType,
        op::InterfaceStatusOperation, op::ResponseTagHeader, op::ChunkStep, op::LogicOp, op::ForwardHeader, op::IndirectForwardHeader, op::RequestTagHeader,
        OpCode, data::FileHeader, data::FilePermissions, data::FileProperties, data::UserPermissions, data::StorageClass, data::ActionCondition,
        net::Addressee, net::NlsMethod, net::AddressType, net::Frame, net::Control, net::HoppingControl,
        Dash7InterfaceConfiguration, LoRaWANInterfaceConfiguration,
        InterfaceConfiguration, IndirectInterface, ses::QoS, ses::RetryMode, ses::ResponseMode, ses::InterfaceType,
        phy::Channel, phy::ChannelHeader, phy::ChannelStatusIdentifier, phy::SubBand, phy::Bandwidth, phy::ChannelBand, phy::ChannelClass,
        phy::ChannelCoding, phy::CsmaCaMode,
        link::AccessProfile, link::SubProfile, link::AccessClass, link::BackgroundFrame, link::ForegroundFrameControl,
        link::BackgroundFrameControl, tr::Frame, tr::Control, tr::AckTemplate, tr::GroupCondition, VarInt, Command,
    );
    // operands take the code of their action
    macro_rules! operand {
        ($($v:ident, $t:ty, $code:expr);* $(;)?) => {$(
            let a = Action::$v(<$t>::default());
            ensure!(a.deku_id() == Ok(OpCode($code)), "{:?} is {:?}", a, a.deku_id());
            let e = match a.enc() {
                Ok(e) => e,
                Err(e) => return fail(format!("{:?} does not encode: {:?}", a, e)),
            };
            ensure!(e[0] & 0x3F == $code, "{:?} encodes to {}", a, hex(&e));
            let d = Action::whole(&e);
            ensure!(matches!(d, Ok(Action::$v(_))), "{:?} encodes to {}, which decodes to {:?}", a, hex(&e), d);
            ensure!(d.unwrap().enc() == Ok(e.clone()), "{:?} encodes to {}, which encodes otherwise once decoded", a, hex(&e));
            o.tag("default actions");
        )*};
    }
    operand!(
        Nop, op::Nop, 0; ReadFileData, op::ReadFileData, 1; ReadFileProperties, op::FileId, 2; WriteFileData, op::FileData, 4; WriteFileDataFlush, op::FileData, 5;
        WriteFileProperties, op::FileProperties, 6; ActionQuery, op::ActionQuery, 8; BreakQuery, op::ActionQuery, 9; PermissionRequest, op::PermissionRequest, 10;
        VerifyChecksum, op::ActionQuery, 11; ExistFile, op::FileId, 16; CreateNewFile, op::FileProperties, 17; DeleteFile, op::FileId, 18; RestoreFile, op::FileId, 19;
        FlushFile, op::FileId, 20; CopyFile, op::CopyFile, 23; ExecuteFile, op::FileId, 31; ReturnFileData, op::FileData, 32; ReturnFileProperties, op::FileProperties, 33;
        Status, op::StatusOperand, 34; ResponseTag, op::ResponseTag, 35; Chunk, op::Chunk, 48; Logic, op::Logic, 49; Forward, op::Forward, 50;
        IndirectForward, op::IndirectForward, 51; RequestTag, op::RequestTag, 52; Extension, op::Extension, 63;
    );
    let _ = hash(b"");
    Ok(())
}
