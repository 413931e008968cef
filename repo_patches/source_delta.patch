From 1095ff387c5692318963172fd3388a670d570f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 01/18] fix: drop only the initialised elements when reading an
 array fails

The drop guard's base pointer was advanced with every element, so on a failed
read it dropped a slice starting past the initialised elements (and past the
end of the array).
---
 dash7/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..ae71864 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -188,8 +188,8 @@ where
 
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-        data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
+        // write through the dropper's own pointer, so that it stays valid for the drop
+        unsafe { transient_dropper.base_ptr.add(i).write(value) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0


From 8e0ad1afffebdd239bd60a897deeb84456c59c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 02/18] fix: do not print every decoded value to stdout

Decoding is a library call: it must not write to the application's stdout (nor
panic when stdout is closed).
---
 dash7/src/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index ae71864..66af224 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,11 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From e425fa7a847a78d3fac4d5ee27c538dc0c1e9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 03/18] fix: count UNKNOWN_ERROR (0x80) as an error status

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..9b1ff97 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -47,7 +47,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode::UNKNOWN_ERROR
     }
 }
 
-- 
2.43.0


From 5e8d0d1f00cd9b4b93e991ef6c113e03d84e94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 04/18] fix: report an oversized VarInt mantissa as such

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From a6b61c3f2537ce076520d68f16ff4f1e34f112c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 05/18] fix: read the string token search mask only when it is
 present

Like the other queries: without a mask, the value was read as the mask, and
whatever followed as the value.
---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 22dad53484b01ea58aa04c0345483a10816cdd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 06/18] fix: read and write the TX status opcode in the
 action's first byte

The 6 bits of padding after the status type are the opcode itself, which was
then read from (and written to) the operand.
---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 0df93d0c2d0fb3fc8a186dc19d3a31607510b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 07/18] fix: do not count the peeked opcode as read, nor ignore
 a failed seek

Peeking at the opcode left the reader's bit count one byte ahead per action, so
the remaining input was reported short, trailing data was accepted and
discarded, and decoding a network frame with actions panicked.
---
 dash7/src/app/action.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..e704411 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -168,7 +168,10 @@ impl<'a> DekuReader<'a, ()> for Action {
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
         // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        reader.bits_read -= u8::BITS as usize;
 
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
-- 
2.43.0


From 66d0080e25f0a16dd5f9dfcc49720beff0e210c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:58 +0000
Subject: [PATCH 08/18] fix: do not miscount or misread the input at the end of
 a command

Reader::end counts the byte it peeks at as read once more, so the remaining
input after an indirect forward was reported short (or as none), and takes an
I/O error for a null byte, so that a failing reader produced Nop actions.
---
 dash7/src/app/command.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..b729b4e 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -50,7 +50,7 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? && !Command::at_end(reader)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
@@ -62,6 +62,26 @@ impl<'a> DekuReader<'a, u32> for Command {
 }
 
 impl Command {
+    /// Whether there is nothing left to read.
+    /// Unlike `Reader::end`, this does not count the byte it peeks at as read, and an I/O error is
+    /// returned instead of taken for a null byte.
+    fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
+    where
+        R: no_std_io::Read + no_std_io::Seek,
+    {
+        if !reader.rest().is_empty() {
+            return Ok(false);
+        }
+
+        let input = reader.as_mut();
+        match input.read_exact(&mut [0u8; 1]) {
+            Ok(()) => input.seek_relative(-1).map(|_| false),
+            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => Ok(true),
+            Err(err) => Err(err),
+        }
+        .map_err(|err| DekuError::Io(err.kind()))
+    }
+
     pub fn from_reader<'a, R>(input: (&'a mut R, usize)) -> Result<(usize, Self), DekuError>
     where
         R: no_std_io::Read + no_std_io::Seek,
-- 
2.43.0


From 793a594c346230f5cee292f1fd3e940451ce568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 09/18] fix: measure a frame's length from its own start, not
 the stream's

The absolute stream position made a foreground frame decode differently (or not
at all) when it was not the first thing in its stream.
---
 dash7/src/app/command.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index b729b4e..5e490d1 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -6,7 +6,7 @@ use std::fmt::{self, Display};
 use alloc::fmt;
 
 use deku::{
-    no_std_io::{self, Cursor, Seek},
+    no_std_io::{self, Cursor},
     prelude::*,
 };
 
@@ -39,18 +39,11 @@ impl<'a> DekuReader<'a, u32> for Command {
     {
         let mut command = Command { actions: vec![] };
 
-        let valid_length = |r: &mut Reader<R>, l: u32| -> Result<bool, DekuError> {
-            Ok(match l {
-                0 => true,
-                _ => {
-                    r.stream_position()
-                        .map_err(|err| DekuError::Io(err.kind()))?
-                        < (l as u64)
-                }
-            })
-        };
+        // count from where this reader started: the stream may hold something else before that
+        let valid_length =
+            |r: &Reader<R>, l: u32| -> bool { l == 0 || ((r.bits_read / 8) as u64) < (l as u64) };
 
-        while valid_length(reader, length)? && !Command::at_end(reader)? {
+        while valid_length(reader, length) && !Command::at_end(reader)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
-- 
2.43.0


From 4e2d8d17cacf9107e46b24f26d861cbf6f70c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 10/18] fix: make the network and transport control fields
 whole bytes

The transport control field was 7 bits, and the network one 9 bits where the
security method takes 4, so everything behind them was read and written out of
alignment: transport frames (and wizzilab network frames) did not decode back
from their own encoding.
---
 dash7/src/network/network.rs | 2 +-
 dash7/src/transport/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dash7/src/network/network.rs b/dash7/src/network/network.rs
index 67a00cd..0dbab19 100644
--- a/dash7/src/network/network.rs
+++ b/dash7/src/network/network.rs
@@ -13,7 +13,7 @@ pub struct Control {
 
     origin_address_type: AddressType,
 
-    #[deku(pad_bits_before = "1")]
+    #[cfg_attr(feature = "_wizzilab", deku(pad_bits_before = "1"))]
     nls_method: NlsMethod,
 }
 
diff --git a/dash7/src/transport/mod.rs b/dash7/src/transport/mod.rs
index e278220..950ad87 100644
--- a/dash7/src/transport/mod.rs
+++ b/dash7/src/transport/mod.rs
@@ -35,7 +35,7 @@ pub struct Control {
     pub is_ack_not_void: bool,
     #[deku(bits = 1)]
     pub is_ack_record_requested: bool,
-    #[deku(bits = 1)]
+    #[deku(bits = 1, pad_bits_after = "1")]
     pub has_agc: bool,
 }
 
-- 
2.43.0


From cda59a5853a81a76d36c3e936c5296d715e3b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:09 +0000
Subject: [PATCH 11/18] fix: keep length prefixed operands within their
 declared length

File data and interface statuses of a known type were decoded without regard for the
length in front of them: a shorter one swallowed the actions that follow, the bytes of a
longer one were taken for actions.
---
 dash7/src/app/interface_final.rs | 11 +----------
 dash7/src/app/operation/mod.rs   | 23 +++++++++++------------
 dash7/src/utils.rs               | 31 +++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 6c45ed1..6a3612a 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -4,16 +4,7 @@ use deku::prelude::*;
 use super::action::OpCode;
 use super::operation::{Length, Status};
 use crate::session::{InterfaceFinalStatus, InterfaceTxStatus};
-
-fn read_length_prefixed<'a, R, T, L, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
-where
-    T: DekuReader<'a, (C, L)>,
-    Length: Into<L>,
-    R: Read + Seek,
-{
-    let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-    T::from_reader_with_ctx(reader, (ctx, length.into()))
-}
+use crate::utils::read_length_prefixed;
 
 fn write_length_prefixed<W, T, C>(writer: &mut Writer<W>, item: &T, ctx: C) -> Result<(), DekuError>
 where
diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 9b1ff97..a01bb6f 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,7 +5,7 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
-use crate::utils::write_length_prefixed;
+use crate::utils::{read_bytes, read_length_prefixed, write_length_prefixed};
 use crate::{data::FileHeader, file::File, session::InterfaceStatus};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
 
@@ -167,7 +167,15 @@ impl FileData {
     {
         let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         let file_id = offset.file_id.try_into()?;
-        File::from_reader_with_ctx(reader, (file_id, Into::<u32>::into(length)))
+
+        // Never look beyond the data of this operand
+        let data = read_bytes(reader, length)?;
+        match File::from_bytes((&data, 0), file_id, length.into()) {
+            Ok(((rest, _), file)) if rest.is_empty() => Ok(file),
+            // Not the whole file: keep the data as is
+            Ok(_) | Err(DekuError::Incomplete(_)) => Ok(File::Other(data)),
+            Err(err) => Err(err),
+        }
     }
 
     fn write<W>(writer: &mut Writer<W>, data: &File, offset: &FileOffset) -> Result<(), DekuError>
@@ -352,16 +360,7 @@ impl InterfaceStatusOperation {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        // Subiot v0.0 was missing the length field
-        #[allow(unused_assignments)]
-        let mut length = Length(0);
-
-        #[cfg(not(feature = "subiot_v0_0"))]
-        {
-            length = Length::from_reader_with_ctx(reader, ())?;
-        }
-
-        InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
+        read_length_prefixed(reader, interface_type)
     }
 
     #[cfg(not(feature = "subiot_v0_0"))]
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 66af224..c503ca8 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -134,6 +134,37 @@ where
     Ok(())
 }
 
+/// Read exactly `length` bytes
+pub fn read_bytes<R>(reader: &mut Reader<R>, length: Length) -> Result<Vec<u8>, DekuError>
+where
+    R: Read + Seek,
+{
+    Vec::<u8>::from_reader_with_ctx(
+        reader,
+        Limit::new_byte_size(ByteSize(Into::<usize>::into(length))),
+    )
+}
+
+/// Read a length prefixed item, that has to take up exactly that length
+pub fn read_length_prefixed<'a, R, T, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
+where
+    T: DekuReader<'a, (C, u32)>,
+    R: Read + Seek,
+{
+    let length = Length::from_reader_with_ctx(reader, ())?;
+    let data = read_bytes(reader, length)?;
+
+    let mut cursor = Cursor::new(data.as_slice());
+    let mut data_reader = Reader::new(&mut cursor);
+    let item = T::from_reader_with_ctx(&mut data_reader, (ctx, length.into()))?;
+    if data_reader.bits_read != data.len() * 8 {
+        return Err(DekuError::Parse(Cow::Borrowed(
+            "Item does not match its length",
+        )));
+    }
+    Ok(item)
+}
+
 /// Read and convert to String
 pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String, DekuError>
 where
-- 
2.43.0


From 657ca14bdb3ef5675d79d25b716cce05f10567b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 12/18] fix: do not allocate for data that is not there

A query of a few bytes could reserve up to 1 GiB for a mask or value, and a file of unknown
type up to 4 GiB, as counted vectors allocate their whole declared size up front.
---
 dash7/src/app/query.rs | 14 +++++++-------
 dash7/src/file/mod.rs  |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index 7f84175..c064ddf 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -86,7 +86,7 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +114,10 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +149,7 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +189,7 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +228,10 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/mod.rs b/dash7/src/file/mod.rs
index 23bee7a..a36f0fb 100644
--- a/dash7/src/file/mod.rs
+++ b/dash7/src/file/mod.rs
@@ -202,7 +202,7 @@ pub enum File {
     NwlSecurityKey(SecurityKey),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 impl Default for File {
-- 
2.43.0


From 4d2708d4d0507c54e5c1280f17cfd9fa3fc490ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 13/18] fix: pin the byte order of every multi byte field

Fields without an explicit byte order followed the host's: the same frame or file decoded
differently on a big endian machine. Keep what little endian hosts have always done.
---
 dash7/src/app/interface.rs           | 2 ++
 dash7/src/file/security_key.rs       | 1 +
 dash7/src/link/frame.rs              | 3 +++
 dash7/src/session/interface_final.rs | 2 +-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index def32e8..225d988 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -69,8 +69,10 @@ pub struct LoRaWANABPInterfaceConfiguration {
     #[deku(count = "16")]
     pub app_session_key: Vec<u8>,
 
+    #[deku(endian = "little")]
     pub device_address: u32,
 
+    #[deku(endian = "little")]
     pub network_id: u32,
 }
 
diff --git a/dash7/src/file/security_key.rs b/dash7/src/file/security_key.rs
index 2298fcc..9bbbb9a 100644
--- a/dash7/src/file/security_key.rs
+++ b/dash7/src/file/security_key.rs
@@ -3,5 +3,6 @@ use deku::prelude::*;
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 pub struct SecurityKey {
     // TODO: not sure if u128 is available on all archs
+    #[deku(endian = "little")]
     pub key: u128,
 }
diff --git a/dash7/src/link/frame.rs b/dash7/src/link/frame.rs
index 51d246a..8900dbe 100644
--- a/dash7/src/link/frame.rs
+++ b/dash7/src/link/frame.rs
@@ -17,7 +17,9 @@ pub struct BackgroundFrameControl {
 pub struct BackgroundFrame {
     subnet: u8,
     control: BackgroundFrameControl,
+    #[deku(endian = "little")]
     payload: u16,
+    #[deku(endian = "little")]
     crc16: u16,
 }
 
@@ -40,5 +42,6 @@ pub struct ForegroundFrame {
 
     #[deku(ctx = "Into::<u32>::into(*length)")]
     frame: network::Frame,
+    #[deku(endian = "little")]
     crc16: u16,
 }
diff --git a/dash7/src/session/interface_final.rs b/dash7/src/session/interface_final.rs
index fd7d57f..436c2ec 100644
--- a/dash7/src/session/interface_final.rs
+++ b/dash7/src/session/interface_final.rs
@@ -82,7 +82,7 @@ pub struct Dash7InterfaceTxStatus {
     /// D7A Error
     pub error: InterfaceFinalStatusCode,
     /// End transmission date using the local RTC time stamp
-    #[deku(pad_bits_before = "24")]
+    #[deku(pad_bits_before = "24", endian = "little")]
     pub lts: u32,
     /// Addressee
     pub addressee: Addressee,
-- 
2.43.0


From 2ed295019bc83bfb1c00a1bc362dae68733cdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 14/18] fix: print the content of files without a known
 structure

The cli asked for zero bytes of them and always printed an empty file.
---
 dash7-cli/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..cd37019 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
-- 
2.43.0


From 14589715c49fd5b0b4ea0b4e61f4b9cb72689f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 15/18] fix: refuse to write a channel status list that its
 length cannot describe

More than 255 channel statuses, or ones added without an update, were written behind a
length that does not match them, which then decodes as something else.
---
 dash7/src/file/phy_status.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dash7/src/file/phy_status.rs b/dash7/src/file/phy_status.rs
index 1609071..6e21368 100644
--- a/dash7/src/file/phy_status.rs
+++ b/dash7/src/file/phy_status.rs
@@ -16,7 +16,10 @@ pub struct PhyStatus {
     #[deku(update = "self.channel_status.len()")]
     channel_status_list_length: u8,
 
-    #[deku(count = "*channel_status_list_length")]
+    #[deku(
+        count = "*channel_status_list_length",
+        assert = "channel_status.len() == usize::from(*channel_status_list_length)"
+    )]
     pub channel_status: Vec<ChannelStatus>,
 }
 
-- 
2.43.0


From d932b0075a15d0e30f55cb87fa586b52f45de4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 16/18] fix: keep a length beyond 4 GiB out of range instead of
 wrapping it

---
 dash7/src/app/operation/length.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/length.rs b/dash7/src/app/operation/length.rs
index 29ca822..ce4f37f 100644
--- a/dash7/src/app/operation/length.rs
+++ b/dash7/src/app/operation/length.rs
@@ -33,7 +33,8 @@ impl Into<usize> for Length {
 
 impl From<usize> for Length {
     fn from(value: usize) -> Self {
-        Self(value as u32)
+        // what does not fit must not encode as some other length
+        Self(u32::try_from(value).unwrap_or(u32::MAX))
     }
 }
 
-- 
2.43.0


From e73848e5969e701e3ea28356fded794afb8b0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 17/18] fix: do not report an item that its length is too short
 for as incomplete input

---
 dash7/src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index c503ca8..4e367e9 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -156,7 +156,14 @@ where
 
     let mut cursor = Cursor::new(data.as_slice());
     let mut data_reader = Reader::new(&mut cursor);
-    let item = T::from_reader_with_ctx(&mut data_reader, (ctx, length.into()))?;
+    let item =
+        T::from_reader_with_ctx(&mut data_reader, (ctx, length.into())).map_err(|err| match err {
+            // all of the declared length is there: more input would not help
+            DekuError::Incomplete(_) => {
+                DekuError::Parse(Cow::Borrowed("Item does not match its length"))
+            }
+            err => err,
+        })?;
     if data_reader.bits_read != data.len() * 8 {
         return Err(DekuError::Parse(Cow::Borrowed(
             "Item does not match its length",
-- 
2.43.0


From 8e684d45739c3337a5b94c8deb0c1b3328015ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 18/18] fix: refuse to encode LoRaWAN keys and identifiers of
 the wrong size

---
 dash7/src/app/interface.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index 225d988..523995b 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -49,13 +49,13 @@ pub struct LoRaWANInterfaceConfiguration {
 pub struct LoRaWANOTAAInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "device_eui.len() == 8")]
     pub device_eui: Vec<u8>,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "app_eui.len() == 8")]
     pub app_eui: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_key.len() == 16")]
     pub app_key: Vec<u8>,
 }
 
@@ -63,10 +63,10 @@ pub struct LoRaWANOTAAInterfaceConfiguration {
 pub struct LoRaWANABPInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "network_session_key.len() == 16")]
     pub network_session_key: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_session_key.len() == 16")]
     pub app_session_key: Vec<u8>,
 
     #[deku(endian = "little")]
-- 
2.43.0

