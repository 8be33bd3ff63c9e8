//! C-callable entry points over the *public* API of the crate under verification.
//! Used twice: as LLVM IR (symbolic execution) and as a cdylib (native replay).
#![allow(clippy::missing_safety_doc)]
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serdect::serde::de::{Deserialize, Deserializer, Visitor};
use serdect::serde::ser::{Impossible, Serialize, Serializer};

unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}

unsafe fn a57<'a>(p: *const u8) -> &'a [u8; 57] {
    &*(p as *const [u8; 57])
}

pub fn code(e: &E) -> u32 {
    match e {
        E::DecodeError => 1,
        E::DecodePubkeyError => 2,
        E::DecodeSignatureError => 3,
        E::InvalidLengthError => 4,
        E::InvalidPrivKeyLengthErrro(_) => 5,
        E::InvalidPubkeyLengthError => 6,
        E::InvalidSignatureLengthError => 7,
        E::InvalidSignatureError => 8,
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_derive(k: *const u8, out: *mut u8) {
    let r = g::ed448_derive_public(a57(k));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

#[no_mangle]
pub unsafe extern "C" fn vh_sign(k: *const u8, m: *const u8, n: usize, out: *mut u8) {
    let r = g::ed448_sign(a57(k), sl(m, n));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 114);
}

/// 0 = Ok(false), 1 = Ok(true), 100 + code = Err
#[no_mangle]
pub unsafe extern "C" fn vh_verify(p: *const u8, pn: usize, s: *const u8, sn: usize, m: *const u8, n: usize) -> u32 {
    match g::ed448_verify(sl(p, pn), sl(s, sn), sl(m, n)) {
        Ok(b) => b as u32,
        Err(e) => 100 + code(&e),
    }
}

/// 1 = Ok(()), 100 + code = Err
#[no_mangle]
pub unsafe extern "C" fn vh_verify_err(p: *const u8, pn: usize, s: *const u8, sn: usize, m: *const u8, n: usize) -> u32 {
    match g::ed448_verify_with_error(sl(p, pn), sl(s, sn), sl(m, n)) {
        Ok(()) => 1,
        Err(e) => 100 + code(&e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_private_to_secret(k: *const u8, out: *mut u8) {
    let r = g::private_to_secret(a57(k));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

#[no_mangle]
pub unsafe extern "C" fn vh_secret_to_public(k: *const u8, out: *mut u8) {
    let r = g::secret_to_public(a57(k));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

#[no_mangle]
pub unsafe extern "C" fn vh_private_to_public(k: *const u8, out: *mut u8) {
    let r = g::private_to_public(a57(k));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

#[no_mangle]
pub unsafe extern "C" fn vh_sign_by_private(k: *const u8, m: *const u8, n: usize, out: *mut u8) {
    let r = g::sign_by_private(a57(k), sl(m, n));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 114);
}

#[no_mangle]
pub unsafe extern "C" fn vh_sign_secret_nonce(k: *const u8, nn: *const u8, m: *const u8, n: usize, out: *mut u8) {
    let r = g::sign_with_secret_and_nonce(a57(k), a57(nn), sl(m, n));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 114);
}

#[no_mangle]
pub unsafe extern "C" fn vh_hex_to_private_key(p: *const u8, n: usize, out: *mut u8) {
    let r = g::hex_to_private_key(core::str::from_utf8_unchecked(sl(p, n)));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

#[no_mangle]
pub unsafe extern "C" fn vh_hex_to_signature(p: *const u8, n: usize, out: *mut u8) {
    let r = g::hex_to_signature(core::str::from_utf8_unchecked(sl(p, n)));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 114);
}

#[no_mangle]
pub unsafe extern "C" fn vh_hex_to_message_hash(p: *const u8, n: usize, out: *mut u8) {
    let r = g::hex_to_message_hash(core::str::from_utf8_unchecked(sl(p, n)));
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 32);
}

#[no_mangle]
pub unsafe extern "C" fn vh_generate(out: *mut u8) {
    let r = g::ed448_generate_key();
    core::ptr::copy_nonoverlapping(r.as_ptr(), out, 57);
}

// ---- key objects -----------------------------------------------------------

unsafe fn put_signing(k: &SigningKey, sec: *mut u8, ver: *mut u8) {
    let b = k.to_bytes();
    core::ptr::copy_nonoverlapping(b.as_ptr(), sec, 57);
    let v = k.verifying_key().as_bytes();
    core::ptr::copy_nonoverlapping(v.as_ptr(), ver, 57);
}

/// how: 0 from_slice, 1 from_bytes, 2 from_str, 3 From<SecretKey::from_bytes>, 4 From<SecretKey::from_str>
/// returns 1 when built, 100 + code on Err
#[no_mangle]
pub unsafe extern "C" fn vh_sk_from_slice(p: *const u8, n: usize, sec: *mut u8, ver: *mut u8) -> u32 {
    put_signing(&SigningKey::from_slice(sl(p, n)), sec, ver);
    1
}

#[no_mangle]
pub unsafe extern "C" fn vh_sk_from_bytes(p: *const u8, n: usize, sec: *mut u8, ver: *mut u8) -> u32 {
    match SigningKey::from_bytes(sl(p, n)) {
        Ok(k) => {
            put_signing(&k, sec, ver);
            1
        }
        Err(e) => {
            if let E::InvalidPrivKeyLengthErrro(l) = &e {
                if *l != n {
                    return 99;
                }
            }
            100 + code(&e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_sk_from_str(p: *const u8, n: usize, sec: *mut u8, ver: *mut u8) -> u32 {
    put_signing(&SigningKey::from_str(core::str::from_utf8_unchecked(sl(p, n))), sec, ver);
    1
}

#[no_mangle]
pub unsafe extern "C" fn vh_sk_from_secret_bytes(p: *const u8, n: usize, sec: *mut u8, ver: *mut u8) -> u32 {
    put_signing(&SigningKey::from(SecretKey::from_bytes(sl(p, n))), sec, ver);
    1
}

#[no_mangle]
pub unsafe extern "C" fn vh_sk_from_secret_str(p: *const u8, n: usize, sec: *mut u8, ver: *mut u8) -> u32 {
    put_signing(&SigningKey::from(SecretKey::from_str(core::str::from_utf8_unchecked(sl(p, n)))), sec, ver);
    1
}

/// SigningKey::random with a generator that hands out the given bytes
#[no_mangle]
pub unsafe extern "C" fn vh_sk_random(p: *const u8, sec: *mut u8, ver: *mut u8) -> u32 {
    let mut r = rnd::Feed(p);
    put_signing(&SigningKey::random(&mut r), sec, ver);
    1
}

mod rnd {
    use rand::{CryptoRng, Error, RngCore};
    /// hands out consecutive bytes of a buffer
    pub struct Feed(pub *const u8);
    impl Feed {
        fn take(&mut self, out: &mut [u8]) {
            unsafe {
                core::ptr::copy_nonoverlapping(self.0, out.as_mut_ptr(), out.len());
                self.0 = self.0.add(out.len());
            }
        }
    }
    impl RngCore for Feed {
        fn next_u32(&mut self) -> u32 {
            let mut b = [0u8; 4];
            self.take(&mut b);
            u32::from_le_bytes(b)
        }
        fn next_u64(&mut self) -> u64 {
            let mut b = [0u8; 8];
            self.take(&mut b);
            u64::from_le_bytes(b)
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            self.take(dest)
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.take(dest);
            Ok(())
        }
    }
    impl CryptoRng for Feed {}
}

/// sign_prehash through a SigningKey: 171 bytes, n of them via as_slice
#[no_mangle]
pub unsafe extern "C" fn vh_sign_prehash(k: *const u8, m: *const u8, n: usize, out: *mut u8) -> u32 {
    let key = SigningKey::from_slice(sl(k, 57));
    match key.sign_prehash(sl(m, n)) {
        Ok(s) => {
            let b = s.as_slice();
            core::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
            b.len() as u32
        }
        Err(e) => 1000 + code(&e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_vk_from_bytes(p: *const u8, n: usize, out: *mut u8) -> u32 {
    let v = VerifyingKey::from_bytes(sl(p, n));
    let b = v.as_bytes();
    core::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    b.len() as u32
}

#[no_mangle]
pub unsafe extern "C" fn vh_vk_from_str(p: *const u8, n: usize, out: *mut u8) -> u32 {
    let v = VerifyingKey::from_str(core::str::from_utf8_unchecked(sl(p, n)));
    let b = v.as_bytes();
    core::ptr::copy_nonoverlapping(b.as_ptr(), out, b.len());
    b.len() as u32
}

// ---- serde -------------------------------------------------------------------

struct Sink {
    out: *mut u8,
}

#[derive(Debug)]
struct SErr;
impl core::fmt::Display for SErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for SErr {}
impl serdect::serde::ser::Error for SErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        SErr
    }
}

macro_rules! no {
    ($($f:ident($t:ty)),*) => {$(fn $f(self, _v: $t) -> Result<usize, SErr> { Err(SErr) })*};
}

impl Serializer for Sink {
    type Ok = usize;
    type Error = SErr;
    type SerializeSeq = Impossible<usize, SErr>;
    type SerializeTuple = Impossible<usize, SErr>;
    type SerializeTupleStruct = Impossible<usize, SErr>;
    type SerializeTupleVariant = Impossible<usize, SErr>;
    type SerializeMap = Impossible<usize, SErr>;
    type SerializeStruct = Impossible<usize, SErr>;
    type SerializeStructVariant = Impossible<usize, SErr>;
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32),
        serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]), serialize_unit_struct(&'static str));
    fn serialize_str(self, v: &str) -> Result<usize, SErr> {
        unsafe { core::ptr::copy_nonoverlapping(v.as_ptr(), self.out, v.len()) };
        Ok(v.len())
    }
    fn serialize_none(self) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_unit(self) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<usize, SErr> {
        Err(SErr)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SErr> {
        Err(SErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SErr> {
        Err(SErr)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SErr> {
        Err(SErr)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SErr> {
        Err(SErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SErr> {
        Err(SErr)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SErr> {
        Err(SErr)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SErr> {
        Err(SErr)
    }
}

/// a deserializer holding one string, human readable or not
struct Src<'a> {
    s: &'a str,
    human: bool,
}

#[derive(Debug)]
struct DErr;
impl core::fmt::Display for DErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for DErr {}
impl serdect::serde::de::Error for DErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        DErr
    }
}

macro_rules! fwd {
    ($($f:ident),*) => {$(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DErr> { v.visit_str(self.s) })*};
}

impl<'de, 'a> Deserializer<'de> for Src<'a> {
    type Error = DErr;
    fwd!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64,
         deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf,
         deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier,
         deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, DErr> {
        v.visit_str(self.s)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// serialise a key object built from 57 bytes; returns the string length (0 on error)
#[no_mangle]
pub unsafe extern "C" fn vh_ser_secret(k: *const u8, out: *mut u8) -> usize {
    SecretKey::from_bytes(sl(k, 57)).serialize(Sink { out }).unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn vh_ser_verifying(k: *const u8, out: *mut u8) -> usize {
    VerifyingKey::from_bytes(sl(k, 57)).serialize(Sink { out }).unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn vh_ser_signing(k: *const u8, out: *mut u8) -> usize {
    SigningKey::from_slice(sl(k, 57)).serialize(Sink { out }).unwrap_or(0)
}

/// 1 = Ok, 0 = Err
#[no_mangle]
pub unsafe extern "C" fn vh_de_secret(p: *const u8, n: usize, human: u32, sec: *mut u8, ver: *mut u8) -> u32 {
    let s = core::str::from_utf8_unchecked(sl(p, n));
    match SecretKey::deserialize(Src { s, human: human != 0 }) {
        Ok(k) => {
            put_signing(&SigningKey::from(k), sec, ver);
            1
        }
        Err(_) => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_de_verifying(p: *const u8, n: usize, human: u32, out: *mut u8) -> u32 {
    let s = core::str::from_utf8_unchecked(sl(p, n));
    match VerifyingKey::deserialize(Src { s, human: human != 0 }) {
        Ok(k) => {
            core::ptr::copy_nonoverlapping(k.as_bytes().as_ptr(), out, 57);
            1
        }
        Err(_) => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn vh_de_signing(p: *const u8, n: usize, human: u32, sec: *mut u8, ver: *mut u8) -> u32 {
    let s = core::str::from_utf8_unchecked(sl(p, n));
    match SigningKey::deserialize(Src { s, human: human != 0 }) {
        Ok(k) => {
            put_signing(&k, sec, ver);
            1
        }
        Err(_) => 0,
    }
}

/// equality of key objects; what: 0 secret, 1 verifying, 2 signing; the answer of == in bit 0, of != in bit 1
#[no_mangle]
pub unsafe extern "C" fn vh_eq_secret(a: *const u8, b: *const u8) -> u32 {
    let (x, y) = (SecretKey::from_bytes(sl(a, 57)), SecretKey::from_bytes(sl(b, 57)));
    (x == y) as u32 | ((x != y) as u32) << 1
}

#[no_mangle]
pub unsafe extern "C" fn vh_eq_verifying(a: *const u8, b: *const u8) -> u32 {
    let (x, y) = (VerifyingKey::from_bytes(sl(a, 57)), VerifyingKey::from_bytes(sl(b, 57)));
    (x == y) as u32 | ((x != y) as u32) << 1
}

#[no_mangle]
pub unsafe extern "C" fn vh_eq_signing(a: *const u8, b: *const u8) -> u32 {
    let (x, y) = (SigningKey::from_slice(sl(a, 57)), SigningKey::from_slice(sl(b, 57)));
    (x == y) as u32 | ((x != y) as u32) << 1
}

/// the secret key object of a signing key, made into a signing key again
#[no_mangle]
pub unsafe extern "C" fn vh_sk_secret(k: *const u8, sec: *mut u8, ver: *mut u8) -> u32 {
    let key = SigningKey::from_slice(sl(k, 57));
    let c = key;
    let again = SigningKey::from(*c.clone().secret_key());
    put_signing(&again, sec, ver);
    1
}
