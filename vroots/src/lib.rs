//! Roots of the verified call graph. Nothing here runs: each function only names public API of
//! libsecp256k1 / libsecp256k1-core so that its monomorphic MIR is reachable and gets dumped.
//! Types named Any* stand for "an arbitrary implementation of the trait"; the verifier gives their
//! methods uninterpreted contracts.
#![allow(unused_must_use, unused_variables, clippy::all)]
use digest::generic_array::{typenum::U32, GenericArray};
use libsecp256k1::curve::*;
use libsecp256k1::util::*;
use libsecp256k1::*;
use std::convert::TryFrom;

pub struct AnyRng;
impl rand::RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 { loop {} }
    fn next_u64(&mut self) -> u64 { loop {} }
    fn fill_bytes(&mut self, _d: &mut [u8]) { loop {} }
    fn try_fill_bytes(&mut self, _d: &mut [u8]) -> Result<(), rand::Error> { loop {} }
}

#[derive(Clone, Default)]
pub struct AnyDigest;
impl digest::Update for AnyDigest { fn update(&mut self, _d: impl AsRef<[u8]>) { loop {} } }
impl digest::FixedOutput for AnyDigest {
    type OutputSize = U32;
    fn finalize_into(self, _o: &mut GenericArray<u8, U32>) { loop {} }
    fn finalize_into_reset(&mut self, _o: &mut GenericArray<u8, U32>) { loop {} }
}
impl digest::Reset for AnyDigest { fn reset(&mut self) { loop {} } }

pub struct AnySer;
pub struct AnyOk;
#[derive(Debug)]
pub struct AnyErr;
impl std::fmt::Display for AnyErr { fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for AnyErr {}
impl serde::ser::Error for AnyErr { fn custom<T: std::fmt::Display>(_m: T) -> Self { loop {} } }
impl serde::de::Error for AnyErr { fn custom<T: std::fmt::Display>(_m: T) -> Self { loop {} } }
type Imp = serde::ser::Impossible<AnyOk, AnyErr>;
macro_rules! un { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<AnyOk, AnyErr> { loop {} })* } }
impl serde::Serializer for AnySer {
    type Ok = AnyOk; type Error = AnyErr;
    type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp;
    type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    un! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
          serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
          serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
          serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<AnyOk, AnyErr> { loop {} }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<AnyOk, AnyErr> { loop {} }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<AnyOk, AnyErr> { loop {} }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_tuple(self, _: usize) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, AnyErr> { loop {} }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, AnyErr> { loop {} }
    fn is_human_readable(&self) -> bool { loop {} }
}
pub struct AnyDe;
pub fn any_str() -> &'static str { loop {} }
pub fn any_bytes() -> &'static [u8] { loop {} }
macro_rules! de { ($($f:ident)*) => { $(fn $f<V: serde::de::Visitor<'de>>(self, _v: V) -> Result<V::Value, AnyErr> { loop {} })* } }
impl<'de> serde::Deserializer<'de> for AnyDe {
    type Error = AnyErr;
    de! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
          deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char
          deserialize_string deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map
          deserialize_identifier deserialize_ignored_any }
    fn deserialize_str<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, AnyErr> { v.visit_str(any_str()) }
    fn deserialize_bytes<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, AnyErr> { v.visit_bytes(any_bytes()) }
    fn deserialize_unit_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, _: usize, _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn deserialize_tuple_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: usize, _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _v: V) -> Result<V::Value, AnyErr> { loop {} }
    fn is_human_readable(&self) -> bool { loop {} }
}

// ---- libsecp256k1 ----
pub fn r_pubkey(s: &SecretKey, p: &[u8], f: Option<PublicKeyFormat>, a: &[u8; 65], b: &[u8; 33], k: &mut PublicKey, v: &[PublicKey], af: Affine,
                gc: &ECMultGenContext, vc: &ECMultContext) {
    PublicKey::from_secret_key_with_context(s, gc);
    PublicKey::from_secret_key(s);
    PublicKey::parse_slice(p, f);
    PublicKey::parse(a);
    PublicKey::parse_compressed(b);
    k.serialize();
    k.serialize_compressed();
    k.tweak_add_assign_with_context(s, vc);
    k.tweak_add_assign(s);
    k.tweak_mul_assign_with_context(s, vc);
    k.tweak_mul_assign(s);
    PublicKey::combine(v);
    let _: Affine = (*k).into();
    PublicKey::try_from(af);
    *k == v[0];
    k.clone();
}
pub fn r_serde(k: &PublicKey) {
    serde::Serialize::serialize(k, AnySer);
    <PublicKey as serde::Deserialize>::deserialize(AnyDe);
}
pub fn r_seckey(a: &[u8; 32], p: &[u8], k: &mut SecretKey, s: Scalar, f: &mut std::fmt::Formatter) {
    SecretKey::parse(a);
    SecretKey::parse_slice(p);
    SecretKey::random(&mut AnyRng);
    k.serialize();
    let t = k.clone();
    k.tweak_add_assign(&t);
    k.tweak_mul_assign(&t);
    k.inv();
    k.clear();
    k.is_zero();
    SecretKey::default();
    let _: Scalar = (*k).into();
    SecretKey::try_from(s);
    *k == t;
    std::fmt::LowerHex::fmt(k, f);
}
pub fn r_sig(a: &[u8; 64], p: &[u8], s: &mut Signature, m: &[u8; 32]) {
    Signature::parse_overflowing(a);
    Signature::parse_standard(a);
    Signature::parse_overflowing_slice(p);
    Signature::parse_standard_slice(p);
    Signature::parse_der(p);
    Signature::parse_der_lax(p);
    s.normalize_s();
    s.serialize();
    let d = s.serialize_der();
    d.len();
    d.is_empty();
    d.as_ref();
    *s == *s;
    Message::parse(m);
    Message::parse_slice(p).map(|m| m.serialize());
}
pub fn r_recid(b: u8) {
    RecoveryId::parse(b);
    if let Ok(r) = RecoveryId::parse_rpc(b) { r.serialize(); let _: u8 = r.into(); let _: i32 = r.into(); let _ = r == r; }
}
pub fn r_shared(p: &PublicKey, s: &SecretKey, c: &ECMultContext) {
    SharedSecret::<AnyDigest>::new_with_context(p, s, c);
    SharedSecret::<AnyDigest>::new(p, s).map(|x| x.as_ref().len());
}
pub fn r_ecdsa(m: &Message, s: &Signature, p: &PublicKey, r: &RecoveryId, k: &SecretKey, vc: &ECMultContext, gc: &ECMultGenContext) {
    verify_with_context(m, s, p, vc);
    verify(m, s, p);
    recover_with_context(m, s, r, vc);
    recover(m, s, r);
    sign_with_context(m, k, gc);
    sign(m, k);
}
// ---- libsecp256k1-core ----
pub fn r_scalar(a: &mut Scalar, b: &Scalar, w: usize, f: bool, p: &[u8; 32], q: &mut [u8; 32], c: subtle::Choice, u: u32, fm: &mut std::fmt::Formatter) {
    a.clear(); a.set_int(u); Scalar::from_int(u); a.bits(w, w); a.bits_var(w, w); a.cadd_bit(w, f); a.set_b32(p); a.b32(); a.fill_b32(q);
    a.is_zero(); a.is_one(); a.is_high(); a.cond_neg_assign(c); a.mul_in_place(b, b); a.shr_int(w); a.sqr_in_place(b); a.sqr();
    a.inv_in_place(b); a.inv(); a.inv_var(); a.is_even();
    Scalar::default(); *a + *b; &*a + b; *a += b; *a += *b; *a * *b; &*a * b; *a *= b; *a *= *b; -*a; -&*b; *a == *b;
    std::fmt::LowerHex::fmt(b, fm);
}
pub fn r_field(a: &mut Field, b: &Field, f: bool, p: &[u8; 32], q: &mut [u8; 32], u: u32, s: FieldStorage, t: &mut FieldStorage) {
    Field::new_raw(u, u, u, u, u, u, u, u, u, u); Field::new(u, u, u, u, u, u, u, u); Field::from_int(u);
    a.normalize(); a.normalize_weak(); a.normalize_var(); a.normalizes_to_zero(); a.normalizes_to_zero_var(); a.set_int(u);
    a.is_zero(); a.is_odd(); a.clear(); a.set_b32(p); a.fill_b32(q); a.b32(); a.neg_in_place(b, u); a.neg(u); a.mul_int(u);
    a.cmp_var(b); a.eq_var(b); a.mul_in_place(b, b); a.sqr_in_place(b); a.sqr(); a.sqrt(); a.inv(); a.inv_var(); a.is_quad_var();
    a.cmov(b, f); Field::default(); *a + *b; &*a + b; *a += b; *a += *b; *a * *b; &*a * b; *a *= b; *a *= *b; *a == *b; *a < *b; *a >= *b; Ord::cmp(&*a, b);
    FieldStorage::default(); FieldStorage::new(u, u, u, u, u, u, u, u); t.cmov(&s, f); let _: Field = s.into(); let _: FieldStorage = (*b).into();
}
pub fn r_group(a: &mut Affine, b: &Affine, x: &Field, f: bool, j: &mut Jacobian, k: &Jacobian, r: Option<&mut Field>, r2: Option<&mut Field>,
               s: AffineStorage, t: &mut AffineStorage, va: &mut [Affine], vj: &[Jacobian], vz: &[Field], g: &mut Field) {
    Affine::new(*x, *x); a.set_xy(x, x); a.set_xquad(x); a.set_xo_var(x, f); a.is_infinity(); a.is_valid_var(); a.neg_in_place(b); a.neg();
    a.set_gej(k); Affine::from_gej(k); a.set_gej_var(k); a.set_gej_zinv(k, x); a.clear(); set_table_gej_var(va, vj, vz); globalz_set_table_gej(va, g, vj, vz);
    Jacobian::new(*x, *x); j.set_infinity(); j.set_ge(b); Jacobian::from_ge(b); j.eq_x_var(x); j.neg_in_place(k); j.neg(); j.is_infinity(); j.has_quad_y_var();
    j.double_nonzero_in_place(k, None); j.double_var_in_place(k, r); j.double_var(None); j.add_var_in_place(k, k, r2); j.add_var(k, None);
    j.add_ge_in_place(k, b); j.add_ge(b); j.add_ge_var_in_place(k, b, None); j.add_ge_var(b, None); j.add_zinv_var_in_place(k, b, x); j.add_zinv_var(b, x);
    j.clear(); j.rescale(x); let _: Affine = s.into(); let _: AffineStorage = (*b).into(); AffineStorage::new(s.x, s.y); t.cmov(&s, f); *a == *b;
    Affine::default(); Jacobian::default(); AffineStorage::default();
}
pub fn r_tables(pj: &mut [Jacobian], z: &mut [Field], a: &Jacobian, vc: &ECMultContext, gc: &ECMultGenContext, b: &Affine, s: &Scalar, r: &mut Jacobian, id: u8,
                pg: [AffineStorage; ECMULT_TABLE_SIZE_G], pr: [[AffineStorage; 16]; 64]) {
    odd_multiples_table(pj, z, a);
    ECMultContext::new_boxed(); ECMultGenContext::new_boxed(); vc.inspect_raw(); gc.inspect_raw();
    vc.ecmult(r, a, s, s); vc.ecmult_const(r, b, s); gc.ecmult_gen(r, s);
    vc.verify_raw(s, s, b, s); vc.recover_raw(s, s, id, s); gc.sign_raw(s, s, s); vc.ecdh_raw::<AnyDigest>(b, s);
    unsafe { ECMultContext::new_from_raw(pg); ECMultGenContext::new_from_raw(pr); }
    let _ = (AFFINE_INFINITY, JACOBIAN_INFINITY, AFFINE_G);
}
pub fn r_decoder(p: &[u8], n: usize) {
    let mut d = Decoder::new(p);
    d.remaining_len(); d.read(); d.peek(n); d.peek_slice(n); d.skip(n); d.read_constructed_sequence(); d.read_len(); d.read_integer();
    d.read_seq_len_lax(); d.read_len_lax(); d.read_integer_lax();
}
