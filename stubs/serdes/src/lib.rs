//! Stand-in for Expander's `serdes` crate (absent from this sandbox): same trait shape,
//! little-endian fixed width integers, u64 lengths.
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::io::{Read, Write};
pub use serdes_derive::ExpSerde;

#[derive(Debug)]
pub enum SerdeError { IoError(std::io::Error), DeserializeError }
impl From<std::io::Error> for SerdeError { fn from(e: std::io::Error) -> Self { SerdeError::IoError(e) } }
impl std::fmt::Display for SerdeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for SerdeError {}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}
macro_rules! prim { ($($t:ty),*) => {$(
impl ExpSerde for $t {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { w.write_all(&self.to_le_bytes())?; Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
})*} }
prim!(u8, u32, u64, i32, i64, u128, usize);
impl ExpSerde for ethnum::U256 {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { w.write_all(&self.to_le_bytes())?; Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let mut b = [0u8; 32]; r.read_exact(&mut b)?; Ok(ethnum::U256::from_le_bytes(b)) }
}
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> { (*self as u8).serialize_into(w) }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> { match u8::deserialize_from(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerdeError::DeserializeError) } }
}
impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _w: W) -> SerdeResult<()> { Ok(()) }
    fn deserialize_from<R: Read>(_r: R) -> SerdeResult<Self> { Ok(()) }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.len().serialize_into(&mut w)?; w.write_all(self.as_bytes())?; Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let v = Vec::<u8>::deserialize_from(&mut r)?; String::from_utf8(v).map_err(|_| SerdeError::DeserializeError) }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.len().serialize_into(&mut w)?; for x in self { x.serialize_into(&mut w)?; } Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let n = usize::deserialize_from(&mut r)?; let mut v = Vec::new(); for _ in 0..n { v.push(T::deserialize_from(&mut r)?); } Ok(v) }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { match self { None => false.serialize_into(w), Some(x) => { true.serialize_into(&mut w)?; x.serialize_into(w) } } }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { Ok(if bool::deserialize_from(&mut r)? { Some(T::deserialize_from(r)?) } else { None }) }
}
impl<T: ExpSerde, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { for x in self { x.serialize_into(&mut w)?; } Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let mut v = Vec::new(); for _ in 0..N { v.push(T::deserialize_from(&mut r)?); } v.try_into().map_err(|_| SerdeError::DeserializeError) }
}
impl<A: ExpSerde, B: ExpSerde> ExpSerde for (A, B) {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.0.serialize_into(&mut w)?; self.1.serialize_into(&mut w) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { Ok((A::deserialize_from(&mut r)?, B::deserialize_from(&mut r)?)) }
}
impl<A: ExpSerde, B: ExpSerde, C: ExpSerde> ExpSerde for (A, B, C) {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.0.serialize_into(&mut w)?; self.1.serialize_into(&mut w)?; self.2.serialize_into(&mut w) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { Ok((A::deserialize_from(&mut r)?, B::deserialize_from(&mut r)?, C::deserialize_from(&mut r)?)) }
}
impl<K: ExpSerde + Eq + Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.len().serialize_into(&mut w)?; for (k, v) in self { k.serialize_into(&mut w)?; v.serialize_into(&mut w)?; } Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let n = usize::deserialize_from(&mut r)?; let mut m = HashMap::new(); for _ in 0..n { let k = K::deserialize_from(&mut r)?; let v = V::deserialize_from(&mut r)?; m.insert(k, v); } Ok(m) }
}
impl<K: ExpSerde + Ord, V: ExpSerde> ExpSerde for BTreeMap<K, V> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> { self.len().serialize_into(&mut w)?; for (k, v) in self { k.serialize_into(&mut w)?; v.serialize_into(&mut w)?; } Ok(()) }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> { let n = usize::deserialize_from(&mut r)?; let mut m = BTreeMap::new(); for _ in 0..n { let k = K::deserialize_from(&mut r)?; let v = V::deserialize_from(&mut r)?; m.insert(k, v); } Ok(m) }
}
