//! Offline stand-in for `prost`: the protobuf wire format (varint, length-delimited), with unknown
//! fields skipped, so that the real `build.rs` + `.proto` files + (de)serialisers of the repository run.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DecodeError(pub String);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EncodeError(pub String);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct UnknownEnumValue(pub i32);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "failed to decode Protobuf message: {}", self.0) }
}
impl std::error::Error for DecodeError {}
impl fmt::Display for UnknownEnumValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "unknown enumeration value {}", self.0) }
}
impl std::error::Error for UnknownEnumValue {}

pub trait Buf { fn chunk(&self) -> &[u8]; }
impl Buf for &[u8] { fn chunk(&self) -> &[u8] { self } }

pub trait Message: Default {
    fn encode_raw(&self, buf: &mut Vec<u8>);
    fn merge_field(&mut self, tag: u32, wire: u8, r: &mut wire::Reader) -> Result<(), DecodeError>;
    fn encode_to_vec(&self) -> Vec<u8> { let mut b = Vec::new(); self.encode_raw(&mut b); b }
    fn encoded_len(&self) -> usize { self.encode_to_vec().len() }
    fn encode(&self, buf: &mut Vec<u8>) -> Result<(), EncodeError> { self.encode_raw(buf); Ok(()) }
    fn decode<B: Buf>(buf: B) -> Result<Self, DecodeError> {
        let mut m = Self::default();
        m.merge(buf.chunk())?;
        Ok(m)
    }
    fn merge(&mut self, buf: &[u8]) -> Result<(), DecodeError> {
        let mut r = wire::Reader { b: buf, i: 0 };
        while r.i < r.b.len() {
            let key = r.varint()?;
            let (tag, w) = ((key >> 3) as u32, (key & 7) as u8);
            if tag == 0 { return Err(DecodeError("invalid tag value: 0".into())); }
            self.merge_field(tag, w, &mut r)?;
        }
        Ok(())
    }
}

pub mod wire {
    use super::DecodeError;
    pub struct Reader<'a> { pub b: &'a [u8], pub i: usize }
    impl<'a> Reader<'a> {
        pub fn varint(&mut self) -> Result<u64, DecodeError> {
            let mut v = 0u64;
            for n in 0..10 {
                let x = *self.b.get(self.i).ok_or_else(|| DecodeError("buffer underflow".into()))?;
                self.i += 1;
                v |= ((x & 0x7f) as u64) << (7 * n);
                if x < 0x80 { return Ok(v); }
            }
            Err(DecodeError("invalid varint".into()))
        }
        pub fn bytes(&mut self) -> Result<&'a [u8], DecodeError> {
            let n = self.varint()? as usize;
            if self.b.len() - self.i < n { return Err(DecodeError("buffer underflow".into())); }
            let s = &self.b[self.i..self.i + n];
            self.i += n;
            Ok(s)
        }
        pub fn string(&mut self) -> Result<String, DecodeError> {
            String::from_utf8(self.bytes()?.to_vec()).map_err(|_| DecodeError("invalid string value: data is not UTF-8 encoded".into()))
        }
        pub fn skip(&mut self, w: u8) -> Result<(), DecodeError> {
            match w {
                0 => { self.varint()?; }
                1 => { self.i += 8; }
                2 => { self.bytes()?; }
                5 => { self.i += 4; }
                _ => return Err(DecodeError(format!("invalid wire type value: {w}"))),
            }
            if self.i > self.b.len() { return Err(DecodeError("buffer underflow".into())); }
            Ok(())
        }
        pub fn expect(&self, w: u8, want: u8) -> Result<(), DecodeError> {
            if w != want { return Err(DecodeError(format!("invalid wire type: {w} (expected {want})"))); }
            Ok(())
        }
    }
    pub fn put_varint(b: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 { b.push((v as u8) | 0x80); v >>= 7; }
        b.push(v as u8);
    }
    pub fn key(b: &mut Vec<u8>, tag: u32, w: u8) { put_varint(b, ((tag as u64) << 3) | w as u64) }
    pub fn put_int(b: &mut Vec<u8>, tag: u32, v: u64) { key(b, tag, 0); put_varint(b, v) }
    pub fn put_bytes(b: &mut Vec<u8>, tag: u32, v: &[u8]) { key(b, tag, 2); put_varint(b, v.len() as u64); b.extend_from_slice(v) }
}
