use crate::datatypes::PrimitiveType;
pub trait NativeType: Copy + std::fmt::Debug + Default + PartialEq + Send + Sync + 'static { const PRIMITIVE: PrimitiveType; fn order(&self, o: &Self) -> std::cmp::Ordering; }
macro_rules! nt { ($($t:ty => $p:ident),*) => { $(impl NativeType for $t { const PRIMITIVE: PrimitiveType = PrimitiveType::$p; fn order(&self, o: &Self) -> std::cmp::Ordering { self.cmp(o) } })* } }
nt!(i8 => Int8, i16 => Int16, i32 => Int32, i64 => Int64, i128 => Int128, u8 => UInt8, u16 => UInt16, u32 => UInt32, u64 => UInt64);
impl NativeType for f32 { const PRIMITIVE: PrimitiveType = PrimitiveType::Float32; fn order(&self, o: &Self) -> std::cmp::Ordering { self.total_cmp(o) } }
impl NativeType for f64 { const PRIMITIVE: PrimitiveType = PrimitiveType::Float64; fn order(&self, o: &Self) -> std::cmp::Ordering { self.total_cmp(o) } }
pub trait Offset: Copy + Default + Send + Sync + std::fmt::Debug + PartialEq + 'static { const IS_LARGE: bool; fn us(&self) -> usize; fn of(n: usize) -> Self; }
impl Offset for i32 { const IS_LARGE: bool = false; fn us(&self) -> usize { *self as usize } fn of(n: usize) -> Self { n as i32 } }
impl Offset for i64 { const IS_LARGE: bool = true; fn us(&self) -> usize { *self as usize } fn of(n: usize) -> Self { n as i64 } }
/// integers usable as take/sort indices
pub trait Index: NativeType { fn to_usize(&self) -> usize; fn from_usize(n: usize) -> Self; }
macro_rules! ix { ($($t:ty),*) => { $(impl Index for $t { fn to_usize(&self) -> usize { *self as usize } fn from_usize(n: usize) -> Self { n as $t } })* } }
ix!(i32, i64, u32, u64);
