use crate::bitmap::Bitmap;
use crate::datatypes::{DataType, Field, IntervalUnit, PhysicalType, PrimitiveType};
use crate::error::Result;
use crate::offset::OffsetsBuffer;
use crate::types::{NativeType, Offset};
use std::any::Any;
use std::fmt::Debug;

pub trait Array: Send + Sync + Debug + 'static {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn len(&self) -> usize;
    fn data_type(&self) -> &DataType;
    fn validity(&self) -> Option<&Bitmap>;
    fn to_boxed(&self) -> Box<dyn Array>;
    fn slice_boxed(&self, offset: usize, length: usize) -> Box<dyn Array>;
    fn equals(&self, o: &dyn Array) -> bool;
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn is_null(&self, i: usize) -> bool { self.validity().map(|v| !v.get_bit(i)).unwrap_or(false) }
    fn is_valid(&self, i: usize) -> bool { !self.is_null(i) }
    fn null_count(&self) -> usize { self.validity().map(|v| v.unset_bits()).unwrap_or(0) }
    fn sliced(&self, offset: usize, length: usize) -> Box<dyn Array> {
        if length == 0 { return new_empty_array(self.data_type().clone()); }
        assert!(offset + length <= self.len(), "the offset of the new Buffer cannot exceed the existing length");
        self.slice_boxed(offset, length)
    }
}
impl AsRef<dyn Array> for dyn Array { fn as_ref(&self) -> &(dyn Array + 'static) { self } }
impl Clone for Box<dyn Array> { fn clone(&self) -> Self { self.to_boxed() } }
impl PartialEq for dyn Array { fn eq(&self, o: &Self) -> bool { self.equals(o) } }
impl Eq for dyn Array {}

macro_rules! common_array {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Array for $t {
            fn as_any(&self) -> &dyn Any { self }
            fn as_any_mut(&mut self) -> &mut dyn Any { self }
            fn len(&self) -> usize { self.len() }
            fn data_type(&self) -> &DataType { &self.data_type }
            fn validity(&self) -> Option<&Bitmap> { self.validity.as_ref() }
            fn to_boxed(&self) -> Box<dyn Array> { Box::new(self.clone()) }
            fn slice_boxed(&self, o: usize, l: usize) -> Box<dyn Array> { Box::new(self.clone().sliced(o, l)) }
            fn equals(&self, o: &dyn Array) -> bool { match o.as_any().downcast_ref::<Self>() { Some(o) => self.data_type == o.data_type && self.opts() == o.opts(), None => false } }
        }
        impl<$($g)*> $t {
            pub fn boxed(self) -> Box<dyn Array> { Box::new(self) }
            pub fn is_null(&self, i: usize) -> bool { self.validity.as_ref().map(|v| !v.get_bit(i)).unwrap_or(false) }
            pub fn is_valid(&self, i: usize) -> bool { !self.is_null(i) }
            pub fn validity(&self) -> Option<&Bitmap> { self.validity.as_ref() }
            pub fn data_type(&self) -> &DataType { &self.data_type }
            pub fn is_empty(&self) -> bool { self.len() == 0 }
        }
    };
}
fn validity_of<T>(v: &[Option<T>]) -> Option<Bitmap> { if v.iter().all(|x| x.is_some()) { None } else { Some(v.iter().map(|x| x.is_some()).collect()) } }

// ---------------------------------------------------------------- primitive
#[derive(Debug, Clone)]
pub struct PrimitiveArray<T: NativeType> { data_type: DataType, values: Vec<T>, validity: Option<Bitmap> }
impl<T: NativeType> PrimitiveArray<T> {
    pub fn new(data_type: DataType, values: Vec<T>, validity: Option<Bitmap>) -> Self { PrimitiveArray { data_type, values, validity } }
    pub fn from_vec(values: Vec<T>) -> Self { PrimitiveArray { data_type: default_type(T::PRIMITIVE), values, validity: None } }
    pub fn from_slice<P: AsRef<[T]>>(v: P) -> Self { Self::from_vec(v.as_ref().to_vec()) }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn value(&self, i: usize) -> T { self.values[i] }
    pub fn values(&self) -> &[T] { &self.values }
    pub fn values_iter(&self) -> std::slice::Iter<'_, T> { self.values.iter() }
    pub fn get(&self, i: usize) -> Option<T> { if self.is_null(i) { None } else { Some(self.values[i]) } }
    pub fn opts(&self) -> Vec<Option<T>> { (0..self.len()).map(|i| self.get(i)).collect() }
    pub fn iter(&self) -> std::vec::IntoIter<Option<T>> { self.opts().into_iter() }
    pub fn sliced(self, o: usize, l: usize) -> Self {
        assert!(o + l <= self.len(), "the offset of the new Buffer cannot exceed the existing length");
        PrimitiveArray { data_type: self.data_type, values: self.values[o..o + l].to_vec(), validity: self.validity.map(|v| v.sliced(o, l)) }
    }
    pub fn to(self, data_type: DataType) -> Self {
        if data_type.to_physical_type() != PhysicalType::Primitive(T::PRIMITIVE) { panic!("Type {:?} does not support logical type {:?}", T::PRIMITIVE, data_type) }
        PrimitiveArray { data_type, ..self }
    }
}
common_array!([T: NativeType] PrimitiveArray<T>);
impl<T: NativeType> From<Vec<Option<T>>> for PrimitiveArray<T> { fn from(v: Vec<Option<T>>) -> Self { PrimitiveArray { data_type: default_type(T::PRIMITIVE), validity: validity_of(&v), values: v.into_iter().map(|x| x.unwrap_or_default()).collect() } } }
impl<T: NativeType, P: AsRef<[Option<T>]>> From<&P> for PrimitiveArray<T> { fn from(v: &P) -> Self { Self::from(v.as_ref().to_vec()) } }
impl<T: NativeType> FromIterator<Option<T>> for PrimitiveArray<T> { fn from_iter<I: IntoIterator<Item = Option<T>>>(i: I) -> Self { Self::from(i.into_iter().collect::<Vec<_>>()) } }
impl<T: NativeType> IntoIterator for PrimitiveArray<T> { type Item = Option<T>; type IntoIter = std::vec::IntoIter<Option<T>>; fn into_iter(self) -> Self::IntoIter { self.opts().into_iter() } }
impl<T: NativeType> PartialEq for PrimitiveArray<T> { fn eq(&self, o: &Self) -> bool { self.equals(o) } }
pub type Int8Array = PrimitiveArray<i8>;
pub type Int16Array = PrimitiveArray<i16>;
pub type Int32Array = PrimitiveArray<i32>;
pub type Int64Array = PrimitiveArray<i64>;
pub type Int128Array = PrimitiveArray<i128>;
pub type UInt8Array = PrimitiveArray<u8>;
pub type UInt16Array = PrimitiveArray<u16>;
pub type UInt32Array = PrimitiveArray<u32>;
pub type UInt64Array = PrimitiveArray<u64>;
pub type Float32Array = PrimitiveArray<f32>;
pub type Float64Array = PrimitiveArray<f64>;
fn default_type(p: PrimitiveType) -> DataType {
    match p {
        PrimitiveType::Int8 => DataType::Int8, PrimitiveType::Int16 => DataType::Int16, PrimitiveType::Int32 => DataType::Int32, PrimitiveType::Int64 => DataType::Int64,
        PrimitiveType::Int128 => DataType::Decimal(32, 32), PrimitiveType::Int256 => DataType::Decimal256(32, 32),
        PrimitiveType::UInt8 => DataType::UInt8, PrimitiveType::UInt16 => DataType::UInt16, PrimitiveType::UInt32 => DataType::UInt32, PrimitiveType::UInt64 => DataType::UInt64,
        PrimitiveType::Float16 => DataType::Float16, PrimitiveType::Float32 => DataType::Float32, PrimitiveType::Float64 => DataType::Float64,
        PrimitiveType::DaysMs => DataType::Interval(IntervalUnit::DayTime), PrimitiveType::MonthDayNano => DataType::Interval(IntervalUnit::MonthDayNano),
        PrimitiveType::UInt128 => unimplemented!(),
    }
}

// ---------------------------------------------------------------- boolean
#[derive(Debug, Clone)]
pub struct BooleanArray { data_type: DataType, values: Vec<bool>, validity: Option<Bitmap> }
impl BooleanArray {
    pub fn new(data_type: DataType, values: Vec<bool>, validity: Option<Bitmap>) -> Self { BooleanArray { data_type, values, validity } }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn value(&self, i: usize) -> bool { self.values[i] }
    pub fn opts(&self) -> Vec<Option<bool>> { (0..self.len()).map(|i| if self.is_null(i) { None } else { Some(self.values[i]) }).collect() }
    pub fn iter(&self) -> std::vec::IntoIter<Option<bool>> { self.opts().into_iter() }
    pub fn sliced(self, o: usize, l: usize) -> Self {
        assert!(o + l <= self.len(), "the offset of the new Buffer cannot exceed the existing length");
        BooleanArray { data_type: self.data_type, values: self.values[o..o + l].to_vec(), validity: self.validity.map(|v| v.sliced(o, l)) }
    }
}
common_array!([] BooleanArray);
impl From<Vec<Option<bool>>> for BooleanArray { fn from(v: Vec<Option<bool>>) -> Self { BooleanArray { data_type: DataType::Boolean, validity: validity_of(&v), values: v.into_iter().map(|x| x.unwrap_or_default()).collect() } } }
impl IntoIterator for BooleanArray { type Item = Option<bool>; type IntoIter = std::vec::IntoIter<Option<bool>>; fn into_iter(self) -> Self::IntoIter { self.opts().into_iter() } }
impl PartialEq for BooleanArray { fn eq(&self, o: &Self) -> bool { self.equals(o) } }

// ---------------------------------------------------------------- binary and utf8
macro_rules! bytes_array { ($N:ident, $own:ty, $view:ty, $small:ident, $large:ident, $as:ident) => {
    #[derive(Debug, Clone)]
    pub struct $N<O: Offset> { data_type: DataType, values: Vec<$own>, validity: Option<Bitmap>, _o: std::marker::PhantomData<O> }
    impl<O: Offset> $N<O> {
        pub fn len(&self) -> usize { self.values.len() }
        pub fn value(&self, i: usize) -> &$view { self.values[i].$as() }
        pub fn opts(&self) -> Vec<Option<&$view>> { (0..self.len()).map(|i| if self.is_null(i) { None } else { Some(self.values[i].$as()) }).collect() }
        pub fn iter(&self) -> std::vec::IntoIter<Option<&$view>> { self.opts().into_iter() }
        pub fn values_iter(&self) -> impl Iterator<Item = &$view> + '_ { self.values.iter().map(|v| v.$as()) }
        pub fn default_data_type() -> DataType { if O::IS_LARGE { DataType::$large } else { DataType::$small } }
        pub fn sliced(self, o: usize, l: usize) -> Self {
            assert!(o + l <= self.len(), "the offset of the new Buffer cannot exceed the existing length");
            $N { data_type: self.data_type, values: self.values[o..o + l].to_vec(), validity: self.validity.map(|v| v.sliced(o, l)), _o: self._o }
        }
    }
    common_array!([O: Offset] $N<O>);
    impl<O: Offset> From<Vec<Option<$own>>> for $N<O> { fn from(v: Vec<Option<$own>>) -> Self { $N { data_type: Self::default_data_type(), validity: validity_of(&v), values: v.into_iter().map(|x| x.unwrap_or_default()).collect(), _o: Default::default() } } }
    impl<'a, O: Offset> IntoIterator for &'a $N<O> { type Item = Option<&'a $view>; type IntoIter = std::vec::IntoIter<Option<&'a $view>>; fn into_iter(self) -> Self::IntoIter { self.opts().into_iter() } }
    impl<O: Offset> PartialEq for $N<O> { fn eq(&self, o: &Self) -> bool { self.equals(o) } }
} }
bytes_array!(BinaryArray, Vec<u8>, [u8], Binary, LargeBinary, as_slice);
bytes_array!(Utf8Array, String, str, Utf8, LargeUtf8, as_str);

// ---------------------------------------------------------------- list
#[derive(Debug, Clone)]
pub struct ListArray<O: Offset> { data_type: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap> }
impl<O: Offset> ListArray<O> {
    pub fn new(data_type: DataType, offsets: OffsetsBuffer<O>, values: Box<dyn Array>, validity: Option<Bitmap>) -> Self { ListArray { data_type, offsets, values, validity } }
    pub fn default_datatype(inner: DataType) -> DataType { let f = Box::new(Field::new("item", inner, true)); if O::IS_LARGE { DataType::LargeList(f) } else { DataType::List(f) } }
    pub fn len(&self) -> usize { self.offsets.len_proxy() }
    pub fn offsets(&self) -> &OffsetsBuffer<O> { &self.offsets }
    pub fn values(&self) -> &Box<dyn Array> { &self.values }
    pub fn value(&self, i: usize) -> Box<dyn Array> { let (s, e) = self.offsets.start_end(i); self.values.sliced(s, e - s) }
    pub fn opts(&self) -> Vec<Option<Box<dyn Array>>> { (0..self.len()).map(|i| if self.is_null(i) { None } else { Some(self.value(i)) }).collect() }
    pub fn sliced(self, o: usize, l: usize) -> Self {
        assert!(o + l <= self.len(), "the offset of the new Buffer cannot exceed the existing length");
        ListArray { data_type: self.data_type, offsets: OffsetsBuffer(self.offsets.0[o..o + l + 1].to_vec()), values: self.values, validity: self.validity.map(|v| v.sliced(o, l)) }
    }
}
common_array!([O: Offset] ListArray<O>);
impl<O: Offset> PartialEq for ListArray<O> { fn eq(&self, o: &Self) -> bool { self.equals(o) } }

#[derive(Debug, Clone)]
pub struct NullArray { data_type: DataType, len: usize, validity: Option<Bitmap> }
impl NullArray {
    pub fn len(&self) -> usize { self.len }
    pub fn opts(&self) -> usize { self.len }
    pub fn sliced(self, _o: usize, l: usize) -> Self { NullArray { len: l, ..self } }
}
common_array!([] NullArray);

// ---------------------------------------------------------------- mutable arrays
pub trait MutableArray: Debug + Send + Sync {
    fn data_type(&self) -> &DataType;
    fn len(&self) -> usize;
    fn as_box(&mut self) -> Box<dyn Array>;
    fn push_null(&mut self);
    fn is_empty(&self) -> bool { self.len() == 0 }
}
pub trait TryPush<A> { fn try_push(&mut self, item: A) -> Result<()>; }
pub trait TryExtend<A> { fn try_extend<I: IntoIterator<Item = A>>(&mut self, iter: I) -> Result<()>; }

#[derive(Debug, Clone)]
pub struct MutablePrimitiveArray<T: NativeType> { data_type: DataType, v: Vec<Option<T>> }
impl<T: NativeType> MutablePrimitiveArray<T> {
    pub fn new() -> Self { Self::with_capacity(0) }
    pub fn with_capacity(n: usize) -> Self { MutablePrimitiveArray { data_type: default_type(T::PRIMITIVE), v: Vec::with_capacity(n) } }
    pub fn push(&mut self, x: Option<T>) { self.v.push(x) }
    pub fn to(self, data_type: DataType) -> Self {
        if data_type.to_physical_type() != PhysicalType::Primitive(T::PRIMITIVE) { panic!("Type {:?} does not support logical type {:?}", T::PRIMITIVE, data_type) }
        MutablePrimitiveArray { data_type, ..self }
    }
}
impl<T: NativeType> Default for MutablePrimitiveArray<T> { fn default() -> Self { Self::new() } }
impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> {
    fn data_type(&self) -> &DataType { &self.data_type }
    fn len(&self) -> usize { self.v.len() }
    fn as_box(&mut self) -> Box<dyn Array> { let mut a = PrimitiveArray::from(std::mem::take(&mut self.v)); a.data_type = self.data_type.clone(); a.boxed() }
    fn push_null(&mut self) { self.v.push(None) }
}
impl<T: NativeType> From<Vec<Option<T>>> for MutablePrimitiveArray<T> { fn from(v: Vec<Option<T>>) -> Self { MutablePrimitiveArray { data_type: default_type(T::PRIMITIVE), v } } }
impl<T: NativeType> TryPush<Option<T>> for MutablePrimitiveArray<T> { fn try_push(&mut self, x: Option<T>) -> Result<()> { self.push(x); Ok(()) } }
impl<T: NativeType> TryExtend<Option<T>> for MutablePrimitiveArray<T> { fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, it: I) -> Result<()> { self.v.extend(it); Ok(()) } }

#[derive(Debug, Clone)]
pub struct MutableBooleanArray { data_type: DataType, v: Vec<Option<bool>> }
impl Default for MutableBooleanArray { fn default() -> Self { Self::new() } }
impl MutableBooleanArray {
    pub fn new() -> Self { Self::with_capacity(0) }
    pub fn with_capacity(n: usize) -> Self { MutableBooleanArray { data_type: DataType::Boolean, v: Vec::with_capacity(n) } }
    pub fn push(&mut self, x: Option<bool>) { self.v.push(x) }
}
impl MutableArray for MutableBooleanArray {
    fn data_type(&self) -> &DataType { &self.data_type }
    fn len(&self) -> usize { self.v.len() }
    fn as_box(&mut self) -> Box<dyn Array> { BooleanArray::from(std::mem::take(&mut self.v)).boxed() }
    fn push_null(&mut self) { self.v.push(None) }
}
impl From<Vec<Option<bool>>> for MutableBooleanArray { fn from(v: Vec<Option<bool>>) -> Self { MutableBooleanArray { data_type: DataType::Boolean, v } } }
impl TryPush<Option<bool>> for MutableBooleanArray { fn try_push(&mut self, x: Option<bool>) -> Result<()> { self.push(x); Ok(()) } }
impl TryExtend<Option<bool>> for MutableBooleanArray { fn try_extend<I: IntoIterator<Item = Option<bool>>>(&mut self, it: I) -> Result<()> { self.v.extend(it); Ok(()) } }

macro_rules! mutable_bytes { ($N:ident, $A:ident, $own:ty, $view:ty, $conv:ident) => {
    #[derive(Debug, Clone)]
    pub struct $N<O: Offset> { data_type: DataType, v: Vec<Option<$own>>, _o: std::marker::PhantomData<O> }
    impl<O: Offset> Default for $N<O> { fn default() -> Self { Self::new() } }
    impl<O: Offset> $N<O> {
        pub fn new() -> Self { Self::with_capacity(0) }
        pub fn with_capacity(n: usize) -> Self { $N { data_type: $A::<O>::default_data_type(), v: Vec::with_capacity(n), _o: Default::default() } }
        pub fn push<T: AsRef<$view>>(&mut self, x: Option<T>) { self.v.push(x.map(|x| x.as_ref().$conv())) }
    }
    impl<O: Offset> MutableArray for $N<O> {
        fn data_type(&self) -> &DataType { &self.data_type }
        fn len(&self) -> usize { self.v.len() }
        fn as_box(&mut self) -> Box<dyn Array> { $A::<O>::from(std::mem::take(&mut self.v)).boxed() }
        fn push_null(&mut self) { self.v.push(None) }
    }
    impl<O: Offset, T: AsRef<$view>> From<Vec<Option<T>>> for $N<O> { fn from(v: Vec<Option<T>>) -> Self { let mut a = Self::new(); for x in v { a.push(x) } a } }
    impl<O: Offset, T: AsRef<$view>> TryPush<Option<T>> for $N<O> { fn try_push(&mut self, x: Option<T>) -> Result<()> { self.push(x); Ok(()) } }
    impl<O: Offset, T: AsRef<$view>> TryExtend<Option<T>> for $N<O> { fn try_extend<I: IntoIterator<Item = Option<T>>>(&mut self, it: I) -> Result<()> { for x in it { self.push(x) } Ok(()) } }
} }
mutable_bytes!(MutableBinaryArray, BinaryArray, Vec<u8>, [u8], to_vec);
mutable_bytes!(MutableUtf8Array, Utf8Array, String, str, to_string);

#[derive(Debug, Clone)]
pub struct MutableListArray<O: Offset, M: MutableArray> { data_type: DataType, offsets: Vec<O>, values: M, valid: Vec<bool> }
impl<O: Offset, M: MutableArray + Default> MutableListArray<O, M> {
    pub fn new() -> Self { Self::with_capacity(0) }
    pub fn with_capacity(_n: usize) -> Self { let values = M::default(); let data_type = ListArray::<O>::default_datatype(values.data_type().clone()); MutableListArray { data_type, offsets: vec![O::of(0)], values, valid: vec![] } }
}
impl<O: Offset, M: MutableArray + Default> Default for MutableListArray<O, M> { fn default() -> Self { Self::new() } }
impl<O: Offset, M: MutableArray> MutableListArray<O, M> {
    pub fn new_from(values: M, data_type: DataType, _cap: usize) -> Self { MutableListArray { data_type, offsets: vec![O::of(0)], values, valid: vec![] } }
    fn seal(&mut self, valid: bool) { self.offsets.push(O::of(self.values.len())); self.valid.push(valid) }
}
impl<O: Offset, M: MutableArray + 'static> MutableArray for MutableListArray<O, M> {
    fn data_type(&self) -> &DataType { &self.data_type }
    fn len(&self) -> usize { self.valid.len() }
    fn as_box(&mut self) -> Box<dyn Array> {
        let valid = std::mem::take(&mut self.valid);
        let validity = if valid.iter().all(|b| *b) { None } else { Some(Bitmap(valid)) };
        Box::new(ListArray::<O> { data_type: self.data_type.clone(), offsets: OffsetsBuffer(std::mem::replace(&mut self.offsets, vec![O::of(0)])), values: self.values.as_box(), validity })
    }
    fn push_null(&mut self) { self.seal(false) }
}
impl<O, M, I, T> TryPush<Option<I>> for MutableListArray<O, M> where O: Offset, M: MutableArray + TryExtend<Option<T>>, I: IntoIterator<Item = Option<T>> {
    fn try_push(&mut self, item: Option<I>) -> Result<()> {
        match item { Some(i) => { self.values.try_extend(i)?; self.seal(true) } None => self.seal(false) }
        Ok(())
    }
}

// ---------------------------------------------------------------- generic construction
/// calls $m!(ArrayType) for the concrete array type of a data type
macro_rules! with_array_type { ($dt:expr, $m:ident, $err:expr) => {
    match $dt.to_physical_type() {
        PhysicalType::Boolean => $m!(BooleanArray),
        PhysicalType::Primitive(PrimitiveType::Int8) => $m!(Int8Array),
        PhysicalType::Primitive(PrimitiveType::Int16) => $m!(Int16Array),
        PhysicalType::Primitive(PrimitiveType::Int32) => $m!(Int32Array),
        PhysicalType::Primitive(PrimitiveType::Int64) => $m!(Int64Array),
        PhysicalType::Primitive(PrimitiveType::Int128) => $m!(Int128Array),
        PhysicalType::Primitive(PrimitiveType::UInt8) => $m!(UInt8Array),
        PhysicalType::Primitive(PrimitiveType::UInt16) => $m!(UInt16Array),
        PhysicalType::Primitive(PrimitiveType::UInt32) => $m!(UInt32Array),
        PhysicalType::Primitive(PrimitiveType::UInt64) => $m!(UInt64Array),
        PhysicalType::Primitive(PrimitiveType::Float32) => $m!(Float32Array),
        PhysicalType::Primitive(PrimitiveType::Float64) => $m!(Float64Array),
        PhysicalType::Binary => $m!(BinaryArray<i32>),
        PhysicalType::LargeBinary => $m!(BinaryArray<i64>),
        PhysicalType::Utf8 => $m!(Utf8Array<i32>),
        PhysicalType::LargeUtf8 => $m!(Utf8Array<i64>),
        _ => $err,
    }
} }
pub(crate) use with_array_type;
fn gather_list<O: Offset>(arrs: &[&dyn Array], picks: &[(usize, usize)]) -> Box<dyn Array> {
    let ls: Vec<&ListArray<O>> = arrs.iter().map(|a| a.as_any().downcast_ref::<ListArray<O>>().unwrap()).collect();
    let inner: Vec<&dyn Array> = ls.iter().map(|l| &**l.values()).collect();
    let (mut ip, mut offs, mut valid) = (vec![], vec![O::of(0)], vec![]);
    for (a, i) in picks {
        let ok = !ls[*a].is_null(*i);
        if ok { let (s, e) = ls[*a].offsets().start_end(*i); ip.extend((s..e).map(|k| (*a, k))); }
        valid.push(ok); offs.push(O::of(ip.len()));
    }
    let validity = if valid.iter().all(|b| *b) { None } else { Some(Bitmap(valid)) };
    Box::new(ListArray::<O> { data_type: arrs[0].data_type().clone(), offsets: OffsetsBuffer(offs), values: gather(&inner, &ip), validity })
}
/// The rows (array, row) in this order, as one array of the first array's type.
pub(crate) fn gather(arrs: &[&dyn Array], picks: &[(usize, usize)]) -> Box<dyn Array> {
    let dt = arrs[0].data_type().clone();
    macro_rules! g { ($A:ty) => {{
        let s: Vec<&$A> = arrs.iter().map(|a| a.as_any().downcast_ref::<$A>().unwrap()).collect();
        let mut r = <$A>::from(picks.iter().map(|(a, i)| if s[*a].is_null(*i) { None } else { Some(s[*a].value(*i).to_owned()) }).collect::<Vec<_>>());
        r.data_type = dt;
        Box::new(r)
    }} }
    with_array_type!(dt, g, match dt { DataType::List(_) => gather_list::<i32>(arrs, picks), DataType::LargeList(_) => gather_list::<i64>(arrs, picks), _ => unimplemented!("gather {:?}", dt) })
}
pub fn new_null_array(dt: DataType, len: usize) -> Box<dyn Array> {
    macro_rules! n { ($A:ty) => {{ let mut r = <$A>::from((0..len).map(|_| None).collect::<Vec<_>>()); r.data_type = dt; Box::new(r) }} }
    fn l<O: Offset>(dt: DataType, len: usize) -> Box<dyn Array> {
        let inner = match &dt { DataType::List(f) | DataType::LargeList(f) => f.data_type.clone(), _ => unreachable!() };
        Box::new(ListArray::<O> { data_type: dt, offsets: OffsetsBuffer(vec![O::of(0); len + 1]), values: new_null_array(inner, 0), validity: Some(Bitmap(vec![false; len])) })
    }
    with_array_type!(dt, n, match dt { DataType::List(_) => l::<i32>(dt, len), DataType::LargeList(_) => l::<i64>(dt, len), DataType::Null => Box::new(NullArray { data_type: dt, len, validity: None }), _ => unimplemented!("null array {:?}", dt) })
}
pub fn new_empty_array(dt: DataType) -> Box<dyn Array> { new_null_array(dt, 0) }

pub mod growable {
    use super::*;
    pub trait Growable<'a>: Debug { fn extend(&mut self, index: usize, start: usize, len: usize); fn as_box(&mut self) -> Box<dyn Array>; fn len(&self) -> usize; }
    #[derive(Debug)]
    struct G<'a> { arrs: Vec<&'a dyn Array>, picks: Vec<(usize, usize)> }
    impl<'a> Growable<'a> for G<'a> {
        fn extend(&mut self, index: usize, start: usize, len: usize) {
            assert!(start + len <= self.arrs[index].len(), "range end index {} out of range for slice of length {}", start + len, self.arrs[index].len());
            self.picks.extend((start..start + len).map(|i| (index, i)))
        }
        fn as_box(&mut self) -> Box<dyn Array> { gather(&self.arrs, &std::mem::take(&mut self.picks)) }
        fn len(&self) -> usize { self.picks.len() }
    }
    pub fn make_growable<'a>(arrs: &[&'a dyn Array], _use_validity: bool, _cap: usize) -> Box<dyn Growable<'a> + 'a> {
        assert!(!arrs.is_empty());
        for a in arrs { assert_eq!(a.data_type(), arrs[0].data_type(), "growable of different types") }
        Box::new(G { arrs: arrs.to_vec(), picks: vec![] })
    }
}
