//! The C data interface, by way of the real arrow crate (same struct layout by definition of the interface).
use crate::array::*;
use crate::datatypes::{DataType, Field, IntervalUnit, PhysicalType, PrimitiveType, TimeUnit};
use crate::error::{Error, Result};
use crate::types::Offset;
use arrow::array as a1;
use arrow::array::Array as _;
use arrow::datatypes as d1;
use std::sync::Arc;
#[repr(transparent)]
pub struct ArrowArray(arrow::ffi::FFI_ArrowArray);
#[repr(transparent)]
pub struct ArrowSchema(arrow::ffi::FFI_ArrowSchema);

fn tu(t: &TimeUnit) -> d1::TimeUnit { match t { TimeUnit::Second => d1::TimeUnit::Second, TimeUnit::Millisecond => d1::TimeUnit::Millisecond, TimeUnit::Microsecond => d1::TimeUnit::Microsecond, TimeUnit::Nanosecond => d1::TimeUnit::Nanosecond } }
pub fn to1(t: &DataType) -> d1::DataType {
    use d1::DataType as D;
    match t {
        DataType::Null => D::Null, DataType::Boolean => D::Boolean,
        DataType::Int8 => D::Int8, DataType::Int16 => D::Int16, DataType::Int32 => D::Int32, DataType::Int64 => D::Int64,
        DataType::UInt8 => D::UInt8, DataType::UInt16 => D::UInt16, DataType::UInt32 => D::UInt32, DataType::UInt64 => D::UInt64,
        DataType::Float16 => D::Float16, DataType::Float32 => D::Float32, DataType::Float64 => D::Float64,
        DataType::Timestamp(u, z) => D::Timestamp(tu(u), z.clone().map(|z| z.into())),
        DataType::Date32 => D::Date32, DataType::Date64 => D::Date64, DataType::Time32(u) => D::Time32(tu(u)), DataType::Time64(u) => D::Time64(tu(u)), DataType::Duration(u) => D::Duration(tu(u)),
        DataType::Interval(IntervalUnit::YearMonth) => D::Interval(d1::IntervalUnit::YearMonth),
        DataType::Interval(IntervalUnit::DayTime) => D::Interval(d1::IntervalUnit::DayTime),
        DataType::Interval(IntervalUnit::MonthDayNano) => D::Interval(d1::IntervalUnit::MonthDayNano),
        DataType::Binary => D::Binary, DataType::LargeBinary => D::LargeBinary, DataType::Utf8 => D::Utf8, DataType::LargeUtf8 => D::LargeUtf8,
        DataType::FixedSizeBinary(n) => D::FixedSizeBinary(*n as i32),
        DataType::List(f) => D::List(Arc::new(field1(f))), DataType::LargeList(f) => D::LargeList(Arc::new(field1(f))),
        DataType::FixedSizeList(f, n) => D::FixedSizeList(Arc::new(field1(f)), *n as i32),
        DataType::Struct(fs) => D::Struct(fs.iter().map(field1).collect()),
        DataType::Decimal(p, s) => D::Decimal128(*p as u8, *s as i8), DataType::Decimal256(p, s) => D::Decimal256(*p as u8, *s as i8),
        o => unimplemented!("{:?}", o),
    }
}
fn field1(f: &Field) -> d1::Field { d1::Field::new(&f.name, to1(&f.data_type), f.is_nullable) }
pub fn array1(a: &dyn Array) -> a1::ArrayRef {
    macro_rules! p { ($A:ty, $B:ty) => {{ let x = a.as_any().downcast_ref::<$A>().unwrap(); Arc::new(<$B>::from_iter(x.opts())) as a1::ArrayRef }} }
    fn list<O: Offset + a1::OffsetSizeTrait>(a: &dyn Array) -> a1::ArrayRef {
        let l = a.as_any().downcast_ref::<ListArray<O>>().unwrap();
        let f = match to1(a.data_type()) { d1::DataType::List(f) | d1::DataType::LargeList(f) => f, _ => unreachable!() };
        let offs = arrow::buffer::OffsetBuffer::new(l.offsets().as_slice().to_vec().into());
        Arc::new(a1::GenericListArray::<O>::new(f, offs, array1(&**l.values()), l.validity().map(|v| v.iter().collect::<Vec<bool>>().into())))
    }
    let r = match a.data_type().to_physical_type() {
        PhysicalType::Boolean => p!(BooleanArray, a1::BooleanArray),
        PhysicalType::Primitive(PrimitiveType::Int8) => p!(Int8Array, a1::Int8Array),
        PhysicalType::Primitive(PrimitiveType::Int16) => p!(Int16Array, a1::Int16Array),
        PhysicalType::Primitive(PrimitiveType::Int32) => p!(Int32Array, a1::Int32Array),
        PhysicalType::Primitive(PrimitiveType::Int64) => p!(Int64Array, a1::Int64Array),
        PhysicalType::Primitive(PrimitiveType::Int128) => p!(Int128Array, a1::Decimal128Array),
        PhysicalType::Primitive(PrimitiveType::UInt8) => p!(UInt8Array, a1::UInt8Array),
        PhysicalType::Primitive(PrimitiveType::UInt16) => p!(UInt16Array, a1::UInt16Array),
        PhysicalType::Primitive(PrimitiveType::UInt32) => p!(UInt32Array, a1::UInt32Array),
        PhysicalType::Primitive(PrimitiveType::UInt64) => p!(UInt64Array, a1::UInt64Array),
        PhysicalType::Primitive(PrimitiveType::Float32) => p!(Float32Array, a1::Float32Array),
        PhysicalType::Primitive(PrimitiveType::Float64) => p!(Float64Array, a1::Float64Array),
        PhysicalType::Utf8 => p!(Utf8Array<i32>, a1::StringArray),
        PhysicalType::LargeUtf8 => p!(Utf8Array<i64>, a1::LargeStringArray),
        PhysicalType::Binary => p!(BinaryArray<i32>, a1::BinaryArray),
        PhysicalType::LargeBinary => p!(BinaryArray<i64>, a1::LargeBinaryArray),
        PhysicalType::List => list::<i32>(a),
        PhysicalType::LargeList => list::<i64>(a),
        o => unimplemented!("{:?}", o),
    };
    let want = to1(a.data_type());
    if r.data_type() == &want { r } else { a1::make_array(r.to_data().into_builder().data_type(want).build().unwrap()) }
}
pub fn export_array_to_c(a: Box<dyn Array>) -> ArrowArray { ArrowArray(arrow::ffi::FFI_ArrowArray::new(&array1(&*a).to_data())) }
pub fn export_field_to_c(f: &Field) -> ArrowSchema { ArrowSchema(arrow::ffi::FFI_ArrowSchema::try_from(&field1(f)).unwrap()) }
fn array2(a: &a1::ArrayRef, dt: &DataType) -> Result<Box<dyn Array>> {
    match dt {
        DataType::Int64 => Ok(Int64Array::from(a.as_any().downcast_ref::<a1::Int64Array>().unwrap().iter().collect::<Vec<_>>()).boxed()),
        DataType::List(f) => {
            let l = a.as_any().downcast_ref::<a1::ListArray>().unwrap();
            let offs = crate::offset::OffsetsBuffer(l.offsets().iter().copied().collect::<Vec<i32>>());
            let v = array2(l.values(), &f.data_type)?;
            Ok(ListArray::<i32>::new(dt.clone(), offs, v, l.nulls().map(|n| n.iter().collect())).boxed())
        }
        o => Err(Error::NotYetImplemented(format!("import {:?}", o))),
    }
}
pub unsafe fn import_array_from_c(a: ArrowArray, dt: DataType) -> Result<Box<dyn Array>> {
    let s = arrow::ffi::FFI_ArrowSchema::try_from(&to1(&dt)).map_err(|e| Error::oos(e.to_string()))?;
    let d = arrow::ffi::from_ffi(a.0, &s).map_err(|e| Error::oos(e.to_string()))?;
    array2(&a1::make_array(d), &dt)
}
