//! Arrow over the stand-in parquet2: the mapping of types to physical types and pages to arrays.
use crate::array::*;
use crate::datatypes::{DataType, Field, PhysicalType as P, PrimitiveType as PT};
use crate::error::{Error, Result};
use crate::types::Offset;
use parquet2::schema::types::{ParquetType, PhysicalType, PrimitiveType};
use parquet2::Cells;
pub mod read;
pub mod write;

pub(crate) fn leaf(name: &str, dt: &DataType) -> Result<PrimitiveType> {
    let physical_type = match dt.to_physical_type() {
        P::Boolean => PhysicalType::Boolean,
        P::Primitive(PT::Int8 | PT::Int16 | PT::Int32 | PT::UInt8 | PT::UInt16 | PT::UInt32) => PhysicalType::Int32,
        P::Primitive(PT::Int64 | PT::UInt64) => PhysicalType::Int64,
        P::Primitive(PT::Float32) => PhysicalType::Float,
        P::Primitive(PT::Float64) => PhysicalType::Double,
        P::Primitive(PT::Int128) => match dt { DataType::Decimal(p, _) if *p <= 9 => PhysicalType::Int32, DataType::Decimal(p, _) if *p <= 18 => PhysicalType::Int64, _ => PhysicalType::FixedLenByteArray(16) },
        P::Utf8 | P::LargeUtf8 | P::Binary | P::LargeBinary => PhysicalType::ByteArray,
        o => return Err(Error::NotYetImplemented(format!("Writing the data type {:?} is not yet implemented", o))),
    };
    Ok(PrimitiveType { name: name.to_string(), physical_type, logical: serde_json::to_string(dt).unwrap() })
}
pub(crate) fn column(f: &Field) -> Result<parquet2::metadata::ColumnDescriptor> {
    use parquet2::metadata::{ColumnDescriptor, Descriptor};
    Ok(match &f.data_type {
        DataType::List(i) | DataType::LargeList(i) => {
            let l = leaf(&i.name, &i.data_type)?;
            ColumnDescriptor { descriptor: Descriptor { primitive_type: l.clone(), max_def_level: 3, max_rep_level: 1 }, path_in_schema: vec![f.name.clone(), "list".to_string(), i.name.clone()], base_type: ParquetType::GroupType { name: f.name.clone(), leaf: l } }
        }
        dt => {
            let l = leaf(&f.name, dt)?;
            ColumnDescriptor { descriptor: Descriptor { primitive_type: l.clone(), max_def_level: 1, max_rep_level: 0 }, path_in_schema: vec![f.name.clone()], base_type: ParquetType::PrimitiveType(l) }
        }
    })
}
/// rows [s, e) of an array as page cells
pub(crate) fn to_cells(a: &dyn Array, phys: PhysicalType, s: usize, e: usize) -> Result<Cells> {
    macro_rules! get { ($A:ty, |$v:ident| $x:expr) => {{ let a = a.as_any().downcast_ref::<$A>().unwrap(); (s..e).map(|i| if a.is_null(i) { None } else { let $v = a.value(i); Some($x) }).collect() }} }
    fn list<O: Offset>(a: &dyn Array, phys: PhysicalType, s: usize, e: usize) -> Result<Cells> {
        let l = a.as_any().downcast_ref::<ListArray<O>>().unwrap();
        let rows: Vec<Option<usize>> = (s..e).map(|i| if l.is_null(i) { None } else { let (x, y) = l.offsets().start_end(i); Some(y - x) }).collect();
        let picks: Vec<(usize, usize)> = (s..e).filter(|i| !l.is_null(*i)).flat_map(|i| { let (x, y) = l.offsets().start_end(i); (x..y).map(|k| (0, k)) }).collect();
        let inner = gather(&[&**l.values()], &picks);
        Ok(Cells::List(rows, Box::new(to_cells(&*inner, phys, 0, inner.len())?)))
    }
    Ok(match a.data_type().to_physical_type() {
        P::Boolean => Cells::Bool(get!(BooleanArray, |v| v)),
        P::Primitive(PT::Int8) => Cells::I32(get!(Int8Array, |v| v as i32)),
        P::Primitive(PT::Int16) => Cells::I32(get!(Int16Array, |v| v as i32)),
        P::Primitive(PT::Int32) => Cells::I32(get!(Int32Array, |v| v)),
        P::Primitive(PT::UInt8) => Cells::I32(get!(UInt8Array, |v| v as i32)),
        P::Primitive(PT::UInt16) => Cells::I32(get!(UInt16Array, |v| v as i32)),
        P::Primitive(PT::UInt32) => Cells::I32(get!(UInt32Array, |v| v as i32)),
        P::Primitive(PT::Int64) => Cells::I64(get!(Int64Array, |v| v)),
        P::Primitive(PT::UInt64) => Cells::I64(get!(UInt64Array, |v| v as i64)),
        P::Primitive(PT::Float32) => Cells::F32(get!(Float32Array, |v| v)),
        P::Primitive(PT::Float64) => Cells::F64(get!(Float64Array, |v| v)),
        P::Primitive(PT::Int128) => match phys {
            PhysicalType::Int32 => Cells::I32(get!(Int128Array, |v| v as i32)),
            PhysicalType::Int64 => Cells::I64(get!(Int128Array, |v| v as i64)),
            _ => Cells::I128(get!(Int128Array, |v| v)),
        },
        P::Utf8 => Cells::Bytes(get!(Utf8Array<i32>, |v| v.as_bytes().to_vec())),
        P::LargeUtf8 => Cells::Bytes(get!(Utf8Array<i64>, |v| v.as_bytes().to_vec())),
        P::Binary => Cells::Bytes(get!(BinaryArray<i32>, |v| v.to_vec())),
        P::LargeBinary => Cells::Bytes(get!(BinaryArray<i64>, |v| v.to_vec())),
        P::List => list::<i32>(a, phys, s, e)?,
        P::LargeList => list::<i64>(a, phys, s, e)?,
        o => return Err(Error::NotYetImplemented(format!("{:?}", o))),
    })
}
pub(crate) fn from_cells(c: &Cells, dt: &DataType) -> Result<Box<dyn Array>> {
    macro_rules! prim { ($T:ty, $v:expr) => { PrimitiveArray::<$T>::from($v.iter().map(|x| x.clone().map(|x| x as $T)).collect::<Vec<_>>()).to(dt.clone()).boxed() } }
    fn list<O: Offset>(rows: &[Option<usize>], inner: &Cells, dt: &DataType, f: &Field) -> Result<Box<dyn Array>> {
        let mut n = 0;
        let mut offs = vec![O::of(0)];
        for r in rows { n += r.unwrap_or(0); offs.push(O::of(n)); }
        let validity = if rows.iter().all(|r| r.is_some()) { None } else { Some(rows.iter().map(|r| r.is_some()).collect()) };
        Ok(ListArray::<O>::new(dt.clone(), crate::offset::OffsetsBuffer(offs), from_cells(inner, &f.data_type)?, validity).boxed())
    }
    Ok(match (c, dt.to_physical_type()) {
        (Cells::Bool(v), P::Boolean) => BooleanArray::from(v.clone()).boxed(),
        (Cells::I32(v), P::Primitive(PT::Int8)) => prim!(i8, v),
        (Cells::I32(v), P::Primitive(PT::Int16)) => prim!(i16, v),
        (Cells::I32(v), P::Primitive(PT::Int32)) => prim!(i32, v),
        (Cells::I32(v), P::Primitive(PT::UInt8)) => prim!(u8, v),
        (Cells::I32(v), P::Primitive(PT::UInt16)) => prim!(u16, v),
        (Cells::I32(v), P::Primitive(PT::UInt32)) => prim!(u32, v),
        (Cells::I32(v), P::Primitive(PT::Int128)) => prim!(i128, v),
        (Cells::I64(v), P::Primitive(PT::Int64)) => prim!(i64, v),
        (Cells::I64(v), P::Primitive(PT::UInt64)) => prim!(u64, v),
        (Cells::I64(v), P::Primitive(PT::Int128)) => prim!(i128, v),
        (Cells::F32(v), P::Primitive(PT::Float32)) => prim!(f32, v),
        (Cells::F64(v), P::Primitive(PT::Float64)) => prim!(f64, v),
        (Cells::I128(v), P::Primitive(PT::Int128)) => prim!(i128, v),
        (Cells::Bytes(v), P::Utf8) => Utf8Array::<i32>::from(v.iter().map(|x| x.as_ref().map(|x| String::from_utf8(x.clone()).unwrap())).collect::<Vec<_>>()).boxed(),
        (Cells::Bytes(v), P::LargeUtf8) => Utf8Array::<i64>::from(v.iter().map(|x| x.as_ref().map(|x| String::from_utf8(x.clone()).unwrap())).collect::<Vec<_>>()).boxed(),
        (Cells::Bytes(v), P::Binary) => BinaryArray::<i32>::from(v.clone()).boxed(),
        (Cells::Bytes(v), P::LargeBinary) => BinaryArray::<i64>::from(v.clone()).boxed(),
        (Cells::List(r, i), P::List) => match dt { DataType::List(f) => list::<i32>(r, i, dt, f)?, _ => unreachable!() },
        (Cells::List(r, i), P::LargeList) => match dt { DataType::LargeList(f) => list::<i64>(r, i, dt, f)?, _ => unreachable!() },
        (c, p) => return Err(Error::oos(format!("page of {:?} read as {:?}", std::mem::discriminant(c), p))),
    })
}
/// arrays one after another as one array
pub(crate) fn concat(arrs: &[Box<dyn Array>], dt: &DataType) -> Box<dyn Array> {
    if arrs.is_empty() { return new_empty_array(dt.clone()); }
    if arrs.len() == 1 { return arrs[0].clone(); }
    let v: Vec<&dyn Array> = arrs.iter().map(|a| &**a).collect();
    let picks: Vec<(usize, usize)> = arrs.iter().enumerate().flat_map(|(k, a)| (0..a.len()).map(move |i| (k, i))).collect();
    gather(&v, &picks)
}
