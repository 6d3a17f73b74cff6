use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
pub type Metadata = BTreeMap<String, String>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntervalUnit { YearMonth, DayTime, MonthDayNano }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntegerType { Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64 }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum UnionMode { Dense, Sparse }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum DataType {
    Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64,
    Float16, Float32, Float64,
    Timestamp(TimeUnit, Option<String>),
    Date32, Date64, Time32(TimeUnit), Time64(TimeUnit), Duration(TimeUnit), Interval(IntervalUnit),
    Binary, FixedSizeBinary(usize), LargeBinary, Utf8, LargeUtf8,
    List(Box<Field>), FixedSizeList(Box<Field>, usize), LargeList(Box<Field>),
    Struct(Vec<Field>),
    Union(Vec<Field>, Option<Vec<i32>>, UnionMode),
    Map(Box<Field>, bool),
    Dictionary(IntegerType, Box<DataType>, bool),
    Decimal(usize, usize), Decimal256(usize, usize),
    Extension(String, Box<DataType>, Option<String>),
}
impl DataType {
    pub fn to_physical_type(&self) -> PhysicalType {
        use PhysicalType as P;
        match self {
            DataType::Null => P::Null,
            DataType::Boolean => P::Boolean,
            DataType::Int8 => P::Primitive(PrimitiveType::Int8),
            DataType::Int16 => P::Primitive(PrimitiveType::Int16),
            DataType::Int32 | DataType::Date32 | DataType::Time32(_) | DataType::Interval(IntervalUnit::YearMonth) => P::Primitive(PrimitiveType::Int32),
            DataType::Int64 | DataType::Date64 | DataType::Timestamp(_, _) | DataType::Time64(_) | DataType::Duration(_) => P::Primitive(PrimitiveType::Int64),
            DataType::Interval(IntervalUnit::DayTime) => P::Primitive(PrimitiveType::DaysMs),
            DataType::Interval(IntervalUnit::MonthDayNano) => P::Primitive(PrimitiveType::MonthDayNano),
            DataType::UInt8 => P::Primitive(PrimitiveType::UInt8),
            DataType::UInt16 => P::Primitive(PrimitiveType::UInt16),
            DataType::UInt32 => P::Primitive(PrimitiveType::UInt32),
            DataType::UInt64 => P::Primitive(PrimitiveType::UInt64),
            DataType::Float16 => P::Primitive(PrimitiveType::Float16),
            DataType::Float32 => P::Primitive(PrimitiveType::Float32),
            DataType::Float64 => P::Primitive(PrimitiveType::Float64),
            DataType::Decimal(_, _) => P::Primitive(PrimitiveType::Int128),
            DataType::Decimal256(_, _) => P::Primitive(PrimitiveType::Int256),
            DataType::Binary => P::Binary,
            DataType::FixedSizeBinary(_) => P::FixedSizeBinary,
            DataType::LargeBinary => P::LargeBinary,
            DataType::Utf8 => P::Utf8,
            DataType::LargeUtf8 => P::LargeUtf8,
            DataType::List(_) => P::List,
            DataType::FixedSizeList(_, _) => P::FixedSizeList,
            DataType::LargeList(_) => P::LargeList,
            DataType::Struct(_) => P::Struct,
            DataType::Union(_, _, _) => P::Union,
            DataType::Map(_, _) => P::Map,
            DataType::Dictionary(k, _, _) => P::Dictionary(*k),
            DataType::Extension(_, k, _) => k.to_physical_type(),
        }
    }
    pub fn to_logical_type(&self) -> &DataType {
        match self { DataType::Extension(_, k, _) => k.to_logical_type(), o => o }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum PrimitiveType { Int8, Int16, Int32, Int64, Int128, Int256, UInt8, UInt16, UInt32, UInt64, UInt128, Float16, Float32, Float64, DaysMs, MonthDayNano }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum PhysicalType {
    Null, Boolean, Primitive(PrimitiveType), Binary, FixedSizeBinary, LargeBinary, Utf8, LargeUtf8,
    List, FixedSizeList, LargeList, Struct, Union, Map, Dictionary(IntegerType),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Field { pub name: String, pub data_type: DataType, pub is_nullable: bool, pub metadata: Metadata }
impl Field {
    pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self {
        Field { name: name.into(), data_type, is_nullable, metadata: Default::default() }
    }
    pub fn data_type(&self) -> &DataType { &self.data_type }
}
#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Schema { pub fields: Vec<Field>, pub metadata: Metadata }
impl From<Vec<Field>> for Schema { fn from(fields: Vec<Field>) -> Self { Schema { fields, metadata: Default::default() } } }
impl Schema {
    pub fn with_metadata(self, metadata: Metadata) -> Self { Schema { fields: self.fields, metadata } }
    pub fn filter<F: Fn(usize, &Field) -> bool>(self, predicate: F) -> Self {
        let fields = self.fields.into_iter().enumerate().filter_map(|(i, f)| if predicate(i, &f) { Some(f) } else { None }).collect();
        Schema { fields, metadata: self.metadata }
    }
}
