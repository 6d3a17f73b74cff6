use super::*;
use crate::chunk::Chunk;
use crate::datatypes::Schema;
pub use parquet2::compression::{CompressionOptions, ZstdLevel};
pub use parquet2::encoding::Encoding;
pub use parquet2::metadata::{KeyValue, SchemaDescriptor};
use parquet2::page::{CompressedPage, DataPage, Page};
pub use parquet2::write::Version;
use parquet2::write::{compress, FileSeqWriter};
use std::io::Write;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WriteOptions { pub write_statistics: bool, pub version: Version, pub compression: CompressionOptions, pub data_pagesize_limit: Option<usize> }

pub fn to_parquet_schema(s: &Schema) -> Result<SchemaDescriptor> { Ok(SchemaDescriptor { leaves: s.fields.iter().map(column).collect::<Result<Vec<_>>>()? }) }
pub fn transverse<T, F: Fn(&DataType) -> T + Clone>(dt: &DataType, f: F) -> Vec<T> {
    match dt { DataType::List(i) | DataType::LargeList(i) | DataType::FixedSizeList(i, _) => transverse(&i.data_type, f), DataType::Struct(fs) => fs.iter().flat_map(|x| transverse(&x.data_type, f.clone())).collect(), d => vec![f(d)] }
}
pub fn add_arrow_schema(s: &Schema, kv: Option<Vec<KeyValue>>) -> Option<Vec<KeyValue>> {
    let mut v = kv.unwrap_or_default();
    v.push(KeyValue { key: "ARROW:schema".to_string(), value: Some(serde_json::to_string(s).unwrap()) });
    Some(v)
}
fn estimated_bytes(a: &dyn Array) -> usize {
    let bits = if a.validity().is_some() { (a.len() + 7) / 8 } else { 0 };
    bits + match a.data_type().to_physical_type() {
        P::Boolean => (a.len() + 7) / 8,
        P::Primitive(PT::Int8 | PT::UInt8) => a.len(),
        P::Primitive(PT::Int16 | PT::UInt16) => a.len() * 2,
        P::Primitive(PT::Int32 | PT::UInt32 | PT::Float32) => a.len() * 4,
        P::Primitive(PT::Int128) => a.len() * 16,
        P::Primitive(_) => a.len() * 8,
        P::Utf8 => { let x = a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap(); x.values_iter().map(|v| v.len()).sum::<usize>() + 4 * (a.len() + 1) }
        P::Binary => { let x = a.as_any().downcast_ref::<BinaryArray<i32>>().unwrap(); x.values_iter().map(|v| v.len()).sum::<usize>() + 4 * (a.len() + 1) }
        P::List => { let x = a.as_any().downcast_ref::<ListArray<i32>>().unwrap(); estimated_bytes(&**x.values()) + 4 * (a.len() + 1) }
        _ => a.len() * 8,
    }
}
/// A pull-based iterator of pages (the real one is lazy; errors surface per page).
pub struct DynIter<V>(std::vec::IntoIter<V>);
impl<V> Iterator for DynIter<V> { type Item = V; fn next(&mut self) -> Option<V> { self.0.next() } }
pub fn array_to_columns<A: AsRef<dyn Array> + Send + Sync>(a: A, t: ParquetType, o: WriteOptions, _e: &[Encoding]) -> Result<Vec<DynIter<Result<Page>>>> {
    let a = a.as_ref();
    let phys = t.leaf().physical_type;
    let n = a.len();
    // rows per page as arrow2 computes them
    let limit = o.data_pagesize_limit.unwrap_or(1024 * 1024);
    let per_row = if n == 0 { 0 } else { (estimated_bytes(a) as f64 / n as f64) as usize };
    let rows = (limit / (per_row + 1)).max(1);
    let pages = (0..n).step_by(rows).map(|s| Ok(Page::Data(DataPage { cells: to_cells(a, phys, s, (s + rows).min(n))?, physical: phys, write_statistics: o.write_statistics }))).collect::<Vec<_>>();
    Ok(vec![DynIter(pages.into_iter())])
}
pub type RowGroupIter = Vec<Vec<CompressedPage>>;
pub struct RowGroupIterator<I> { iter: I, schema: SchemaDescriptor, options: WriteOptions, encodings: Vec<Vec<Encoding>> }
impl<A: AsRef<dyn Array> + Send + Sync + 'static, I: Iterator<Item = Result<Chunk<A>>>> RowGroupIterator<I> {
    pub fn try_new(iter: I, schema: &Schema, options: WriteOptions, encodings: Vec<Vec<Encoding>>) -> Result<Self> {
        if encodings.len() != schema.fields.len() { return Err(Error::InvalidArgumentError("The number of encodings must equal the number of fields".to_string())); }
        Ok(RowGroupIterator { iter, schema: to_parquet_schema(schema)?, options, encodings })
    }
}
impl<A: AsRef<dyn Array> + Send + Sync + 'static, I: Iterator<Item = Result<Chunk<A>>>> Iterator for RowGroupIterator<I> {
    type Item = Result<RowGroupIter>;
    fn next(&mut self) -> Option<Self::Item> {
        let o = self.options;
        self.iter.next().map(|c| {
            let c = c?;
            if self.encodings.len() != c.arrays().len() { return Err(Error::InvalidArgumentError("The number of arrays in the chunk must equal the number of fields in the schema".to_string())); }
            c.arrays().iter().zip(self.schema.columns()).map(|(a, d)| {
                let mut cols = array_to_columns(a.as_ref().to_boxed(), d.base_type.clone(), o, &[Encoding::Plain])?;
                cols.pop().unwrap().map(|p| Ok(compress(p?, vec![], o.compression)?)).collect::<Result<Vec<_>>>()
            }).collect()
        })
    }
}
pub struct FileWriter<W: Write> { w: FileSeqWriter<W>, schema: Schema }
impl<W: Write> FileWriter<W> {
    pub fn try_new(w: W, schema: Schema, o: WriteOptions) -> Result<Self> {
        let d = to_parquet_schema(&schema)?;
        Ok(FileWriter { w: FileSeqWriter::new(w, d, parquet2::write::WriteOptions { write_statistics: o.write_statistics, version: o.version }, None), schema })
    }
    pub fn write(&mut self, g: RowGroupIter) -> Result<()> {
        for col in g { for p in &col { self.w.write_page(p)?; } self.w.end_column()?; }
        Ok(self.w.end_row_group()?)
    }
    pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> { Ok(self.w.end(add_arrow_schema(&self.schema, kv))?) }
}
