use super::*;
use crate::chunk::Chunk;
use crate::datatypes::Schema;
use fallible_streaming_iterator::FallibleStreamingIterator;
pub use parquet2::error::Error as ParquetError;
pub use parquet2::metadata::{FileMetaData, RowGroupMetaData};
use parquet2::page::{CompressedPage, Page};
use std::io::{Read, Seek, SeekFrom};

pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> { Ok(parquet2::read::read_metadata(r)?) }
pub fn infer_schema(md: &FileMetaData) -> Result<Schema> {
    if let Some(kv) = &md.key_value_metadata {
        if let Some(k) = kv.iter().find(|k| k.key == "ARROW:schema") {
            return serde_json::from_str(k.value.as_deref().unwrap_or("")).map_err(|e| Error::oos(e.to_string()));
        }
    }
    Ok(Schema::from(md.schema().columns().iter().map(|c| {
        let dt: DataType = serde_json::from_str(&c.descriptor.primitive_type.logical).unwrap();
        match &c.base_type { ParquetType::GroupType { name, leaf } => Field::new(name, DataType::List(Box::new(Field::new(&leaf.name, dt, true))), true), _ => Field::new(&c.path_in_schema[0], dt, true) }
    }).collect::<Vec<_>>()))
}
pub mod schema {
    pub mod convert {
        pub fn to_primitive_type(p: &parquet2::schema::types::PrimitiveType) -> crate::datatypes::DataType { serde_json::from_str(&p.logical).unwrap() }
    }
}
pub type ArrayIter<'a> = Box<dyn Iterator<Item = Result<Box<dyn Array>>> + Send + Sync + 'a>;
fn drain<I: FallibleStreamingIterator<Item = Page, Error = ParquetError>>(mut pages: I, dt: &DataType) -> Result<Box<dyn Array>> {
    let mut out = vec![];
    while let Some(p) = pages.next()? { match p { Page::Data(p) => out.push(from_cells(&p.cells, dt)?), Page::Dict(_) => return Err(Error::oos("dictionary page")) } }
    Ok(concat(&out, dt))
}
fn pieces(a: Box<dyn Array>, chunk_size: Option<usize>, num_rows: usize) -> Vec<Result<Box<dyn Array>>> {
    let n = a.len().min(num_rows);
    let c = chunk_size.unwrap_or(usize::MAX).min(n).max(1);
    if n == 0 { return vec![Ok(a.sliced(0, 0))]; }
    (0..n).step_by(c).map(|i| Ok(a.sliced(i, c.min(n - i)))).collect()
}
pub mod deserialize {
    use super::*;
    pub fn page_iter_to_arrays<'a, I>(pages: I, _t: &PrimitiveType, dt: DataType, chunk_size: Option<usize>, num_rows: usize) -> Result<ArrayIter<'a>> where I: FallibleStreamingIterator<Item = Page, Error = ParquetError> + 'a {
        Ok(Box::new(pieces(drain(pages, &dt)?, chunk_size, num_rows).into_iter()))
    }
}
pub fn column_iter_to_arrays<'a, I>(columns: Vec<I>, _types: Vec<&PrimitiveType>, field: Field, chunk_size: Option<usize>, num_rows: usize) -> Result<ArrayIter<'a>> where I: FallibleStreamingIterator<Item = Page, Error = ParquetError> + 'a {
    let c = columns.into_iter().next().ok_or_else(|| Error::oos("no columns"))?;
    Ok(Box::new(pieces(drain(c, &field.data_type)?, chunk_size, num_rows).into_iter()))
}
fn read_column<R: Read + Seek>(r: &mut R, rg: &RowGroupMetaData, f: &Field) -> Result<Box<dyn Array>> {
    let c = rg.columns().iter().find(|c| c.descriptor().path_in_schema[0] == f.name).ok_or_else(|| Error::oos(format!("column {} not found", f.name)))?;
    let mut out = vec![];
    let mut buf = vec![];
    for p in parquet2::read::get_page_iterator(c, r, None, vec![], usize::MAX)? {
        match parquet2::read::decompress(p?, &mut buf)? { Page::Data(p) => out.push(from_cells(&p.cells, &f.data_type)?), Page::Dict(_) => return Err(Error::oos("dictionary page")) }
    }
    Ok(concat(&out, &f.data_type))
}
/// Reads the given row groups one after another, in chunks of at most `chunk_size` rows.
pub struct FileReader<R: Read + Seek> { reader: R, groups: std::vec::IntoIter<RowGroupMetaData>, schema: Schema, chunk_size: usize, limit: usize, ready: std::collections::VecDeque<Chunk<Box<dyn Array>>> }
impl<R: Read + Seek> FileReader<R> {
    pub fn new(reader: R, groups: Vec<RowGroupMetaData>, schema: Schema, chunk_size: Option<usize>, limit: Option<usize>, _pages: Option<Vec<Vec<Vec<Vec<()>>>>>) -> Self {
        FileReader { reader, groups: groups.into_iter(), schema, chunk_size: chunk_size.unwrap_or(usize::MAX), limit: limit.unwrap_or(usize::MAX), ready: Default::default() }
    }
    pub fn schema(&self) -> &Schema { &self.schema }
    fn step(&mut self) -> Result<Option<Chunk<Box<dyn Array>>>> {
        loop {
            if let Some(c) = self.ready.pop_front() { return Ok(Some(c)); }
            if self.limit == 0 || self.schema.fields.is_empty() { return Ok(None); }
            let rg = match self.groups.next() { None => return Ok(None), Some(g) => g };
            let cols = self.schema.fields.iter().map(|f| read_column(&mut self.reader, &rg, f)).collect::<Result<Vec<_>>>()?;
            let all = Chunk::try_new(cols)?;
            let n = all.len().min(self.limit);
            if n == 0 { continue; }
            let mut i = 0;
            while i < n { let k = self.chunk_size.min(n - i); self.ready.push_back(Chunk::new(all.arrays().iter().map(|a| a.sliced(i, k)).collect())); i += k; }
            self.limit -= n;
        }
    }
}
impl<R: Read + Seek> Iterator for FileReader<R> { type Item = Result<Chunk<Box<dyn Array>>>; fn next(&mut self) -> Option<Self::Item> { self.step().transpose() } }
pub fn seek_start<R: Seek>(r: &mut R) -> Result<u64> { Ok(r.seek(SeekFrom::Start(0))?) }
#[allow(unused)]
fn _is_data(p: &CompressedPage) -> bool { matches!(p, CompressedPage::Data(_)) }
pub mod statistics {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct Statistics { pub null_count: Box<dyn Array>, pub distinct_count: Box<dyn Array>, pub min_value: Box<dyn Array>, pub max_value: Box<dyn Array> }
    pub fn deserialize(field: &Field, groups: &[RowGroupMetaData]) -> Result<Statistics> {
        let (mut lo, mut hi, mut nulls) = (vec![], vec![], vec![]);
        for g in groups {
            let c = g.columns().iter().find(|c| c.descriptor().path_in_schema[0] == field.name).ok_or_else(|| Error::oos(format!("column {} not found", field.name)))?;
            match c.raw_statistics() {
                Some(s) => { lo.push(from_cells(&s.min, &field.data_type)?); hi.push(from_cells(&s.max, &field.data_type)?); nulls.push(Some(s.nulls as u64)); }
                None => { lo.push(new_null_array(field.data_type.clone(), 1)); hi.push(new_null_array(field.data_type.clone(), 1)); nulls.push(None); }
            }
        }
        Ok(Statistics { null_count: UInt64Array::from(nulls).boxed(), distinct_count: UInt64Array::from(vec![None::<u64>; groups.len()]).boxed(), min_value: concat(&lo, &field.data_type), max_value: concat(&hi, &field.data_type) })
    }
}
