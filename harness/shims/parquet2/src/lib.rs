//! Stand-in for the private fork of parquet2 (not available offline): the same API for pages, column
//! chunks, row groups, statistics and the sequential writer, over a simple private page format.
//! A file is MAGIC, the pages in writing order, a bincode footer, its length (u32) and MAGIC.
use serde::{Deserialize, Serialize};
pub const MAGIC: [u8; 4] = *b"PAR1";

pub mod error {
    #[derive(Debug, Clone)]
    pub enum Error { OutOfSpec(String), FeatureNotSupported(String), InvalidParameter(String), WouldOverAllocate, Transport(String) }
    pub type Result<T> = std::result::Result<T, Error>;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Transport(e.to_string()) } }
    impl From<bincode::Error> for Error { fn from(e: bincode::Error) -> Self { Error::OutOfSpec(e.to_string()) } }
}
use error::{Error, Result};

/// The decoded content of a page (what the real page encodes with levels and PLAIN values).
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Cells {
    Bool(Vec<Option<bool>>), I32(Vec<Option<i32>>), I64(Vec<Option<i64>>), F32(Vec<Option<f32>>), F64(Vec<Option<f64>>),
    I128(Vec<Option<i128>>), Bytes(Vec<Option<Vec<u8>>>),
    /// one entry per row: None or the number of values it takes from the second part
    List(Vec<Option<usize>>, Box<Cells>),
}
impl Cells {
    pub fn rows(&self) -> usize {
        match self { Cells::Bool(v) => v.len(), Cells::I32(v) => v.len(), Cells::I64(v) => v.len(), Cells::F32(v) => v.len(), Cells::F64(v) => v.len(), Cells::I128(v) => v.len(), Cells::Bytes(v) => v.len(), Cells::List(v, _) => v.len() }
    }
    /// number of (definition) levels, as parquet counts page values
    pub fn num_values(&self) -> usize { match self { Cells::List(v, _) => v.iter().map(|x| x.unwrap_or(0).max(1)).sum(), _ => self.rows() } }
}

pub mod encoding {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Encoding { Plain, PlainDictionary, Rle, BitPacked, DeltaBinaryPacked, DeltaLengthByteArray, DeltaByteArray, RleDictionary, ByteStreamSplit }
}
pub mod compression {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ZstdLevel(i32);
    impl ZstdLevel { pub fn try_new(l: i32) -> Result<Self> { if (1..=22).contains(&l) { Ok(ZstdLevel(l)) } else { Err(Error::InvalidParameter("zstd level".into())) } } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum CompressionOptions { Uncompressed, Snappy, Zstd(Option<ZstdLevel>) }
}
pub mod schema {
    pub mod types {
        use serde::{Deserialize, Serialize};
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub enum PhysicalType { Boolean, Int32, Int64, Int96, Float, Double, ByteArray, FixedLenByteArray(usize) }
        /// `logical` stands for parquet's logical/converted type annotations (serialised by the arrow side)
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub struct PrimitiveType { pub name: String, pub physical_type: PhysicalType, pub logical: String }
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub enum ParquetType { PrimitiveType(PrimitiveType), GroupType { name: String, leaf: PrimitiveType } }
        impl ParquetType { pub fn leaf(&self) -> &PrimitiveType { match self { ParquetType::PrimitiveType(p) => p, ParquetType::GroupType { leaf, .. } => leaf } } }
    }
}
use schema::types::{ParquetType, PhysicalType, PrimitiveType};

pub mod statistics {
    use super::*;
    use std::any::Any;
    pub trait Statistics: Send + Sync + std::fmt::Debug { fn as_any(&self) -> &dyn Any; fn physical_type(&self) -> &PhysicalType; }
    #[derive(Debug, Clone, PartialEq)]
    pub struct PrimitiveStatistics<T> { pub physical: PhysicalType, pub null_count: Option<i64>, pub distinct_count: Option<i64>, pub min_value: Option<T>, pub max_value: Option<T> }
    impl<T: Send + Sync + std::fmt::Debug + 'static> Statistics for PrimitiveStatistics<T> { fn as_any(&self) -> &dyn Any { self } fn physical_type(&self) -> &PhysicalType { &self.physical } }
    macro_rules! bytes_stats { ($n:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $n { pub physical: PhysicalType, pub null_count: Option<i64>, pub distinct_count: Option<i64>, pub min_value: Option<$t>, pub max_value: Option<$t> }
        impl Statistics for $n { fn as_any(&self) -> &dyn Any { self } fn physical_type(&self) -> &PhysicalType { &self.physical } }
    } }
    bytes_stats!(BinaryStatistics, Vec<u8>);
    bytes_stats!(FixedLenStatistics, Vec<u8>);
    bytes_stats!(BooleanStatistics, bool);
}
/// Minimum and maximum of the non-null cells (one-cell `Cells`, or empty when there is none).
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RawStats { pub min: Cells, pub max: Cells, pub nulls: usize }
impl RawStats {
    pub fn of(c: &Cells) -> RawStats {
        macro_rules! mm { ($V:ident, $v:expr, $cmp:expr) => {{
            let mut lo = None; let mut hi = None; let mut nulls = 0;
            for x in $v.iter() { match x { None => nulls += 1, Some(x) => {
                if lo.as_ref().map_or(true, |l| $cmp(x, l) == std::cmp::Ordering::Less) { lo = Some(x.clone()) }
                if hi.as_ref().map_or(true, |h| $cmp(x, h) == std::cmp::Ordering::Greater) { hi = Some(x.clone()) }
            } } }
            RawStats { min: Cells::$V(vec![lo]), max: Cells::$V(vec![hi]), nulls }
        }} }
        match c {
            Cells::Bool(v) => mm!(Bool, v, |a: &bool, b: &bool| a.cmp(b)),
            Cells::I32(v) => mm!(I32, v, |a: &i32, b: &i32| a.cmp(b)),
            Cells::I64(v) => mm!(I64, v, |a: &i64, b: &i64| a.cmp(b)),
            Cells::F32(v) => mm!(F32, v, |a: &f32, b: &f32| a.total_cmp(b)),
            Cells::F64(v) => mm!(F64, v, |a: &f64, b: &f64| a.total_cmp(b)),
            Cells::I128(v) => mm!(I128, v, |a: &i128, b: &i128| a.cmp(b)),
            Cells::Bytes(v) => mm!(Bytes, v, |a: &Vec<u8>, b: &Vec<u8>| a.cmp(b)),
            Cells::List(_, c) => RawStats::of(c),
        }
    }
    pub fn join(&self, o: &RawStats) -> RawStats {
        fn cat(a: &Cells, b: &Cells) -> Cells {
            match (a, b) {
                (Cells::Bool(a), Cells::Bool(b)) => Cells::Bool([a.clone(), b.clone()].concat()),
                (Cells::I32(a), Cells::I32(b)) => Cells::I32([a.clone(), b.clone()].concat()),
                (Cells::I64(a), Cells::I64(b)) => Cells::I64([a.clone(), b.clone()].concat()),
                (Cells::F32(a), Cells::F32(b)) => Cells::F32([a.clone(), b.clone()].concat()),
                (Cells::F64(a), Cells::F64(b)) => Cells::F64([a.clone(), b.clone()].concat()),
                (Cells::I128(a), Cells::I128(b)) => Cells::I128([a.clone(), b.clone()].concat()),
                (Cells::Bytes(a), Cells::Bytes(b)) => Cells::Bytes([a.clone(), b.clone()].concat()),
                _ => a.clone(),
            }
        }
        RawStats { min: RawStats::of(&cat(&self.min, &o.min)).min, max: RawStats::of(&cat(&self.max, &o.max)).max, nulls: self.nulls + o.nulls }
    }
}

pub mod page {
    use super::*;
    use std::sync::Arc;
    #[derive(Debug, Clone)]
    pub struct DataPage { pub cells: Cells, pub physical: PhysicalType, pub write_statistics: bool }
    #[derive(Debug, Clone)]
    pub enum Page { Data(DataPage), Dict(()) }
    /// pages before compression
    pub type EncodedPage = Page;
    #[derive(Debug, Clone)]
    pub struct DictPage {}
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct PageHeader { pub num_values: usize, pub physical: PhysicalType, pub stats: Option<RawStats>, pub uncompressed: usize, pub compressed: usize }
    #[derive(Debug, Clone)]
    pub struct CompressedDataPage { pub header: PageHeader, pub buffer: Vec<u8> }
    #[derive(Debug, Clone)]
    pub enum CompressedPage { Data(CompressedDataPage), Dict(DictPage) }
    impl CompressedDataPage {
        pub fn num_values(&self) -> usize { self.header.num_values }
        pub fn uncompressed_size(&self) -> usize { self.header.uncompressed }
        pub fn compressed_size(&self) -> usize { self.buffer.len() }
        pub fn statistics(&self) -> Option<Result<Arc<dyn statistics::Statistics>>> {
            use statistics::*;
            let s = self.header.stats.as_ref()?;
            let p = self.header.physical;
            let n = Some(s.nulls as i64);
            macro_rules! st { ($S:ident, $a:expr, $b:expr) => { Arc::new($S { physical: p, null_count: n, distinct_count: None, min_value: $a[0].clone(), max_value: $b[0].clone() }) as Arc<dyn Statistics> } }
            Some(Ok(match (&s.min, &s.max) {
                (Cells::Bool(a), Cells::Bool(b)) => st!(BooleanStatistics, a, b),
                (Cells::I32(a), Cells::I32(b)) => st!(PrimitiveStatistics, a, b),
                (Cells::I64(a), Cells::I64(b)) => st!(PrimitiveStatistics, a, b),
                (Cells::F32(a), Cells::F32(b)) => st!(PrimitiveStatistics, a, b),
                (Cells::F64(a), Cells::F64(b)) => st!(PrimitiveStatistics, a, b),
                (Cells::I128(a), Cells::I128(b)) => {
                    let f = |v: &Option<i128>| v.map(|v| v.to_be_bytes().to_vec());
                    let (a, b) = (vec![f(&a[0])], vec![f(&b[0])]);
                    st!(FixedLenStatistics, a, b)
                }
                (Cells::Bytes(a), Cells::Bytes(b)) => st!(BinaryStatistics, a, b),
                _ => return Some(Err(Error::OutOfSpec("statistics".into()))),
            }))
        }
    }
}
use page::*;

pub mod metadata {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Descriptor { pub primitive_type: PrimitiveType, pub max_def_level: i16, pub max_rep_level: i16 }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ColumnDescriptor { pub descriptor: Descriptor, pub path_in_schema: Vec<String>, pub base_type: ParquetType }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SchemaDescriptor { pub leaves: Vec<ColumnDescriptor> }
    impl SchemaDescriptor { pub fn columns(&self) -> &[ColumnDescriptor] { &self.leaves } }
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct ColumnChunkMetaData { pub desc: ColumnDescriptor, pub pages: Vec<(u64, PageHeader)>, pub num_values: i64 }
    impl ColumnChunkMetaData {
        pub fn descriptor(&self) -> &ColumnDescriptor { &self.desc }
        pub fn num_values(&self) -> i64 { self.num_values }
        pub fn raw_statistics(&self) -> Option<RawStats> {
            let mut r: Option<RawStats> = None;
            for (_, h) in &self.pages { let s = h.stats.as_ref()?; r = Some(match r { None => s.clone(), Some(q) => q.join(s) }); }
            r
        }
    }
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct RowGroupMetaData { pub columns: Vec<ColumnChunkMetaData>, pub num_rows: usize }
    impl RowGroupMetaData { pub fn columns(&self) -> &[ColumnChunkMetaData] { &self.columns } pub fn num_rows(&self) -> usize { self.num_rows } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct KeyValue { pub key: String, pub value: Option<String> }
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub struct FileMetaData { pub row_groups: Vec<RowGroupMetaData>, pub key_value_metadata: Option<Vec<KeyValue>>, pub schema_descr: SchemaDescriptor, pub num_rows: usize }
    impl FileMetaData { pub fn schema(&self) -> &SchemaDescriptor { &self.schema_descr } }
}
use metadata::*;

pub mod read {
    use super::*;
    use std::io::{Read, Seek, SeekFrom};
    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
        let len = r.seek(SeekFrom::End(0))?;
        if len < 12 { return Err(Error::OutOfSpec("A parquet file must contain a header and footer with at least 12 bytes".into())); }
        r.seek(SeekFrom::End(-8))?;
        let mut t = [0u8; 8];
        r.read_exact(&mut t)?;
        if t[4..] != MAGIC { return Err(Error::OutOfSpec("The file must end with PAR1".into())); }
        let n = u32::from_le_bytes(t[..4].try_into().unwrap()) as u64;
        if n + 12 > len { return Err(Error::OutOfSpec("The footer size must be smaller or equal to the file's size".into())); }
        r.seek(SeekFrom::End(-8 - n as i64))?;
        let mut b = vec![0u8; n as usize];
        r.read_exact(&mut b)?;
        Ok(bincode::deserialize(&b)?)
    }
    pub struct PageReader<'a, R> { reader: &'a mut R, pages: std::vec::IntoIter<(u64, PageHeader)>, max_page_size: usize }
    pub type PageFilter = std::sync::Arc<dyn Fn(&ColumnDescriptor, &PageHeader) -> bool + Send + Sync>;
    pub fn get_page_iterator<'a, R: Read + Seek>(column: &ColumnChunkMetaData, reader: &'a mut R, _filter: Option<PageFilter>, _scratch: Vec<u8>, max_page_size: usize) -> Result<PageReader<'a, R>> {
        Ok(PageReader { reader, pages: column.pages.clone().into_iter(), max_page_size })
    }
    impl<'a, R: Read + Seek> Iterator for PageReader<'a, R> {
        type Item = Result<CompressedPage>;
        fn next(&mut self) -> Option<Self::Item> {
            let (off, h) = self.pages.next()?;
            Some((|| {
                if h.compressed > self.max_page_size { return Err(Error::WouldOverAllocate); }
                self.reader.seek(SeekFrom::Start(off))?;
                let mut b = vec![0u8; h.compressed];
                self.reader.read_exact(&mut b)?;
                Ok(CompressedPage::Data(CompressedDataPage { header: h, buffer: b }))
            })())
        }
    }
    pub fn decompress(page: CompressedPage, _buf: &mut Vec<u8>) -> Result<Page> {
        match page {
            CompressedPage::Data(p) => Ok(Page::Data(DataPage { cells: bincode::deserialize(&p.buffer)?, physical: p.header.physical, write_statistics: p.header.stats.is_some() })),
            CompressedPage::Dict(_) => Err(Error::FeatureNotSupported("dictionary page".into())),
        }
    }
}

pub mod write {
    use super::*;
    use std::io::Write;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Version { V1, V2 }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WriteOptions { pub write_statistics: bool, pub version: Version }
    pub fn compress(page: Page, _buf: Vec<u8>, _c: compression::CompressionOptions) -> Result<CompressedPage> {
        match page {
            Page::Data(p) => {
                let buffer = bincode::serialize(&p.cells)?;
                let stats = if p.write_statistics { Some(RawStats::of(&p.cells)) } else { None };
                let header = PageHeader { num_values: p.cells.num_values(), physical: p.physical, stats, uncompressed: buffer.len(), compressed: buffer.len() };
                Ok(CompressedPage::Data(CompressedDataPage { header, buffer }))
            }
            Page::Dict(_) => Err(Error::FeatureNotSupported("dictionary page".into())),
        }
    }
    /// Writes pages one by one: every column of a row group, then the next row group.
    pub struct FileSeqWriter<W: Write> { w: W, schema: SchemaDescriptor, off: u64, groups: Vec<RowGroupMetaData>, cols: Vec<ColumnChunkMetaData>, pages: Vec<(u64, PageHeader)>, rows: usize }
    impl<W: Write> FileSeqWriter<W> {
        pub fn new(w: W, schema: SchemaDescriptor, _o: WriteOptions, _created_by: Option<String>) -> Self { FileSeqWriter { w, schema, off: 0, groups: vec![], cols: vec![], pages: vec![], rows: 0 } }
        fn start(&mut self) -> Result<()> { if self.off == 0 { self.w.write_all(&MAGIC)?; self.off = 4; } Ok(()) }
        pub fn write_page(&mut self, p: &CompressedPage) -> Result<()> {
            self.start()?;
            match p {
                CompressedPage::Data(p) => {
                    self.w.write_all(&p.buffer)?;
                    let mut h = p.header.clone(); h.compressed = p.buffer.len();
                    self.pages.push((self.off, h));
                    self.off += p.buffer.len() as u64;
                    Ok(())
                }
                CompressedPage::Dict(_) => Err(Error::FeatureNotSupported("dictionary page".into())),
            }
        }
        pub fn end_column(&mut self) -> Result<()> {
            let id = self.cols.len();
            if id >= self.schema.leaves.len() { return Err(Error::InvalidParameter("too many columns".into())); }
            let pages = std::mem::take(&mut self.pages);
            let n: usize = pages.iter().map(|p| p.1.num_values).sum();
            if id == 0 { self.rows = n; }
            self.cols.push(ColumnChunkMetaData { desc: self.schema.leaves[id].clone(), pages, num_values: n as i64 });
            Ok(())
        }
        pub fn end_row_group(&mut self) -> Result<()> {
            if self.cols.len() != self.schema.leaves.len() { return Err(Error::InvalidParameter("The number of columns in the row group is different from the schema".into())); }
            self.groups.push(RowGroupMetaData { columns: std::mem::take(&mut self.cols), num_rows: self.rows });
            Ok(())
        }
        pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> {
            self.start()?;
            let md = FileMetaData { num_rows: self.groups.iter().map(|g| g.num_rows).sum(), row_groups: std::mem::take(&mut self.groups), key_value_metadata: kv, schema_descr: self.schema.clone() };
            let b = bincode::serialize(&md)?;
            self.w.write_all(&b)?;
            self.w.write_all(&(b.len() as u32).to_le_bytes())?;
            self.w.write_all(&MAGIC)?;
            self.w.flush()?;
            self.off += b.len() as u64 + 8;
            Ok(self.off)
        }
        pub fn into_inner(self) -> W { self.w }
    }
}
