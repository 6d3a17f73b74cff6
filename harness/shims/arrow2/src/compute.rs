pub mod merge_sort {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SortOptions { pub descending: bool, pub nulls_first: bool }
    impl Default for SortOptions { fn default() -> Self { SortOptions { descending: false, nulls_first: true } } }
}
pub mod take {
    use crate::array::{gather, Array, PrimitiveArray};
    use crate::types::Index;
    pub fn take<O: Index>(values: &dyn Array, idx: &PrimitiveArray<O>) -> crate::error::Result<Box<dyn Array>> {
        Ok(gather(&[values], &idx.values_iter().map(|i| (0, i.to_usize())).collect::<Vec<_>>()))
    }
}
pub mod sort {
    use super::merge_sort::SortOptions;
    use crate::array::*;
    use crate::datatypes::{PhysicalType, PrimitiveType};
    use crate::error::{Error, Result};
    use crate::types::{Index};
    use std::cmp::Ordering;
    pub struct SortColumn<'a> { pub values: &'a dyn Array, pub options: Option<SortOptions> }
    fn cmp_cells(a: &dyn Array, i: usize, j: usize) -> Result<Ordering> {
        macro_rules! c { ($A:ty) => {{ let a = a.as_any().downcast_ref::<$A>().unwrap(); PartialOrd::partial_cmp(&a.value(i), &a.value(j)).unwrap_or(Ordering::Equal) }} }
        Ok(with_array_type!(a.data_type(), c, return Err(Error::NotYetImplemented(format!("sort by {:?}", a.data_type())))))
    }
    pub fn lexsort_to_indices<I: Index>(cols: &[SortColumn], limit: Option<usize>) -> Result<PrimitiveArray<I>> {
        if cols.is_empty() { return Err(Error::InvalidArgumentError("Sort requires at least one column".to_string())); }
        let n = cols[0].values.len();
        if cols.iter().any(|c| c.values.len() != n) { return Err(Error::InvalidArgumentError("Lexical sort columns have different row counts".to_string())); }
        if n > 0 { for c in cols { cmp_cells(c.values, 0, 0)?; } }
        let mut ix: Vec<usize> = (0..n).collect();
        ix.sort_unstable_by(|&i, &j| {
            for c in cols {
                let o = c.options.unwrap_or_default();
                let r = match (c.values.is_null(i), c.values.is_null(j)) {
                    (true, true) => Ordering::Equal,
                    (true, false) => if o.nulls_first { Ordering::Less } else { Ordering::Greater },
                    (false, true) => if o.nulls_first { Ordering::Greater } else { Ordering::Less },
                    _ => { let r = cmp_cells(c.values, i, j).unwrap(); if o.descending { r.reverse() } else { r } }
                };
                if r != Ordering::Equal { return r; }
            }
            Ordering::Equal
        });
        ix.truncate(limit.unwrap_or(n));
        Ok(PrimitiveArray::from_vec(ix.into_iter().map(I::from_usize).collect()))
    }
}
