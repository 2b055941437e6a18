//! Stand-in for floats with a total order: NaN is the greatest value.
use std::cmp::Ordering;
#[derive(Clone, Copy, Debug)]
pub struct OrderedFloat<T>(pub T);
impl Ord for OrderedFloat<f32> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.partial_cmp(&o.0).unwrap_or_else(|| self.0.is_nan().cmp(&o.0.is_nan()))
    }
}
impl PartialOrd for OrderedFloat<f32> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for OrderedFloat<f32> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for OrderedFloat<f32> {}
