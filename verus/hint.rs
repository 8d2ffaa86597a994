verus! {
//@const src/hist.rs LIQ_MAXCLUSTER int
//@type src/hist.rs Cluster derive=Clone,Copy
//@type src/hist.rs HistogramInternal Box<[HistItem]>=>Vec<HistItem> Box<[f_pixel]>=>Vec<f_pixel>
/// clusters cover the items in order
pub open spec fn clusters_ok(c: Seq<Cluster>, n: int) -> bool { c.len() == 16 && c[0].begin == 0 && c[15].end == n && (forall|i: int| 0 <= i < 16 ==> (#[trigger] c[i]).begin <= c[i].end) && (forall|i: int| 0 < i < 16 ==> c[i - 1].end == (#[trigger] c[i]).begin) }
pub open spec fn pal_in_range(p: PalF) -> bool { forall|i: int| 0 <= i < p.colors@.len() ==> in_range(#[trigger] p.colors@[i]) }
pub open spec fn pal_not_fixed(p: PalF) -> bool { forall|i: int| 0 <= i < p.pops@.len() ==> (#[trigger] p.pops@[i]).0.r() >= 0real }
}
