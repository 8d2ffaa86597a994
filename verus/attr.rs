verus! {
/// the calls of the progress callback: the value it got, and whether it asked to stop
pub tracked struct Log { pub ghost calls: Seq<(real, bool)> }
pub open spec fn extends(a: Seq<(real, bool)>, b: Seq<(real, bool)>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// a call since `a` asked to stop
pub open spec fn stopped(a: Seq<(real, bool)>, b: Seq<(real, bool)>) -> bool { exists|i: int| a.len() <= i < b.len() && (#[trigger] b[i]).1 }
//@type src/remap.rs DitherMapMode derive=Clone,Copy,PartialEq
//@type src/attr.rs Attributes drop=progress_callback drop=log_callback drop=log_flush_callback
/// established by Attributes::new and kept by every setter (Kani: attr.rs)
pub open spec fn attr_ok(a: Attributes) -> bool {
    &&& 2 <= a.max_colors <= 256 && a.target_mse.r() >= 0real && (a.max_mse.is_some() ==> (a.max_mse->0).r() >= 0real && a.target_mse.r() <= (a.max_mse->0).r())
    &&& 1 <= a.speed <= 10 && a.min_posterization_output <= 4 && a.min_posterization_input <= 1 && a.kmeans_iterations <= 31 && a.feedback_loop_trials <= 47
    &&& a.kmeans_iteration_limit.r() > 0real && a.progress_stage1 + a.progress_stage2 + a.progress_stage3 == 100
}
#[verifier::external_body] pub fn vx_format() -> String { unimplemented!() }
impl Attributes {
  /// the callback is the user's; what it is given has to be a percentage
  #[verifier::external_body] pub fn progress(&self, percent: F, Tracked(log): Tracked<&mut Log>) -> (r: bool)
    requires 0real <= percent.r() <= 100real
    ensures final(log).calls == old(log).calls.push((percent.r(), r)), r ==> forall|a: Seq<(real, bool)>| a.len() <= old(log).calls.len() ==> #[trigger] stopped(a, final(log).calls) { unimplemented!() }
  pub fn verbose_print<T>(&self, msg: T) {}
//@fn src/attr.rs Attributes::feedback_loop_trials pub
    requires attr_ok(*self),
    ensures r <= 47,
//@end
//@fn src/attr.rs Attributes::target_mse pub
    requires attr_ok(*self),
    ensures r.0.is_some() == self.max_mse.is_some(), r.0.is_some() ==> (r.0->0).r() >= 0real && (r.0->0).r() <= (self.max_mse->0).r() && (r.0->0).r() >= 33real / 100real * (self.max_mse->0).r() && (hist_items_len > MAX_COLORS ==> (r.0->0).r() == (self.max_mse->0).r()), r.1.r() >= 0real, r.2 == (self.target_mse.r() == 0real),
//@end
//@fn src/attr.rs Attributes::kmeans_iterations pub
    requires attr_ok(*self),
    ensures r.0 <= 31, r.1.r() > 0real, !palette_error_is_known && self.max_mse.is_some() ==> r.0 >= 1,
//@end
}
}
