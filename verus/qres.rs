verus! {
//@type src/pal.rs Palette std::os::raw::c_uint=>u32
//@type src/remap.rs Remapped
//@type src/quant.rs QuantizationResult drop=progress_callback
impl QuantizationResult {
  /// the callback is the user's
  #[verifier::external_body] pub fn remap_progress(&self, percent: F, Tracked(log): Tracked<&mut Log>) -> (r: bool)
    requires 0real <= percent.r() <= 100real
    ensures final(log).calls == old(log).calls.push((percent.r(), r)), r ==> forall|a: Seq<(real, bool)>| a.len() <= old(log).calls.len() ==> #[trigger] stopped(a, final(log).calls) { unimplemented!() }
}
}
