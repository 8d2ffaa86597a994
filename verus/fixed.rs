// unit: props=C02,C03,C16,C04,C18
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include palf.rs
//@include default.rs
//@include hitem.rs
//@include hint.rs
//@include kmspec.rs
verus! {
impl PartialEqSpecImpl for f_pixel { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &f_pixel) -> bool { self.0.a.r() == o.0.a.r() && self.0.r.r() == o.0.r.r() && self.0.g.r() == o.0.g.r() && self.0.b.r() == o.0.b.r() } }
impl PartialEq for f_pixel { fn eq(&self, o: &f_pixel) -> bool { self.0.a == o.0.a && self.0.r == o.0.r && self.0.g == o.0.g && self.0.b == o.0.b } }
proof fn dist_zero(p: f_pixel, q: f_pixel) ensures (dist(p, q) == 0real) == px_eq(p, q) {
  let da = q.0.a.r() - p.0.a.r();
  let (x, y, z) = (p.0.r.r() - q.0.r.r(), p.0.g.r() - q.0.g.r(), p.0.b.r() - q.0.b.r());
  sqz(x); sqz(y); sqz(z); sqz(x + da); sqz(y + da); sqz(z + da);
}
proof fn sqz(x: real) by (nonlinear_arith) ensures x * x >= 0real, (x * x == 0real) == (x == 0real) {}
/// more pairwise different colours than there is room for cannot all be there
proof fn pigeon(f: Seq<f_pixel>, s: Seq<f_pixel>) requires kept_all(f, s), px_distinct(f) ensures f.len() <= s.len() decreases s.len() {
  if f.len() > 0 {
    let c = f.last(); assert(px_in(s, f[f.len() - 1])); let j = choose|j: int| 0 <= j < s.len() && px_eq(#[trigger] s[j], c);
    let (f2, s2) = (f.drop_last(), s.remove(j));
    assert forall|i: int| 0 <= i < f2.len() implies px_in(s2, #[trigger] f2[i]) by { assert(px_in(s, f[i])); let k = choose|k: int| 0 <= k < s.len() && px_eq(#[trigger] s[k], f[i]); assert(!px_eq(f[i], f[f.len() - 1])); if k < j { assert(s2[k] == s[k]); } else { assert(k != j); assert(s2[k - 1] == s[k]); } }
    assert forall|i: int, k: int| 0 <= i < k < f2.len() implies !px_eq(#[trigger] f2[i], #[trigger] f2[k]) by { assert(!px_eq(f[i], f[k])); }
    pigeon(f2, s2);
  }
}
/// the closest of the remaining entries to a fixed colour that is in the palette is that colour: nothing is lost by putting it there
proof fn exact_step(f: Seq<f_pixel>, c0: Seq<f_pixel>, cur: Seq<f_pixel>, i: int, b: int)
  requires 0 <= i < f.len(), i <= b < cur.len(), cur.len() == c0.len(), kept_all(f, c0), px_distinct(f), kept_all(c0, cur), forall|k: int| 0 <= k < i ==> px_eq(#[trigger] cur[k], f[k]), forall|j: int| i <= j < cur.len() ==> dist(cur[b], f[i]) <= dist(#[trigger] cur[j], f[i])
  ensures kept_all(c0, cur.update(i, cur[b]).update(b, cur[i]).update(i, f[i]))
{
  assert(px_in(c0, f[i])); let m = choose|m: int| 0 <= m < c0.len() && px_eq(#[trigger] c0[m], f[i]); assert(px_in(cur, c0[m])); let j = choose|j: int| 0 <= j < cur.len() && px_eq(#[trigger] cur[j], c0[m]);
  if j < i { assert(px_eq(cur[j], f[j])); assert(!px_eq(f[j], f[i])); }
  dist_zero(cur[j], f[i]); dist_zero(cur[b], f[i]); dist_nonneg(cur[b], f[i]);
  let n = cur.update(i, cur[b]).update(b, cur[i]).update(i, f[i]);
  assert forall|q: int| 0 <= q < c0.len() implies px_in(n, #[trigger] c0[q]) by {
    assert(px_in(cur, c0[q])); let k = choose|k: int| 0 <= k < cur.len() && px_eq(#[trigger] cur[k], c0[q]);
    let w = if k == b { i } else if k == i { b } else { k };
    assert(px_eq(n[w], c0[q]));
  }
}
impl PalF {
//@fn src/pal.rs PalF::with_fixed_colors
    requires pal_wf(self), self.colors@.len() <= max_colors, max_colors <= MAX_COLORS,
    ensures pal_wf(r), r.colors@.len() >= self.colors@.len(), r.colors@.len() <= max_colors,
        fixed_colors@.len() == 0 ==> r == self,
        r.colors@.len() >= (if fixed_colors@.len() < max_colors { fixed_colors@.len() as int } else { max_colors as int }),
        front(r, fixed_colors@, if fixed_colors@.len() < r.colors@.len() { fixed_colors@.len() as int } else { r.colors@.len() as int }),
        pal_bnd3(self.colors@) && pal_bnd3(fixed_colors@) ==> pal_bnd3(r.colors@),
        pal_in_range(self) && pal_not_fixed(self) ==> forall|k: int| #![trigger r.colors@[k]] #![trigger r.pops@[k]] fixed_colors@.len() <= k < r.colors@.len() ==> in_range(r.colors@[k]) && r.pops@[k].0.r() >= 0real,
        kept_all(fixed_colors@, self.colors@) && px_distinct(fixed_colors@) ==> r.colors@.len() == self.colors@.len() && kept_all(self.colors@, r.colors@),
//@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@subst . expect ( "logic bug in fixed colors, please report a bug" ) => . unwrap ( )
//@subst let mut vx_acc4 = None => let mut vx_acc4 : Option<(usize, &f_pixel)> = None
//@subst let mut vx_key4 = vx_default_key => let mut vx_key4 : F = vx_default_key
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == needs_extra, vx_self.colors@.len() == self.colors@.len() + vx_i1, vx_self.pops@ == self.pops@, forall|k: int| 0 <= k < self.colors@.len() ==> #[trigger] vx_self.colors@[k] == self.colors@[k],
        forall|k: int| self.colors@.len() <= k < vx_self.colors@.len() ==> #[trigger] vx_self.colors@[k] == fixed_colors@[k - self.colors@.len()],
    decreases vx_n1 - vx_i1,
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == needs_extra, vx_self.pops@.len() == self.pops@.len() + vx_i2, vx_self.colors@.len() == self.colors@.len() + needs_extra,
        forall|k: int| 0 <= k < self.pops@.len() ==> #[trigger] vx_self.pops@[k] == self.pops@[k], forall|k: int| self.pops@.len() <= k < vx_self.pops@.len() ==> (#[trigger] vx_self.pops@[k]).0.r() == 0real,
    decreases vx_n2 - vx_i2,
//@before loop 3
    let ghost n0 = vx_self.colors@.len(); let ghost C0 = vx_self.colors@; let ghost hyp = kept_all(fixed_colors@, self.colors@) && px_distinct(fixed_colors@);
    proof { if hyp { if fixed_colors@.len() > self.colors@.len() { pigeon(fixed_colors@, self.colors@); } assert(vx_self.colors@ =~= self.colors@); }
       if pal_bnd3(self.colors@) && pal_bnd3(fixed_colors@) { assert forall|k: int| 0 <= k < n0 implies bnd3(#[trigger] vx_self.colors@[k]) by { if k < self.colors@.len() { assert(bnd3(self.colors@[k])); } else { assert(bnd3(fixed_colors@[k - self.colors@.len()])); } } } }
//@loop 3
    invariant vx_i3 <= vx_n3, vx_n3 <= fixed_colors@.len(), vx_n3 <= n0, (vx_n3 == n0 || vx_n3 == fixed_colors@.len()), pal_wf(vx_self), vx_self.colors@.len() == n0, front(vx_self, fixed_colors@, vx_i3 as int),
        pal_bnd3(self.colors@) && pal_bnd3(fixed_colors@) ==> pal_bnd3(vx_self.colors@),
        pal_not_fixed(self) ==> forall|k: int| vx_i3 <= k < n0 ==> (#[trigger] vx_self.pops@[k]).0.r() >= 0real,
        pal_in_range(self) && n0 == self.colors@.len() ==> forall|k: int| vx_i3 <= k < n0 ==> in_range(#[trigger] vx_self.colors@[k]),
        hyp ==> kept_all(C0, vx_self.colors@),
    decreases vx_n3 - vx_i3,
//@in loop 3
    let ghost cur = vx_self.colors@; let ghost gi = vx_i3 as int;
//@before vx_self . swap ( i , best_idx ) ;
    proof { if hyp { exact_step(fixed_colors@, C0, cur, gi, best_idx as int); } }
//@end loop 3
    proof { assert(vx_self.colors@ == cur.update(i as int, cur[best_idx as int]).update(best_idx as int, cur[i as int]).update(i as int, *fixed_color)); }
//@loop 4
    invariant vx_i4 <= vx_n4, vx_n4 == n0, vx_i4 > i ==> vx_acc4.is_some(), vx_acc4.is_some() ==> i <= (vx_acc4->0).0 < n0 && (vx_acc4->0).0 < vx_i4 && vx_key4.r() == dist(vx_self.colors@[(vx_acc4->0).0 as int], *fixed_color) && forall|j: int| i <= j < vx_i4 ==> vx_key4.r() <= dist(#[trigger] vx_self.colors@[j], *fixed_color),
    decreases vx_n4 - vx_i4,
//@loop 5
    invariant_except_break vx_acc5 == true,
    invariant vx_i5 <= vx_n5, vx_n5 <= vx_self.colors@.len(), vx_n5 <= fixed_colors@.len(),
    ensures vx_acc5 == true,
    decreases vx_n5 - vx_i5,
//@loop 6
    invariant_except_break vx_acc6 == true,
    invariant vx_i6 <= vx_n6, vx_n6 <= vx_self.pops@.len(), vx_n6 <= fixed_colors@.len(),
    ensures vx_acc6 == true,
    decreases vx_n6 - vx_i6,
//@end
}
}
fn main() {}
