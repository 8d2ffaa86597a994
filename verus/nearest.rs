// unit: props=C10,C01,C16,C17
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include sort.rs
//@include default.rs
//@include metric.rs
//@include bnd.rs
//@include palf.rs
verus! {
pub enum Error { Unsupported }
//@const src/nearest.rs LEAF_MAX_SIZE int
//@type src/nearest.rs MapIndex
//@type src/nearest.rs Visitor
//@type src/nearest.rs Node
//@type src/nearest.rs NodeInner
//@type src/nearest.rs Nearest

pub open spec fn height(n: Node) -> nat decreases n {
    match n.inner { NodeInner::Nodes { near, far, .. } => 1 + height(*near) + height(*far), NodeInner::Leaf { .. } => 0 }
}
/// palette entry i is somewhere in the tree
pub open spec fn has(n: Node, i: int) -> bool decreases n {
    i == n.idx || match n.inner {
        NodeInner::Nodes { near, far, .. } => has(*near, i) || has(*far, i),
        NodeInner::Leaf { len, idxs, .. } => exists|k: int| 0 <= k < len && #[trigger] idxs@[k] == i,
    }
}
pub open spec fn wf(n: Node, pal: Seq<f_pixel>) -> bool decreases n {
    n.idx < pal.len() && n.vantage_point == pal[n.idx as int] && match n.inner {
        NodeInner::Nodes { radius, radius_squared, near, far } => wf(*near, pal) && wf(*far, pal) && radius.r() >= 0real && radius_squared.r() == sq(radius.r())
            && (forall|i: int| #[trigger] has(*near, i) ==> dist(n.vantage_point, pal[i]) <= radius_squared.r())
            && (forall|i: int| #[trigger] has(*far, i) ==> dist(n.vantage_point, pal[i]) >= radius_squared.r()),
        NodeInner::Leaf { len, idxs, colors } => len <= LEAF_MAX_SIZE && (forall|k: int| 0 <= k < len ==> #[trigger] idxs@[k] < pal.len() && colors@[k] == pal[idxs@[k] as int]),
    }
}
pub open spec fn excl(v: Visitor, i: int) -> bool { v.exclude.is_some() && v.exclude->0 == i }
pub open spec fn vis_ok(v: Visitor) -> bool { v.distance.r() >= 0real && v.distance_squared.r() == sq(v.distance.r()) || v.distance_squared.r() >= BIG() && v.distance.r() >= BIG() }
/// the best so far is the old one, or an entry of the tree that is closer
pub open spec fn improved(o: Visitor, v: Visitor, pal: Seq<f_pixel>, needle: f_pixel) -> bool {
    v.exclude == o.exclude && vis_ok(v) && v.distance_squared.r() <= o.distance_squared.r()
    && (v == o || v.idx < pal.len() && !excl(o, v.idx as int) && v.distance_squared.r() == dist(pal[v.idx as int], needle))
}
pub open spec fn covers(v: Visitor, pal: Seq<f_pixel>, needle: f_pixel, i: int) -> bool { excl(v, i) || v.distance_squared.r() <= dist(pal[i], needle) }
pub open spec fn in_idx(s: Seq<MapIndex>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k].idx == i }
pub open spec fn pal_bnd(pal: Seq<f_pixel>) -> bool { forall|i: int| 0 <= i < pal.len() ==> bnd(#[trigger] pal[i]) }
/// the tree has every palette entry, and each radius is no more than half of the way to any other entry
pub open spec fn nearest_ok(n: Nearest) -> bool {
    pal_wf(*n.palette) && n.palette.colors@.len() > 0 && pal_bnd(n.palette.colors@) && wf(n.root, n.palette.colors@)
    && (forall|i: int| 0 <= i < n.palette.colors@.len() ==> #[trigger] has(n.root, i))
    && (forall|i: int, j: int| 0 <= i < n.palette.colors@.len() && 0 <= j < n.palette.colors@.len() && i != j ==> (#[trigger] n.nearest_other_color_dist@[i]).r() * 4real <= dist(#[trigger] n.palette.colors@[j], n.palette.colors@[i]))
}
proof fn has_in(n: Node, pal: Seq<f_pixel>, i: int) requires wf(n, pal), has(n, i) ensures 0 <= i < pal.len() decreases n {
    if i != n.idx { match n.inner { NodeInner::Nodes { near, far, .. } => { if has(*near, i) { has_in(*near, pal, i); } else { has_in(*far, pal, i); } }, NodeInner::Leaf { len, idxs, .. } => {} } }
}
impl Visitor {
//@fn src/nearest.rs Visitor::visit
    requires vis_ok(*old(self)), distance.r() >= 0real, distance_squared.r() == sq(distance.r()),
    ensures
        (distance_squared.r() < old(self).distance_squared.r() && !excl(*old(self), idx as int)) ==> final(self).distance == distance && final(self).distance_squared == distance_squared && final(self).idx == idx && final(self).exclude == old(self).exclude,
        !(distance_squared.r() < old(self).distance_squared.r() && !excl(*old(self), idx as int)) ==> *final(self) == *old(self),
//@pre
self . exclude != Some ( idx ) => vx_not_some ( self . exclude , idx )
//@end
}
pub fn vx_not_some(o: Option<PalIndex>, i: PalIndex) -> (z: bool) ensures z == !(o.is_some() && o->0 == i) { match o { Some(x) => x != i, None => true } }

proof fn small(r: real) requires sq(r) <= 48000000real ensures r <= 7000real { if r > 7000real { assert(r * r > 49000000real) by (nonlinear_arith) requires r > 7000real; } }
proof fn prune_far(vp: f_pixel, needle: f_pixel, pal: Seq<f_pixel>, far: Node, radius: real, d: real, v: Visitor)
    requires wf(far, pal), d >= 0real, sq(d) == dist(vp, needle), radius > d + v.distance.r(), vis_ok(v), pal_bnd(pal), bnd(needle),
        bnd(vp), forall|i: int| #[trigger] has(far, i) ==> dist(vp, pal[i]) >= sq(radius),
    ensures forall|i: int| #[trigger] has(far, i) ==> covers(v, pal, needle, i)
{
    assert(has(far, far.idx as int)); dist_bound(vp, pal[far.idx as int]); small(radius);
    assert forall|i: int| #[trigger] has(far, i) implies covers(v, pal, needle, i) by {
        let b = v.distance.r();
        if dist(pal[i], needle) < sq(b) {
            dist_sym(pal[i], needle);
            triangle(vp, needle, pal[i], d, b);
            assert(sq(d + b) < sq(radius)) by (nonlinear_arith) requires 0real <= d + b, d + b < radius;
        }
    }
}
proof fn prune_near(vp: f_pixel, needle: f_pixel, pal: Seq<f_pixel>, near: Node, radius: real, d: real, v: Visitor)
    requires wf(near, pal), d >= 0real, radius >= 0real, sq(d) == dist(vp, needle), d > radius + v.distance.r(), vis_ok(v), pal_bnd(pal), bnd(needle), bnd(vp),
        forall|i: int| #[trigger] has(near, i) ==> dist(vp, pal[i]) <= sq(radius),
    ensures forall|i: int| #[trigger] has(near, i) ==> covers(v, pal, needle, i)
{
    dist_bound(vp, needle); small(d);
    assert forall|i: int| #[trigger] has(near, i) implies covers(v, pal, needle, i) by {
        let b = v.distance.r();
        if dist(pal[i], needle) < sq(b) {
            triangle(vp, pal[i], needle, radius, b);
            assert(sq(radius + b) < sq(d)) by (nonlinear_arith) requires 0real <= radius + b, radius + b < d;
        }
    }
}
//@fn src/nearest.rs vp_search_node
    requires wf(*node, pal), vis_ok(*old(best_candidate)), pal_bnd(pal), bnd(*needle),
    ensures improved(*old(best_candidate), *final(best_candidate), pal, *needle), forall|i: int| #[trigger] has(*node, i) ==> covers(*final(best_candidate), pal, *needle, i),
    decreases height(*node),
//@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ghostparam
Ghost(pal): Ghost<Seq<f_pixel>>
//@ghostarg
vp_search_node => Ghost(pal)
//@entry
    let ghost node0 = *node;
    let ghost old_v = *best_candidate;
//@loop 1
    invariant wf(*node, pal), height(*node) <= height(node0), pal_bnd(pal), bnd(*needle), vis_ok(old_v), improved(old_v, *best_candidate, pal, *needle),
        forall|i: int| #[trigger] has(node0, i) ==> has(*node, i) || covers(*best_candidate, pal, *needle, i),
    ensures improved(old_v, *best_candidate, pal, *needle), forall|i: int| #[trigger] has(node0, i) ==> covers(*best_candidate, pal, *needle, i),
    decreases height(*node),
//@after best_candidate . visit ( distance , distance_squared , node . idx ) ;
    proof { dist_bound(node.vantage_point, *needle); }
    let ghost nd = *node;
    assert(covers(*best_candidate, pal, *needle, nd.idx as int));
    assert(forall|i: int| #[trigger] has(node0, i) ==> has(nd, i) || covers(*best_candidate, pal, *needle, i));
    assert(match nd.inner { NodeInner::Nodes { near, far, .. } => height(*near) < height(nd) && height(*far) < height(nd), _ => true });
    assert(match nd.inner { NodeInner::Nodes { near, far, .. } => forall|i: int| #[trigger] has(nd, i) ==> i == nd.idx || has(*near, i) || has(*far, i), _ => true });
//@before break ; } , NodeInner :: Leaf
    proof { match nd.inner { NodeInner::Nodes { near, far, .. } => if distance_squared.r() < radius_squared.r() { prune_far(nd.vantage_point, *needle, pal, *far, radius.r(), distance.r(), *best_candidate); } else { prune_near(nd.vantage_point, *needle, pal, *near, radius.r(), distance.r(), *best_candidate); }, _ => {} } }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == num, num <= LEAF_MAX_SIZE, bnd(*needle), vis_ok(*best_candidate), improved(old_v, *best_candidate, pal, *needle),
        forall|k: int| 0 <= k < num ==> #[trigger] idxs@[k] < pal.len() && colors@[k] == pal[idxs@[k] as int],
        forall|k: int| 0 <= k < vx_i2 ==> covers(*best_candidate, pal, *needle, #[trigger] idxs@[k] as int),
        forall|i: int| #[trigger] has(node0, i) ==> has(nd, i) || covers(*best_candidate, pal, *needle, i),
        covers(*best_candidate, pal, *needle, nd.idx as int),
    decreases vx_n2 - vx_i2,
//@end
proof fn perm_in(o: Seq<MapIndex>, n: Seq<MapIndex>, keys: Seq<F>, perm: Seq<int>, inv: Seq<int>)
    requires sorted_by(o, n, keys, perm, inv)
    ensures forall|i: int| #[trigger] in_idx(o, i) <==> in_idx(n, i), forall|k: int| 0 <= k < n.len() ==> in_idx(o, #[trigger] n[k].idx as int)
{
    assert forall|i: int| #[trigger] in_idx(o, i) implies in_idx(n, i) by { let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k].idx == i; assert(n[inv[k]].idx == i); }
    assert forall|i: int| in_idx(n, i) implies #[trigger] in_idx(o, i) by { let k = choose|k: int| 0 <= k < n.len() && #[trigger] n[k].idx == i; assert(o[perm[k]].idx == i); }
}
//@fn src/nearest.rs vp_create_node
    requires pal_wf(*items), old(indexes)@.len() >= 1, old(indexes)@.len() <= MAX_COLORS, forall|k: int| 0 <= k < old(indexes)@.len() ==> #[trigger] old(indexes)@[k].idx < items.colors@.len(),
    ensures wf(r, items.colors@), forall|i: int| #[trigger] has(r, i) <==> in_idx(old(indexes)@, i),
    decreases old(indexes)@.len(),
//@attrs
#[verifier::loop_isolation(false)] #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@subst let mut idxs = [ Default :: default ( ) ; LEAF_MAX_SIZE ] => let mut idxs = [ 0u8 ; LEAF_MAX_SIZE ]
//@subst let mut vx_acc1 = None => let mut vx_acc1 : Option<(usize, &MapIndex)> = None
//@entry
    let ghost pal = items.colors@;
    let ghost s0 = indexes@;
    let ghost mut gk: Seq<F> = Seq::empty();
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == indexes@.len(), vx_i1 > 0 ==> vx_acc1.is_some(), vx_acc1.is_some() ==> (vx_acc1->0).0 < indexes@.len(),
    decreases vx_n1 - vx_i1,
//@after let ( ref_ , indexes ) = indexes . split_first_mut ( ) . unwrap ( ) ;
    let ghost s2 = indexes@;
    let ghost ri = ref_.idx as int;
    proof {
        let m = most_popular_item as int;
        assert forall|i: int| #[trigger] in_idx(s0, i) <==> (i == ri || in_idx(s2, i)) by {
            if in_idx(s0, i) { let k = choose|k: int| 0 <= k < s0.len() && #[trigger] s0[k].idx == i; if k == m { } else if k == 0 { assert(s2[m - 1].idx == i); } else { assert(s2[k - 1].idx == i); } }
            if i == ri { assert(s0[m].idx == i); }
            if in_idx(s2, i) { let k = choose|k: int| 0 <= k < s2.len() && #[trigger] s2[k].idx == i; if k + 1 == m { assert(s0[0].idx == i); } else { assert(s0[k + 1].idx == i); } }
        }
        assert forall|k: int| 0 <= k < s2.len() implies #[trigger] s2[k].idx < pal.len() by { assert(in_idx(s2, s2[k].idx as int)); }
    }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == indexes@.len(), indexes@ == s2, vx_keys2@.len() == vx_i2, forall|k: int| 0 <= k < vx_i2 ==> (#[trigger] vx_keys2@[k]).r() == dist(vantage_point, pal[s2[k].idx as int]),
    decreases vx_n2 - vx_i2,
//@after loop 2
    proof { gk = vx_keys2@; }
//@after let num_indexes = indexes . len ( ) ;
    let ghost s3 = indexes@;
    let ghost (gperm, ginv) = choose|perm: Seq<int>, inv: Seq<int>| sorted_by(s2, s3, gk, perm, inv);
    proof { perm_in(s2, s3, gk, gperm, ginv); }
    assert forall|a: int, b: int| 0 <= a < b < s3.len() implies dist(vantage_point, pal[(#[trigger] s3[a]).idx as int]) <= dist(vantage_point, pal[(#[trigger] s3[b]).idx as int]) by { assert(gk[gperm[a]].r() <= gk[gperm[b]].r()); }
    assert forall|k: int| 0 <= k < s3.len() implies #[trigger] s3[k].idx < pal.len() by { assert(in_idx(s2, s3[k].idx as int)); }
//@before Node { inner ,
    let ghost nn = Node { inner, vantage_point, idx: ref_.idx };
    assert forall|i: int| #[trigger] has(nn, i) <==> in_idx(s0, i) by {
        match inner {
            NodeInner::Nodes { near, far, .. } => { assert(has(nn, i) <==> i == ri || has(*near, i) || has(*far, i)); assert(in_idx(s0, i) <==> i == ri || in_idx(s3, i)); },
            NodeInner::Leaf { len, idxs, .. } => {
                if in_idx(s3, i) { let k = choose|k: int| 0 <= k < s3.len() && #[trigger] s3[k].idx == i; assert(idxs@[k] == i); }
                if exists|k: int| 0 <= k < len && #[trigger] idxs@[k] == i { let k = choose|k: int| 0 <= k < len && #[trigger] idxs@[k] == i; assert(s3[k].idx == i); }
            },
        }
    }
    assert(wf(nn, pal));
//@loop 3
    invariant vx_i3 <= vx_n3, vx_n3 == num_indexes, indexes@ == s3, num_indexes <= LEAF_MAX_SIZE, forall|k: int| 0 <= k < vx_i3 ==> #[trigger] idxs@[k] == s3[k].idx, forall|k: int| 0 <= k < vx_i3 ==> #[trigger] colors@[k] == pal[s3[k].idx as int],
    decreases vx_n3 - vx_i3,
//@after let ( near , far ) = indexes . split_at_mut ( half_index ) ;
    let ghost (sn, sf) = (near@, far@);
    proof {
        assert forall|i: int| #[trigger] in_idx(s3, i) <==> (in_idx(sn, i) || in_idx(sf, i)) by {
            if in_idx(s3, i) { let k = choose|k: int| 0 <= k < s3.len() && #[trigger] s3[k].idx == i; if k < sn.len() { assert(sn[k].idx == i); } else { assert(sf[k - sn.len()].idx == i); } }
            if in_idx(sn, i) { let k = choose|k: int| 0 <= k < sn.len() && #[trigger] sn[k].idx == i; assert(s3[k].idx == i); }
            if in_idx(sf, i) { let k = choose|k: int| 0 <= k < sf.len() && #[trigger] sf[k].idx == i; assert(s3[k + sn.len()].idx == i); }
        }
        assert forall|i: int| #[trigger] in_idx(sn, i) implies dist(vantage_point, pal[i]) <= dist(vantage_point, pal[sf[0].idx as int]) by { let k = choose|k: int| 0 <= k < sn.len() && #[trigger] sn[k].idx == i; assert(s3[k].idx == i); assert(s3[sn.len() as int] == sf[0]); }
        assert forall|i: int| #[trigger] in_idx(sf, i) implies dist(vantage_point, pal[i]) >= dist(vantage_point, pal[sf[0].idx as int]) by { let k = choose|k: int| 0 <= k < sf.len() && #[trigger] sf[k].idx == i; assert(s3[k + sn.len()].idx == i); assert(s3[sn.len() as int] == sf[0]); }
    }
//@end
impl<'pal> Nearest<'pal> {
//@fn src/nearest.rs Nearest::new
    requires pal_wf(*palette), pal_bnd(palette.colors@),
    ensures palette.colors@.len() > 0 ==> r.is_ok(), r.is_err() ==> r->Err_0 == Error::Unsupported, r.is_ok() ==> nearest_ok(r->Ok_0) && r->Ok_0.palette == palette,
//@ghostarg
vp_search_node => Ghost(palette.colors.view())
//@subst let mut vx_acc1 = Vec :: new ( ) => let mut vx_acc1 : Vec<MapIndex> = Vec::new()
//@attrs
#[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == palette.colors@.len(), vx_n1 <= MAX_COLORS, vx_acc1@.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> #[trigger] vx_acc1@[k].idx == k,
    decreases vx_n1 - vx_i1,
//@before loop 2
    let ghost root0 = handle.root;
    assert forall|i: int| 0 <= i < palette.colors@.len() implies #[trigger] has(root0, i) by { assert(idx0[i].idx == i); assert(in_idx(idx0, i)); }
//@before let mut handle =
    let ghost idx0 = indexes@;
//@after vp_search_node ( & handle . root , color , & mut best , Ghost ( palette . colors . view ( ) ) ) ;
    assert forall|j: int| 0 <= j < palette.colors@.len() && j != i implies best.distance_squared.r() <= dist(#[trigger] palette.colors@[j], palette.colors@[i as int]) by { assert(has(root0, j)); assert(covers(best, palette.colors@, *color, j)); }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == palette.colors@.len(), vx_n2 <= MAX_COLORS, handle.palette == palette, handle.root == root0,
        forall|i: int, j: int| 0 <= i < vx_i2 && 0 <= j < palette.colors@.len() && i != j ==> (#[trigger] handle.nearest_other_color_dist@[i]).r() * 4real <= dist(#[trigger] palette.colors@[j], palette.colors@[i]),
    decreases vx_n2 - vx_i2,
//@end
//@fn src/nearest.rs Nearest::search
    requires nearest_ok(*self), bnd(*px),
    ensures r.0 < self.palette.colors@.len(), r.1.r() == dist(*px, self.palette.colors@[r.0 as int]),
        forall|j: int| 0 <= j < self.palette.colors@.len() ==> r.1.r() <= dist(*px, #[trigger] self.palette.colors@[j]),
//@ghostarg
vp_search_node => Ghost(self.palette.colors.view())
//@entry
    let ghost pal = self.palette.colors@;
    proof {
        assert forall|j: int| 0 <= j < pal.len() implies dist(*px, #[trigger] pal[j]) == dist(pal[j], *px) && 0real <= dist(pal[j], *px) < BIG() by { dist_sym(*px, pal[j]); dist_bound(*px, pal[j]); }
        let h = likely_colormap_index as int;
        if h < pal.len() { assert forall|j: int| 0 <= j < pal.len() && j != h implies dist(#[trigger] pal[j], pal[h]) <= 2real * dist(*px, pal[j]) + 2real * dist(*px, pal[h]) by { half_triangle(pal[j], *px, pal[h]); } }
        assert(has(self.root, 0));
    }
//@after vp_search_node ( & self . root , px , & mut best_candidate , Ghost ( self . palette . colors . view ( ) ) ) ;
    assert forall|j: int| 0 <= j < pal.len() implies best_candidate.distance_squared.r() <= dist(*px, #[trigger] pal[j]) by { assert(has(self.root, j)); assert(covers(best_candidate, pal, *px, j)); }
//@end
}
}
fn main() {}
