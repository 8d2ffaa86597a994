// unit: props=C16
//@include prelude.rs
verus! {
spec fn cl(i: int, w: int) -> int { if i < 0 { 0 } else if i >= w { w - 1 } else { i } }
/// sum of `n` samples of the edge-extended row, from position `a`
spec fn win(row: Seq<u8>, a: int, n: nat) -> int decreases n { if n == 0 { 0 } else { row[cl(a, row.len() as int)] as int + win(row, a + 1, (n - 1) as nat) } }
proof fn win_last(row: Seq<u8>, a: int, n: nat) requires n > 0 ensures win(row, a, n) == win(row, a, (n - 1) as nat) + row[cl(a + n - 1, row.len() as int)] decreases n
{ if n > 1 { win_last(row, a + 1, (n - 1) as nat); assert(win(row, a + 1, (n - 1) as nat) == win(row, a + 1, (n - 2) as nat) + row[cl(a + n - 1, row.len() as int)]); } else { assert(win(row, a + 1, 0) == 0); assert(win(row, a, 0) == 0); } }
proof fn win_step(row: Seq<u8>, a: int, n: nat) requires n > 0
  ensures win(row, a + 1, n) == win(row, a, n) - row[cl(a, row.len() as int)] + row[cl(a + n, row.len() as int)], row[cl(a, row.len() as int)] <= win(row, a, n)
{ win_last(row, a + 1, n); win_nonneg(row, a + 1, (n - 1) as nat); }
proof fn win_nonneg(row: Seq<u8>, a: int, n: nat) ensures 0 <= win(row, a, n) <= 255 * n decreases n { if n > 0 { win_nonneg(row, a + 1, (n - 1) as nat); } }
proof fn win_first(row: Seq<u8>, s: nat) requires row.len() > 0 ensures win(row, -(s as int), s) == row[0] * s decreases s
{ let v = row[0] as int; assert(v * 0 == 0); if s > 0 { win_first(row, (s - 1) as nat); assert(-(s as int) + 1 == -((s - 1) as nat as int)); assert(v * s == v * (s - 1) + v) by (nonlinear_arith); } }
proof fn win_split(row: Seq<u8>, a: int, n: nat, m: nat) ensures win(row, a, n + m) == win(row, a, n) + win(row, a + n, m) decreases n
{ if n > 0 { win_split(row, a + 1, (n - 1) as nat, m); assert((n + m - 1) as nat == (n - 1) as nat + m); } }
proof fn idx(i: int, height: int, j: int, width: int) by (nonlinear_arith) requires 0 <= i < width, 0 <= j < height ensures 0 <= i * height + j < width * height, 0 <= i * height <= width * height {}
proof fn chunk(j: int, w: int, len: int) by (nonlinear_arith) requires w > 0, 0 <= j < len / w ensures 0 <= j * w, j * w + w <= len {}
proof fn chunks(w: int, h: int, len: int) by (nonlinear_arith) requires w > 0, 0 <= len <= w * h ensures len / w <= h {}
/// the values written are averages of a window, so they fit a byte
proof fn avg(s: int, n: int) by (nonlinear_arith) requires n > 0, 0 <= s <= 255 * n ensures 0 <= s / n <= 255 {}

//@fn src/blur.rs transposing_1d_blur loops=5
    requires 1 <= size <= 128, src.len() <= width * height, old(dst).len() >= width * height, width * height <= usize::MAX,
    ensures final(dst).len() == old(dst).len(),
//@before loop 1
    proof { chunks(width as int, height as int, src.len() as int); }
//@loop 1
    invariant 1 <= size <= 128, width >= 2 * size + 1, height >= 2 * size + 1, src.len() <= width * height, dst.len() >= width * height, width * height <= usize::MAX, dst.len() == old(dst).len(),
        vx_n1 == src.len() as int / width as int, vx_n1 <= height, vx_i1 <= vx_n1, vx_c1_0 == width,
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { chunk(vx_i1 as int, width as int, src.len() as int); }
//@before let mut sum
    proof {
        assert(row.len() == width);
        assert(row[0] * size <= 255 * 128) by (nonlinear_arith) requires row[0] <= 255, size <= 128;
        win_first(row@, size as nat);
        assert(row[0] * size <= 255 * size) by (nonlinear_arith) requires row[0] <= 255;
    }
//@loop 2
    invariant 1 <= size <= 128, row.len() == width, width >= 2 * size + 1, vx_n2 == size, vx_i2 <= vx_n2, vx_s2_0.len() == size, vx_s2_0@ == row@.subrange(0, size as int),
        sum == row[0] * size + win(row@, 0, vx_i2 as nat), sum <= 255 * size + 255 * vx_i2,
    decreases vx_n2 - vx_i2,
//@end loop 2
    proof { win_last(row@, 0, vx_i2 as nat); win_nonneg(row@, 0, vx_i2 as nat); assert(row[0] * size <= 255 * size) by (nonlinear_arith) requires row[0] <= 255; }
//@after loop 2
    proof { win_split(row@, -(size as int), size as nat, size as nat); assert(size as nat + size as nat == 2 * size as nat); }
//@loop 3
    invariant 1 <= size <= 128, row.len() == width, width >= 2 * size + 1, height >= 2 * size + 1, dst.len() >= width * height, width * height <= usize::MAX, dst.len() == old(dst).len(), j < height,
        vx_n3 == size, vx_i3 <= vx_n3, sum == win(row@, vx_i3 - size, 2 * size as nat),
    decreases vx_n3 - vx_i3,
//@in loop 3
    proof { win_step(row@, vx_i3 - size, 2 * size as nat); win_nonneg(row@, vx_i3 - size, 2 * size as nat); win_nonneg(row@, vx_i3 - size + 1, 2 * size as nat); idx(vx_i3 as int, height as int, j as int, width as int);
      assert(cl(vx_i3 - size, width as int) == 0); assert(cl(vx_i3 + size, width as int) == vx_i3 + size); avg(win(row@, vx_i3 - size + 1, 2 * size as nat), 2 * size); }
//@loop 4
    invariant 1 <= size <= 128, row.len() == width, width >= 2 * size + 1, height >= 2 * size + 1, dst.len() >= width * height, width * height <= usize::MAX, dst.len() == old(dst).len(), j < height,
        vx_a4_0 == size, vx_n4 == width - 2 * size, vx_i4 <= vx_n4, sum == win(row@, vx_i4 as int, 2 * size as nat),
    decreases vx_n4 - vx_i4,
//@in loop 4
    proof { win_step(row@, vx_i4 as int, 2 * size as nat); win_nonneg(row@, vx_i4 as int, 2 * size as nat); win_nonneg(row@, vx_i4 + 1, 2 * size as nat); idx(vx_i4 + size, height as int, j as int, width as int);
      avg(win(row@, vx_i4 + 1, 2 * size as nat), 2 * size); }
//@loop 5
    invariant 1 <= size <= 128, row.len() == width, width >= 2 * size + 1, height >= 2 * size + 1, dst.len() >= width * height, width * height <= usize::MAX, dst.len() == old(dst).len(), j < height,
        vx_a5_0 == width - size, vx_n5 == size, vx_i5 <= vx_n5, sum == win(row@, vx_i5 + width - 2 * size, 2 * size as nat),
    decreases vx_n5 - vx_i5,
//@in loop 5
    proof { win_step(row@, vx_i5 + width - 2 * size, 2 * size as nat); win_nonneg(row@, vx_i5 + width - 2 * size, 2 * size as nat); win_nonneg(row@, vx_i5 + width - 2 * size + 1, 2 * size as nat); idx(vx_i5 + width - size, height as int, j as int, width as int);
      assert(cl(vx_i5 + width, width as int) == width - 1); avg(win(row@, vx_i5 + width - 2 * size + 1, 2 * size as nat), 2 * size); }
//@end
//@fn src/blur.rs liq_op3 loops=2
    requires width >= 1, src.len() >= width * height, old(dst).len() >= width * height, forall|a: u8, b: u8| #[trigger] op.requires((a, b)),
    ensures final(dst).len() == old(dst).len(),
//@loop 1
    invariant width >= 1, src.len() >= width * height, dst.len() >= width * height, forall|a: u8, b: u8| #[trigger] op.requires((a, b)), dst.len() == old(dst).len(), vx_n1 == height, vx_i1 <= vx_n1,
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { rows(vx_i1 as int, width as int, height as int); rows(vx_i1 - 1, width as int, height as int); rows(vx_i1 + 1, width as int, height as int); rows(height - 1, width as int, height as int); rows(0, width as int, height as int); }
//@loop 2
    invariant width >= 1, row.len() == width, dst.len() == width, prevrow.len() == width, nextrow.len() == width, forall|a: u8, b: u8| #[trigger] op.requires((a, b)), vx_n2 == width - 1, vx_i2 <= vx_n2,
    decreases vx_n2 - vx_i2,
//@end
proof fn rows(j: int, w: int, h: int) by (nonlinear_arith) requires w >= 1 ensures 0 <= j < h ==> 0 <= j * w && j * w + w <= h * w {}
//@fn src/blur.rs liq_max3
    requires width >= 1, src.len() >= width * height, old(dst).len() >= width * height,
    ensures final(dst).len() == old(dst).len(),
//@end
//@fn src/blur.rs liq_min3
    requires width >= 1, src.len() >= width * height, old(dst).len() >= width * height,
    ensures final(dst).len() == old(dst).len(),
//@end
//@fn src/blur.rs liq_blur
    requires 1 <= size <= 128, old(src_dst).len() == width * height, old(tmp).len() == width * height, width * height <= usize::MAX,
    ensures final(src_dst).len() == old(src_dst).len(), final(tmp).len() == old(tmp).len(),
//@entry
    assert(width * height == height * width) by (nonlinear_arith);
//@end
}
fn main() {}
