//@ prelude
//@ harness k_posterize_mask props=C14 fn=Histogram::posterize_mask
#[kani::proof]
fn k_posterize_mask() {
    let mut h = std::mem::MaybeUninit::<Histogram>::zeroed();
    // posterize_mask depends only on this field; the hash table is not touched
    let h = unsafe { let p = h.as_mut_ptr(); std::ptr::addr_of_mut!((*p).posterize_bits).write(kani::any()); &*p };
    kani::assume(h.posterize_bits <= 4);
    let m = h.posterize_mask();
    let b = m.to_ne_bytes();
    let want = (255u16 << h.posterize_bits) as u8;
    assert!(b == [want; 4], "the mask clears exactly the lowest bits of each channel");
    let px: u32 = kani::any();
    let keep = (px & m).to_ne_bytes();
    let orig = px.to_ne_bytes();
    let i: usize = kani::any();
    kani::assume(i < 4);
    assert!(keep[i] >> h.posterize_bits == orig[i] >> h.posterize_bits && (keep[i] as u32) % (1 << h.posterize_bits) == 0, "remaining bits are kept");
}

//@ harness k_hashcolor props=C14,C03,C04 fn=HashColor::key,HashColor::eq,HashColor::hash
struct RecHasher(u32, u32);
impl std::hash::Hasher for RecHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _b: &[u8]) { self.1 += 100; }
    fn write_u32(&mut self, v: u32) { self.0 = v; self.1 += 1; }
}
#[kani::proof]
fn k_hashcolor() {
    let any = || RGBA { r: kani::any(), g: kani::any(), b: kani::any(), a: kani::any() };
    let (c, d) = (any(), any());
    let x = HashColor { rgba: c, index: kani::any() };
    let y = HashColor { rgba: d, index: kani::any() };
    kani::cover!(x == y);
    kani::cover!(x != y);
    assert!((x == y) == (c == d || (c.a == 0 && d.a == 0)), "fixed colours are equal exactly when the pixels are, all fully transparent ones being the same");
    let (mut h1, mut h2) = (RecHasher(0, 0), RecHasher(0, 0));
    x.hash(&mut h1);
    y.hash(&mut h2);
    assert!(h1.1 == 1 && h2.1 == 1, "hashed as one 32-bit key, the only kind the hasher supports");
    assert!(x != y || h1.0 == h2.0, "equal colours have equal hashes");
}


//@ harness k_u32hasher props=C14,C03 fn=U32Hasher::write_u32,U32Hasher::finish,U32Hasher::build_hasher
#[kani::proof]
#[kani::solver(z3)]
fn k_u32hasher() {
    use std::hash::{BuildHasher, Hasher};
    let x: u32 = kani::any();
    let hash = |v: u32| { let mut h = U32Hasher(0).build_hasher(); h.write_u32(v); h.finish() };
    assert!(hash(x) == hash(x), "equal keys have equal hashes");
    let mut h = U32Hasher(0).build_hasher();
    x.hash(&mut h);
    assert!(h.finish() == hash(x), "a key is hashed as one 32-bit number");
}
