verus! {
pub type PalIndexRemap = u8;
}
