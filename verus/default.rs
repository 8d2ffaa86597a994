verus! {
/// Default::default() of the types it is used with
pub trait VxDefault: Sized { spec fn is_default(self) -> bool; fn vx_def() -> (z: Self) ensures z.is_default(); }
impl VxDefault for u8 { open spec fn is_default(self) -> bool { self == 0 } fn vx_def() -> (z: u8) { 0 } }
impl VxDefault for usize { open spec fn is_default(self) -> bool { self == 0 } fn vx_def() -> (z: usize) { 0 } }
impl VxDefault for F { open spec fn is_default(self) -> bool { self.r() == 0real } fn vx_def() -> (z: F) { f_zero() } }
impl VxDefault for f_pixel { open spec fn is_default(self) -> bool { self.0.a.r() == 0real && self.0.r.r() == 0real && self.0.g.r() == 0real && self.0.b.r() == 0real } fn vx_def() -> (z: f_pixel) { f_pixel::default() } }
pub fn vx_default<T: VxDefault>() -> (z: T) ensures z.is_default() { T::vx_def() }
}
verus! {
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (z: Option<T>) ensures z == (match o { Some(x) => Some(*x), None => None::<T> });
}
