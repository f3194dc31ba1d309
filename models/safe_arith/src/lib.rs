//! Model of lighthouse's `safe_arith`: checked arithmetic.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum ArithError { Overflow, DivisionByZero }
pub type Result<T> = std::result::Result<T, ArithError>;
pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn safe_add(&self, o: Rhs) -> Result<Self>;
    fn safe_sub(&self, o: Rhs) -> Result<Self>;
    fn safe_mul(&self, o: Rhs) -> Result<Self>;
    fn safe_div(&self, o: Rhs) -> Result<Self>;
    fn safe_rem(&self, o: Rhs) -> Result<Self>;
    fn safe_shl(&self, o: u32) -> Result<Self>;
    fn safe_shr(&self, o: u32) -> Result<Self>;
    fn safe_add_assign(&mut self, o: Rhs) -> Result<()> { *self = self.safe_add(o)?; Ok(()) }
    fn safe_sub_assign(&mut self, o: Rhs) -> Result<()> { *self = self.safe_sub(o)?; Ok(()) }
    fn safe_mul_assign(&mut self, o: Rhs) -> Result<()> { *self = self.safe_mul(o)?; Ok(()) }
    fn safe_div_assign(&mut self, o: Rhs) -> Result<()> { *self = self.safe_div(o)?; Ok(()) }
    fn safe_rem_assign(&mut self, o: Rhs) -> Result<()> { *self = self.safe_rem(o)?; Ok(()) }
}
macro_rules! imp { ($($t:ty)*) => { $(impl SafeArith for $t {
    const ZERO: Self = 0;
    const ONE: Self = 1;
    fn safe_add(&self, o: Self) -> Result<Self> { self.checked_add(o).ok_or(ArithError::Overflow) }
    fn safe_sub(&self, o: Self) -> Result<Self> { self.checked_sub(o).ok_or(ArithError::Overflow) }
    fn safe_mul(&self, o: Self) -> Result<Self> { self.checked_mul(o).ok_or(ArithError::Overflow) }
    fn safe_div(&self, o: Self) -> Result<Self> { self.checked_div(o).ok_or(ArithError::DivisionByZero) }
    fn safe_rem(&self, o: Self) -> Result<Self> { self.checked_rem(o).ok_or(ArithError::DivisionByZero) }
    fn safe_shl(&self, o: u32) -> Result<Self> { self.checked_shl(o).ok_or(ArithError::Overflow) }
    fn safe_shr(&self, o: u32) -> Result<Self> { self.checked_shr(o).ok_or(ArithError::Overflow) }
})* } }
imp! { u8 u16 u32 u64 u128 usize }
pub trait SafeArithIter<T> { fn safe_sum(self) -> Result<T>; }
impl<I, T> SafeArithIter<T> for I where I: Iterator<Item = T> + Sized, T: SafeArith {
    fn safe_sum(mut self) -> Result<T> { self.try_fold(T::ZERO, |a, x| a.safe_add(x)) }
}
