// the operator traits of decimal.rs, with the preconditions of their instances
pub trait Mul<T>: Sized { spec fn mul_req(self, rhs: T) -> bool;
    fn mul(self, rhs: T) -> (r: Self) requires self.mul_req(rhs); }
pub trait MulUp<T>: Sized { spec fn mul_up_req(self, rhs: T) -> bool;
    fn mul_up(self, rhs: T) -> (r: Self) requires self.mul_up_req(rhs); }
pub trait Add<T>: Sized { spec fn add_req(self, rhs: T) -> bool;
    fn add(self, rhs: T) -> (r: Result<Self, ErrorCode>) requires self.add_req(rhs); }
pub trait Sub<T>: Sized { spec fn sub_req(self, rhs: T) -> bool;
    fn sub(self, rhs: T) -> (r: Result<Self, ErrorCode>) requires self.sub_req(rhs); }
pub trait Div<T>: Sized { spec fn div_req(self, rhs: T) -> bool;
    fn div(self, rhs: T) -> (r: Self) requires self.div_req(rhs); }
pub trait DivUp<T>: Sized { spec fn div_up_req(self, rhs: T) -> bool;
    fn div_up(self, rhs: T) -> (r: Self) requires self.div_up_req(rhs); }
pub trait DivScale<T>: Sized { spec fn div_scale_req(self, rhs: T, to_scale: u8) -> bool;
    fn div_to_scale(self, rhs: T, to_scale: u8) -> (r: Self) requires self.div_scale_req(rhs, to_scale); }
pub trait Pow<T>: Sized { spec fn pow_req(self, rhs: T) -> bool;
    fn pow(self, rhs: T) -> (r: Self) requires self.pow_req(rhs); }
pub trait Sqrt<T>: Sized { spec fn sqrt_req(self) -> bool;
    fn sqrt(self) -> (r: Result<Self, ErrorCode>) requires self.sqrt_req(); }
pub trait Ln<T>: Sized { spec fn ln_req(self) -> bool;
    fn ln(self) -> (r: Result<Self, ErrorCode>) requires self.ln_req(); }
pub trait Compare<T>: Sized {
    spec fn minmax_req(self, rhs: T) -> bool;
    fn eq(self, rhs: T) -> (r: Result<bool, ErrorCode>);
    fn lt(self, rhs: T) -> (r: Result<bool, ErrorCode>);
    fn gt(self, rhs: T) -> (r: Result<bool, ErrorCode>);
    fn gte(self, rhs: T) -> (r: Result<bool, ErrorCode>);
    fn lte(self, rhs: T) -> (r: Result<bool, ErrorCode>);
    fn min(self, rhs: T) -> (r: Self) requires self.minmax_req(rhs);
    fn max(self, rhs: T) -> (r: Self) requires self.minmax_req(rhs);
}
pub trait Neg: Sized { fn neg(self) -> (r: Self); }
