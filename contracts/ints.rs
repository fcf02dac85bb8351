// generated by gen_prelude.py: lossless Into, checked TryInto
impl VxInto<u8> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u8) -> bool { r == self } fn vx_into(self) -> (r: u8) { self as u8 } }
impl VxInto<u16> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u16) -> bool { r == self } fn vx_into(self) -> (r: u16) { self as u16 } }
impl VxInto<u32> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u32) -> bool { r == self } fn vx_into(self) -> (r: u32) { self as u32 } }
impl VxInto<u64> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u64) -> bool { r == self } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<u128> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u128) -> bool { r == self } fn vx_into(self) -> (r: u128) { self as u128 } }
impl VxInto<usize> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: usize) -> bool { r == self } fn vx_into(self) -> (r: usize) { self as usize } }
impl VxInto<i32> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i32) -> bool { r == self } fn vx_into(self) -> (r: i32) { self as i32 } }
impl VxInto<i64> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i64) -> bool { r == self } fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<i128> for u8 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<u16> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u16) -> bool { r == self } fn vx_into(self) -> (r: u16) { self as u16 } }
impl VxInto<u32> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u32) -> bool { r == self } fn vx_into(self) -> (r: u32) { self as u32 } }
impl VxInto<u64> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u64) -> bool { r == self } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<u128> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u128) -> bool { r == self } fn vx_into(self) -> (r: u128) { self as u128 } }
impl VxInto<usize> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: usize) -> bool { r == self } fn vx_into(self) -> (r: usize) { self as usize } }
impl VxInto<i32> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i32) -> bool { r == self } fn vx_into(self) -> (r: i32) { self as i32 } }
impl VxInto<i64> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i64) -> bool { r == self } fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<i128> for u16 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<u32> for u32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u32) -> bool { r == self } fn vx_into(self) -> (r: u32) { self as u32 } }
impl VxInto<u64> for u32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u64) -> bool { r == self } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<u128> for u32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u128) -> bool { r == self } fn vx_into(self) -> (r: u128) { self as u128 } }
impl VxInto<i64> for u32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i64) -> bool { r == self } fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<i128> for u32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<u64> for u64 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u64) -> bool { r == self } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<u128> for u64 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u128) -> bool { r == self } fn vx_into(self) -> (r: u128) { self as u128 } }
impl VxInto<i128> for u64 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<u128> for u128 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: u128) -> bool { r == self } fn vx_into(self) -> (r: u128) { self as u128 } }
impl VxInto<i32> for i32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i32) -> bool { r == self } fn vx_into(self) -> (r: i32) { self as i32 } }
impl VxInto<i64> for i32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i64) -> bool { r == self } fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<i128> for i32 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<i64> for i64 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i64) -> bool { r == self } fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<i128> for i64 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxInto<i128> for i128 { open spec fn vx_into_req(self) -> bool { true } open spec fn vx_into_post(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
impl VxTryInto<u8> for u8 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if true { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for u8 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if true { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for u8 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if true { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for u8 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if true { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for u8 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for u8 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if true { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for u8 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if true { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for u8 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if true { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for u8 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for u16 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if self <= 255u16 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for u16 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if true { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for u16 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if true { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for u16 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if true { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for u16 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for u16 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if true { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for u16 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if true { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for u16 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if true { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for u16 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for u32 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if self <= 255u32 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for u32 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if self <= 65535u32 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for u32 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if true { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for u32 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if true { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for u32 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for u32 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if true { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for u32 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if self <= 2147483647u32 { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for u32 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if true { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for u32 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for u64 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if self <= 255u64 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for u64 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if self <= 65535u64 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for u64 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if self <= 4294967295u64 { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for u64 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if true { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for u64 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for u64 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if true { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for u64 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if self <= 2147483647u64 { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for u64 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if self <= 9223372036854775807u64 { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for u64 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for u128 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if self <= 255u128 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for u128 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if self <= 65535u128 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for u128 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if self <= 4294967295u128 { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for u128 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if self <= 18446744073709551615u128 { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for u128 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for u128 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if self <= 18446744073709551615u128 { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for u128 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if self <= 2147483647u128 { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for u128 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if self <= 9223372036854775807u128 { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for u128 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if self <= 170141183460469231731687303715884105727u128 { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for usize { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if self <= 255usize { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for usize { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if self <= 65535usize { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for usize { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if self <= 4294967295usize { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for usize { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if true { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for usize { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if true { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for usize { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if true { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for usize { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if self <= 2147483647usize { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for usize { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if self <= 9223372036854775807usize { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for usize { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for i32 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if 0 <= self && self <= 255i32 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for i32 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if 0 <= self && self <= 65535i32 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for i32 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if 0 <= self { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for i32 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if 0 <= self { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for i32 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if 0 <= self { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for i32 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if 0 <= self { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for i32 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if true { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for i32 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if true { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for i32 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for i64 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if 0 <= self && self <= 255i64 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for i64 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if 0 <= self && self <= 65535i64 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for i64 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if 0 <= self && self <= 4294967295i64 { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for i64 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if 0 <= self { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for i64 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if 0 <= self { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for i64 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if 0 <= self { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for i64 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if (-2147483648i64) <= self && self <= 2147483647i64 { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for i64 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if true { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for i64 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
impl VxTryInto<u8> for i128 { open spec fn vx_fits(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn vx_conv(self) -> u8 { self as u8 } fn vx_try_into(self) -> (r: Result<u8, VxErr>) { if 0 <= self && self <= 255i128 { Ok(self as u8) } else { Err(VxErr) } } }
impl VxTryInto<u16> for i128 { open spec fn vx_fits(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn vx_conv(self) -> u16 { self as u16 } fn vx_try_into(self) -> (r: Result<u16, VxErr>) { if 0 <= self && self <= 65535i128 { Ok(self as u16) } else { Err(VxErr) } } }
impl VxTryInto<u32> for i128 { open spec fn vx_fits(self) -> bool { u32::MIN <= self <= u32::MAX } open spec fn vx_conv(self) -> u32 { self as u32 } fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if 0 <= self && self <= 4294967295i128 { Ok(self as u32) } else { Err(VxErr) } } }
impl VxTryInto<u64> for i128 { open spec fn vx_fits(self) -> bool { u64::MIN <= self <= u64::MAX } open spec fn vx_conv(self) -> u64 { self as u64 } fn vx_try_into(self) -> (r: Result<u64, VxErr>) { if 0 <= self && self <= 18446744073709551615i128 { Ok(self as u64) } else { Err(VxErr) } } }
impl VxTryInto<u128> for i128 { open spec fn vx_fits(self) -> bool { u128::MIN <= self <= u128::MAX } open spec fn vx_conv(self) -> u128 { self as u128 } fn vx_try_into(self) -> (r: Result<u128, VxErr>) { if 0 <= self { Ok(self as u128) } else { Err(VxErr) } } }
impl VxTryInto<usize> for i128 { open spec fn vx_fits(self) -> bool { usize::MIN <= self <= usize::MAX } open spec fn vx_conv(self) -> usize { self as usize } fn vx_try_into(self) -> (r: Result<usize, VxErr>) { if 0 <= self && self <= 18446744073709551615i128 { Ok(self as usize) } else { Err(VxErr) } } }
impl VxTryInto<i32> for i128 { open spec fn vx_fits(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn vx_conv(self) -> i32 { self as i32 } fn vx_try_into(self) -> (r: Result<i32, VxErr>) { if (-2147483648i128) <= self && self <= 2147483647i128 { Ok(self as i32) } else { Err(VxErr) } } }
impl VxTryInto<i64> for i128 { open spec fn vx_fits(self) -> bool { i64::MIN <= self <= i64::MAX } open spec fn vx_conv(self) -> i64 { self as i64 } fn vx_try_into(self) -> (r: Result<i64, VxErr>) { if (-9223372036854775808i128) <= self && self <= 9223372036854775807i128 { Ok(self as i64) } else { Err(VxErr) } } }
impl VxTryInto<i128> for i128 { open spec fn vx_fits(self) -> bool { i128::MIN <= self <= i128::MAX } open spec fn vx_conv(self) -> i128 { self as i128 } fn vx_try_into(self) -> (r: Result<i128, VxErr>) { if true { Ok(self as i128) } else { Err(VxErr) } } }
