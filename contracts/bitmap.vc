@opt index
@opt arith
@src bm programs/hmmcl-sandbox/src/state/tick_bitmap.rs
@include prelude.rs
@include machine.rs
@const bm::TICK_BITMAP_SIZE
@const bm::TICKS_OFFSET
@type bm::PoolTickBitmap noclone nopartialeq
@include bitmap_spec.rs

impl PoolTickBitmap {
    /// the set of ticks this bitmap stands for
    pub open spec fn has(&self, t: int) -> bool { active(self.tick_map@, t) }
}

@impl impl PoolTickBitmap
@fn bm::PoolTickBitmap::activate_tick
@args tick
@requires
  nopanic() ==> 0 <= tick < cap(),
@ensures
  [C01] 0 <= tick < cap(),
  [C01] final(self).has(tick as int),
  [C01] forall|u: int| 0 <= u < cap() && u != tick ==> final(self).has(u) == old(self).has(u),
  [C01] final(self).bump == old(self).bump,
@entry
  proof { bits(); casts(); }
@fn bm::PoolTickBitmap::unset_tick
@args tick
@requires
  nopanic() ==> 0 <= tick < cap(),
@ensures
  [C01] 0 <= tick < cap(),
  [C01] !final(self).has(tick as int),
  [C01] forall|u: int| 0 <= u < cap() && u != tick ==> final(self).has(u) == old(self).has(u),
  [C01] final(self).bump == old(self).bump,
@entry
  proof { bits(); casts(); }
@fn bm::PoolTickBitmap::tick_is_active
@args tick
@requires
  nopanic() ==> 0 <= tick < cap(),
@ensures
  [C01] 0 <= tick < cap(),
  [C01] r == self.has(tick as int),
@entry
  proof { bits(); casts(); }
@fn bm::PoolTickBitmap::get_next_tick
@args current_tick, direction
@requires
  nopanic() ==> 0 <= current_tick < cap(),
@ensures
  [C02] 0 <= current_tick < cap(),
  [C02] direction == 0 ==> match r {
     Some(t) => 0 <= t < current_tick && self.has(t as int) && forall|u: int| t < u < current_tick ==> !self.has(u),
     None => forall|u: int| 0 <= u < current_tick ==> !self.has(u) },
  [C02] direction == 1 ==> match r {
     Some(t) => current_tick < t < cap() && self.has(t as int) && forall|u: int| current_tick < u < t ==> !self.has(u),
     None => forall|u: int| current_tick < u < cap() ==> !self.has(u) },
@loop 0
  invariant
    direction == 0, 0 <= current_tick < cap(), iter_word@ == self.tick_map@.subrange(0, current_key as int),
    vx_end1 <= current_key, current_key == current_tick as int / 8, ix == current_tick as int % 8,
    next_ix == vx_end1 - 1,
    forall|u: int| 8 * vx_end1 <= u < current_tick ==> !self.has(u),
  decreases vx_end1
@loop 1
  invariant
    direction != 0, 0 <= current_tick < cap(), current_key == current_tick as int / 8, ix == current_tick as int % 8,
    iter_word@ == self.tick_map@.subrange(current_key + 1, TICK_BITMAP_SIZE as int),
    vx_i2 <= iter_word@.len(),
    next_ix == current_key + 1 + vx_i2,
    direction == 1 ==> forall|u: int| current_tick < u < 8 * (current_key + 1 + vx_i2) ==> !self.has(u),
  decreases iter_word@.len() - vx_i2
@entry
  proof { bits(); casts(); }
@endimpl
@fn bm::byte_get_next_tick
@args byte, direction, ix, is_contain
@requires
  nopanic() ==> ix < 8,
@ensures
  [C02] direction == 0 && (is_contain ==> ix < 8) ==> ({ let hi = if is_contain { ix as int } else { 8 }; match r {
     Some(s) => s < hi && bit(byte, s as int) && forall|u: int| s < u < hi ==> !bit(byte, u),
     None => forall|u: int| 0 <= u < hi ==> !bit(byte, u) } }),
  [C02] direction == 1 && (is_contain ==> ix < 8) ==> ({ let lo = if is_contain { ix as int + 1 } else { 0 }; match r {
     Some(s) => lo <= s < 8 && bit(byte, s as int) && forall|u: int| lo <= u < s ==> !bit(byte, u),
     None => forall|u: int| lo <= u < 8 ==> !bit(byte, u) } }),
@loop 0
  invariant_except_break
    ans is None, direction == 0, vx_end1 == end, vx_i1 <= end,
    end <= 8 ==> forall|u: int| end - vx_i1 <= u < end ==> !bit(byte, u),
  invariant
    is_contain ==> end == ix, !is_contain ==> end == 8,
  ensures
    end <= 8 ==> match ans {
      Some(s) => s < end && bit(byte, s as int) && forall|u: int| s < u < end ==> !bit(byte, u),
      None => forall|u: int| 0 <= u < end ==> !bit(byte, u) },
  decreases vx_end1 - vx_i1
@loop 1
  invariant_except_break
    ans is None, start <= vx_i2, vx_i2 <= 8 || vx_i2 == start,
    forall|u: int| start <= u < vx_i2 ==> !bit(byte, u),
  invariant
    vx_end2 == 8,
    direction == 1 ==> (is_contain && ix < 8 ==> start == ix + 1) && (!is_contain ==> start == 0),
  ensures
    ans is Some ==> start <= ans->0 < 8 && bit(byte, ans->0 as int),
    ans is Some ==> forall|u: int| start <= u < ans->0 ==> !bit(byte, u),
    ans is None ==> forall|u: int| start <= u < 8 ==> !bit(byte, u),
  decreases 8 - vx_i2
@entry
  proof { bits(); }
@end
