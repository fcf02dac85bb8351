// ---- the bitmap as a set of ticks ----------------------------------------------
pub open spec fn bit(b: u8, i: int) -> bool { ((b >> (i as u8)) & 1) == 1 }
pub open spec fn cap() -> int { 8 * (TICK_BITMAP_SIZE as int) }
/// tick t is in the set stored in the words m
pub open spec fn active(m: Seq<u8>, t: int) -> bool { bit(m[t / 8], t % 8) }
pub open spec fn inside(m: Seq<u8>, t: int) -> bool { 0 <= t < 8 * m.len() }

pub proof fn bits()
    ensures
        forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 ==> (#[trigger] bit(b | (1u8 << i), j) <==> bit(b, j) || j == i),
        forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 ==> (#[trigger] bit((1u8 << i) | b, j) <==> bit(b, j) || j == i),
        forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 ==> (#[trigger] bit(b & !(1u8 << i), j) <==> bit(b, j) && j != i),
        forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 ==> (#[trigger] bit(b ^ (1u8 << i), j) <==> (bit(b, j) != (j == i))),
        forall|b: u8, i: u8| i < 8 ==> (#[trigger] (b >> i) & 1 == 1 <==> bit(b, i as int)),
        forall|b: u8, i: u8| i < 8 ==> (#[trigger] (b >> i) & 1 != 0 <==> bit(b, i as int)),
        forall|b: u8, i: u8| i < 8 ==> (#[trigger] (b & (1u8 << i)) != 0 <==> bit(b, i as int)),
        forall|j: int| 0 <= j < 8 ==> !#[trigger] bit(0u8, j),
{
    assert forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 implies (#[trigger] bit(b | (1u8 << i), j) <==> bit(b, j) || j == i) by {
        let k = j as u8;
        assert(((((b | (1u8 << i)) >> k) & 1 == 1) == ((b >> k) & 1 == 1 || i == k))) by (bit_vector) requires i < 8, k < 8;
    }
    assert forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 implies (#[trigger] bit((1u8 << i) | b, j) <==> bit(b, j) || j == i) by {
        let k = j as u8;
        assert((((((1u8 << i) | b) >> k) & 1 == 1) == ((b >> k) & 1 == 1 || i == k))) by (bit_vector) requires i < 8, k < 8;
    }
    assert forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 implies (#[trigger] bit(b & !(1u8 << i), j) <==> bit(b, j) && j != i) by {
        let k = j as u8;
        assert(((((b & !(1u8 << i)) >> k) & 1 == 1) == ((b >> k) & 1 == 1 && i != k))) by (bit_vector) requires i < 8, k < 8;
    }
    assert forall|b: u8, i: u8, j: int| i < 8 && 0 <= j < 8 implies (#[trigger] bit(b ^ (1u8 << i), j) <==> (bit(b, j) != (j == i))) by {
        let k = j as u8;
        assert(((((b ^ (1u8 << i)) >> k) & 1 == 1) == (((b >> k) & 1 == 1) != (i == k)))) by (bit_vector) requires i < 8, k < 8;
    }
    assert forall|b: u8, i: u8| i < 8 implies (#[trigger] (b >> i) & 1 == 1 <==> bit(b, i as int)) by {}
    assert forall|b: u8, i: u8| i < 8 implies (#[trigger] (b >> i) & 1 != 0 <==> bit(b, i as int)) by {
        assert((b >> i) & 1 != 0 <==> (b >> i) & 1 == 1) by (bit_vector);
    }
    assert forall|b: u8, i: u8| i < 8 implies (#[trigger] (b & (1u8 << i)) != 0 <==> bit(b, i as int)) by {
        assert((b & (1u8 << i)) != 0 <==> (b >> i) & 1 == 1) by (bit_vector) requires i < 8;
    }
    assert forall|j: int| 0 <= j < 8 implies !#[trigger] bit(0u8, j) by {
        let k = j as u8;
        assert((0u8 >> k) & 1 == 0) by (bit_vector) requires k < 8;
    }
}
/// negative numbers cast to usize lie far outside every slice
pub proof fn casts()
    ensures
        forall|k: i32| k < 0 ==> (#[trigger] (k as usize)) > 0x7fff_ffff_ffff_0000,
        forall|k: i32| 0 <= (#[trigger] (k & 7)) < 8,
        forall|k: i32| k >= 0 ==> (#[trigger] (k & 7)) == k % 8,
        pow(2, 3) == 8, pow(2, 0) == 1,
{
    assert(forall|k: i32| 0 <= (#[trigger] (k & 7)) < 8) by (bit_vector);
    assert(forall|k: i32| k >= 0 ==> (#[trigger] (k & 7)) == k % 8) by (bit_vector);
    assert(forall|k: i32| k < 0 ==> (#[trigger] (k as usize)) > 0x7fff_ffff_ffff_0000) by (bit_vector);
    reveal_with_fuel(pow, 4);
}
