// The tick bitmap against a set of integers (C01, C02).
// case: "init t1,t2,..", then one operation per line
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::state::tick_bitmap::{PoolTickBitmap, TICKS_OFFSET, TICK_BITMAP_SIZE};
use std::collections::BTreeSet;

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    match id {
        "C01" => Some(Box::new(Bm { search: false })),
        "C02" => Some(Box::new(Bm { search: true })),
        _ => None,
    }
}
struct Bm {
    search: bool,
}
fn cap() -> i64 {
    assert!(TICKS_OFFSET == 0);
    8 * TICK_BITMAP_SIZE as i64
}
fn tick(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => r.range(0, 20),
        1 => cap() - 1 - r.range(0, 20),
        2 => r.range(0, 10_000) * 8 % cap() + r.range(0, 1) * 7,
        3 => 32 * r.range(0, cap() / 32 - 1) + r.range(0, 31),
        _ => r.range(0, cap() - 1),
    }
}
fn near(r: &mut Rng, set: &BTreeSet<i64>) -> i64 {
    if set.is_empty() || r.chance(1, 3) {
        return tick(r);
    }
    let v: Vec<i64> = set.iter().cloned().collect();
    (r.pick(&v) + r.range(-9, 9)).max(0).min(cap() - 1)
}
fn outside(r: &mut Rng) -> i64 {
    r.pick(&[-1, -8, -7, cap(), cap() + 7, i32::MAX as i64, i32::MIN as i64, -cap(), i32::MAX as i64 - 9_999, 2 * cap()])
}
/// the ticks the real map holds, read from the raw words
fn raw(b: &PoolTickBitmap) -> BTreeSet<i64> {
    let mut s = BTreeSet::new();
    for (k, w) in b.tick_map.iter().enumerate() {
        if *w != 0 {
            for i in 0..8 {
                if w >> i & 1 == 1 {
                    s.insert(8 * k as i64 + i);
                }
            }
        }
    }
    s
}
impl Prop for Bm {
    fn fixed(&self) -> Vec<Case> {
        let mut v = vec![];
        // every pair of positions in neighbouring words, both directions
        if self.search {
            for a in 0..24i64 {
                for b in 0..24i64 {
                    v.push(vec![format!("set {}", 400 + a), format!("next {} 0", 400 + b), format!("next {} 1", 400 + b)]);
                }
            }
            for t in [0, 1, 7, 8, cap() - 1, cap() - 8, cap() - 9] {
                v.push(vec![format!("next {} 0", t), format!("next {} 1", t)]);
                v.push(vec!["set 0".into(), format!("set {}", cap() - 1), format!("next {} 0", t), format!("next {} 1", t)]);
            }
        } else {
            for t in 0..64i64 {
                v.push(vec![format!("set {}", t), format!("get {}", t), format!("set {}", t), format!("unset {}", t), format!("unset {}", t)]);
            }
            for t in [-1, -7, -8, cap(), i32::MAX as i64, i32::MIN as i64] {
                for o in ["set", "unset", "get"] {
                    v.push(vec!["set 0".into(), format!("{} {}", o, t)]);
                }
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let mut set = BTreeSet::new();
        let mut v = vec![];
        for _ in 0..r.below(12) {
            let t = near(r, &set);
            set.insert(t);
            v.push(format!("set {}", t));
        }
        for _ in 0..1 + r.below(12) {
            let t = if !self.search && r.chance(1, 40) { outside(r) } else { near(r, &set) };
            let o = if self.search { r.pick(&["next", "next", "set", "unset"]) } else { r.pick(&["set", "unset", "get"]) };
            if o == "next" {
                v.push(format!("next {} {}", t, r.below(2)));
            } else {
                v.push(format!("{} {}", o, t));
            }
        }
        v
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let mut b = Box::new(PoolTickBitmap::default());
        let mut s: BTreeSet<i64> = BTreeSet::new();
        for l in c {
            let w: Vec<&str> = l.split_whitespace().collect();
            let t: i64 = w[1].parse().unwrap();
            let ti = t as i32;
            let inb = (0..cap()).contains(&t);
            let done = match w[0] {
                "set" => {
                    let d = call(|| b.activate_tick(ti)).is_some();
                    if d {
                        s.insert(t);
                    }
                    d
                }
                "unset" => {
                    let d = call(|| b.unset_tick(ti)).is_some();
                    if d {
                        s.remove(&t);
                    }
                    d
                }
                "get" => match call(|| b.tick_is_active(ti)) {
                    None => false,
                    Some(g) => {
                        if inb && g != s.contains(&t) {
                            return Err(format!("tick_is_active({}) = {}, set {:?}", t, g, s));
                        }
                        true
                    }
                },
                _ => {
                    let dir: u8 = w[2].parse().unwrap();
                    let want = if dir == 0 { s.range(..t).next_back() } else { s.range(t + 1..).next() };
                    match call(|| b.get_next_tick(ti, dir)) {
                        None => false,
                        Some(g) => {
                            if inb && g.map(|x| x as i64) != want.cloned() {
                                return Err(format!("get_next_tick({}, {}) = {:?}, expected {:?}; set {:?}", t, dir, g, want, s));
                            }
                            true
                        }
                    }
                }
            };
            if done != inb {
                return Err(format!("{}: {}", l, if inb { "aborted inside the bitmap" } else { "did not abort outside the bitmap" }));
            }
            if raw(&b) != s {
                return Err(format!("after {}: bitmap holds {:?}, expected {:?}", l, raw(&b), s));
            }
        }
        Ok(true)
    }
}
