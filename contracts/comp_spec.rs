// ---- fee kinds: 0 x swap fee, 1 y swap fee, 2 x adjustment, 3 y adjustment --------
pub open spec fn kind_ok(t: char, k: char) -> bool { (t == 'x' || t == 'y') && (k == 'f' || k == 'h') }
pub open spec fn kind(t: char, k: char) -> int { (if t == 'x' { 0int } else { 1 }) + (if k == 'f' { 0int } else { 2 }) }
/// c == a + b
pub open spec fn plus(a: Decimal, b: Decimal, c: Decimal) -> bool { sv(c) == sv(a) + sv(b) && c.scale == a.scale && c.scale == b.scale }
pub open spec fn fg(g: GlobalState, i: int) -> Decimal { if i == 0 { g.fg_x } else if i == 1 { g.fg_y } else if i == 2 { g.hg_x } else { g.hg_y } }
pub open spec fn fg_with(g: GlobalState, i: int, d: Decimal) -> GlobalState { if i == 0 { GlobalState { fg_x: d, ..g } } else if i == 1 { GlobalState { fg_y: d, ..g } } else if i == 2 { GlobalState { hg_x: d, ..g } } else { GlobalState { hg_y: d, ..g } } }
pub open spec fn f0(g: TickState, i: int) -> Decimal { if i == 0 { g.f0_x } else if i == 1 { g.f0_y } else if i == 2 { g.h0_x } else { g.h0_y } }
pub open spec fn f0_with(g: TickState, i: int, d: Decimal) -> TickState { if i == 0 { TickState { f0_x: d, ..g } } else if i == 1 { TickState { f0_y: d, ..g } } else if i == 2 { TickState { h0_x: d, ..g } } else { TickState { h0_y: d, ..g } } }
pub open spec fn fr(g: PositionState, i: int) -> Decimal { if i == 0 { g.fr_x } else if i == 1 { g.fr_y } else if i == 2 { g.hr_x } else { g.hr_y } }
pub open spec fn fr_with(g: PositionState, i: int, d: Decimal) -> PositionState { if i == 0 { PositionState { fr_x: d, ..g } } else if i == 1 { PositionState { fr_y: d, ..g } } else if i == 2 { PositionState { hr_x: d, ..g } } else { PositionState { hr_y: d, ..g } } }
