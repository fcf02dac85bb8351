/// 10^(i+1)
pub open spec fn place(i: int) -> int { if i == 0 { 10 } else if i == 1 { 100 } else if i == 2 { 1000 } else if i == 3 { 10000 } else if i == 4 { 100000 } else if i == 5 { 1000000 } else if i == 6 { 10000000 } else if i == 7 { 100000000 } else if i == 8 { 1000000000 } else { 10000000000 } }
/// f - 1, f and f + 1 are at most two away from 10^12 log((c + a) / (c - a))
pub open spec fn band(f: int, a: int, c: int) -> bool { log_12(f - 1, a, c, 2) && log_12(f, a, c, 2) && log_12(f + 1, a, c, 2) }

pub proof fn lemma_row_0()
    ensures
        band(95310179804, 1, 21),
        band(9950330853, 1, 201),
        band(999500333, 1, 2001),
        band(99995000, 1, 20001),
        band(9999950, 1, 200001),
        band(999999, 1, 2000001),
        band(99999, 1, 20000001),
        band(9999, 1, 200000001),
        band(999, 1, 2000000001),
        band(99, 1, 20000000001),
{
    assert(band(95310179804, 1, 21)) by (compute_only);
    assert(band(9950330853, 1, 201)) by (compute_only);
    assert(band(999500333, 1, 2001)) by (compute_only);
    assert(band(99995000, 1, 20001)) by (compute_only);
    assert(band(9999950, 1, 200001)) by (compute_only);
    assert(band(999999, 1, 2000001)) by (compute_only);
    assert(band(99999, 1, 20000001)) by (compute_only);
    assert(band(9999, 1, 200000001)) by (compute_only);
    assert(band(999, 1, 2000000001)) by (compute_only);
    assert(band(99, 1, 20000000001)) by (compute_only);
}

pub proof fn lemma_row_1()
    ensures
        band(182321556793, 2, 22),
        band(19802627296, 2, 202),
        band(1998002662, 2, 2002),
        band(199980002, 2, 20002),
        band(19999800, 2, 200002),
        band(1999998, 2, 2000002),
        band(199999, 2, 20000002),
        band(19999, 2, 200000002),
        band(1999, 2, 2000000002),
        band(199, 2, 20000000002),
{
    assert(band(182321556793, 2, 22)) by (compute_only);
    assert(band(19802627296, 2, 202)) by (compute_only);
    assert(band(1998002662, 2, 2002)) by (compute_only);
    assert(band(199980002, 2, 20002)) by (compute_only);
    assert(band(19999800, 2, 200002)) by (compute_only);
    assert(band(1999998, 2, 2000002)) by (compute_only);
    assert(band(199999, 2, 20000002)) by (compute_only);
    assert(band(19999, 2, 200000002)) by (compute_only);
    assert(band(1999, 2, 2000000002)) by (compute_only);
    assert(band(199, 2, 20000000002)) by (compute_only);
}

pub proof fn lemma_row_2()
    ensures
        band(262364264467, 3, 23),
        band(29558802241, 3, 203),
        band(2995508979, 3, 2003),
        band(299955008, 3, 20003),
        band(29999550, 3, 200003),
        band(2999995, 3, 2000003),
        band(299999, 3, 20000003),
        band(29999, 3, 200000003),
        band(2999, 3, 2000000003),
        band(299, 3, 20000000003),
{
    assert(band(262364264467, 3, 23)) by (compute_only);
    assert(band(29558802241, 3, 203)) by (compute_only);
    assert(band(2995508979, 3, 2003)) by (compute_only);
    assert(band(299955008, 3, 20003)) by (compute_only);
    assert(band(29999550, 3, 200003)) by (compute_only);
    assert(band(2999995, 3, 2000003)) by (compute_only);
    assert(band(299999, 3, 20000003)) by (compute_only);
    assert(band(29999, 3, 200000003)) by (compute_only);
    assert(band(2999, 3, 2000000003)) by (compute_only);
    assert(band(299, 3, 20000000003)) by (compute_only);
}

pub proof fn lemma_row_3()
    ensures
        band(336472236621, 4, 24),
        band(39220713153, 4, 204),
        band(3992021269, 4, 2004),
        band(399920021, 4, 20004),
        band(39999200, 4, 200004),
        band(3999992, 4, 2000004),
        band(399999, 4, 20000004),
        band(39999, 4, 200000004),
        band(3999, 4, 2000000004),
        band(399, 4, 20000000004),
{
    assert(band(336472236621, 4, 24)) by (compute_only);
    assert(band(39220713153, 4, 204)) by (compute_only);
    assert(band(3992021269, 4, 2004)) by (compute_only);
    assert(band(399920021, 4, 20004)) by (compute_only);
    assert(band(39999200, 4, 200004)) by (compute_only);
    assert(band(3999992, 4, 2000004)) by (compute_only);
    assert(band(399999, 4, 20000004)) by (compute_only);
    assert(band(39999, 4, 200000004)) by (compute_only);
    assert(band(3999, 4, 2000000004)) by (compute_only);
    assert(band(399, 4, 20000000004)) by (compute_only);
}

pub proof fn lemma_row_4()
    ensures
        band(405465108108, 5, 25),
        band(48790164169, 5, 205),
        band(4987541511, 5, 2005),
        band(499875041, 5, 20005),
        band(49998750, 5, 200005),
        band(4999987, 5, 2000005),
        band(499999, 5, 20000005),
        band(49999, 5, 200000005),
        band(4999, 5, 2000000005),
        band(499, 5, 20000000005),
{
    assert(band(405465108108, 5, 25)) by (compute_only);
    assert(band(48790164169, 5, 205)) by (compute_only);
    assert(band(4987541511, 5, 2005)) by (compute_only);
    assert(band(499875041, 5, 20005)) by (compute_only);
    assert(band(49998750, 5, 200005)) by (compute_only);
    assert(band(4999987, 5, 2000005)) by (compute_only);
    assert(band(499999, 5, 20000005)) by (compute_only);
    assert(band(49999, 5, 200000005)) by (compute_only);
    assert(band(4999, 5, 2000000005)) by (compute_only);
    assert(band(499, 5, 20000000005)) by (compute_only);
}

pub proof fn lemma_row_5()
    ensures
        band(470003629245, 6, 26),
        band(58268908123, 6, 206),
        band(5982071677, 6, 2006),
        band(599820071, 6, 20006),
        band(59998200, 6, 200006),
        band(5999982, 6, 2000006),
        band(599999, 6, 20000006),
        band(59999, 6, 200000006),
        band(5999, 6, 2000000006),
        band(599, 6, 20000000006),
{
    assert(band(470003629245, 6, 26)) by (compute_only);
    assert(band(58268908123, 6, 206)) by (compute_only);
    assert(band(5982071677, 6, 2006)) by (compute_only);
    assert(band(599820071, 6, 20006)) by (compute_only);
    assert(band(59998200, 6, 200006)) by (compute_only);
    assert(band(5999982, 6, 2000006)) by (compute_only);
    assert(band(599999, 6, 20000006)) by (compute_only);
    assert(band(59999, 6, 200000006)) by (compute_only);
    assert(band(5999, 6, 2000000006)) by (compute_only);
    assert(band(599, 6, 20000000006)) by (compute_only);
}

pub proof fn lemma_row_6()
    ensures
        band(530628251062, 7, 27),
        band(67658648473, 7, 207),
        band(6975613736, 7, 2007),
        band(699755114, 7, 20007),
        band(69997550, 7, 200007),
        band(6999975, 7, 2000007),
        band(699999, 7, 20000007),
        band(69999, 7, 200000007),
        band(6999, 7, 2000000007),
        band(699, 7, 20000000007),
{
    assert(band(530628251062, 7, 27)) by (compute_only);
    assert(band(67658648473, 7, 207)) by (compute_only);
    assert(band(6975613736, 7, 2007)) by (compute_only);
    assert(band(699755114, 7, 20007)) by (compute_only);
    assert(band(69997550, 7, 200007)) by (compute_only);
    assert(band(6999975, 7, 2000007)) by (compute_only);
    assert(band(699999, 7, 20000007)) by (compute_only);
    assert(band(69999, 7, 200000007)) by (compute_only);
    assert(band(6999, 7, 2000000007)) by (compute_only);
    assert(band(699, 7, 20000000007)) by (compute_only);
}

pub proof fn lemma_row_7()
    ensures
        band(587786664902, 8, 28),
        band(76961041136, 8, 208),
        band(7968169649, 8, 2008),
        band(799680170, 8, 20008),
        band(79996800, 8, 200008),
        band(7999968, 8, 2000008),
        band(799999, 8, 20000008),
        band(79999, 8, 200000008),
        band(7999, 8, 2000000008),
        band(799, 8, 20000000008),
{
    assert(band(587786664902, 8, 28)) by (compute_only);
    assert(band(76961041136, 8, 208)) by (compute_only);
    assert(band(7968169649, 8, 2008)) by (compute_only);
    assert(band(799680170, 8, 20008)) by (compute_only);
    assert(band(79996800, 8, 200008)) by (compute_only);
    assert(band(7999968, 8, 2000008)) by (compute_only);
    assert(band(799999, 8, 20000008)) by (compute_only);
    assert(band(79999, 8, 200000008)) by (compute_only);
    assert(band(7999, 8, 2000000008)) by (compute_only);
    assert(band(799, 8, 20000000008)) by (compute_only);
}

pub proof fn lemma_row_8()
    ensures
        band(641853886172, 9, 29),
        band(86177696241, 9, 209),
        band(8959741371, 9, 2009),
        band(899595242, 9, 20009),
        band(89995950, 9, 200009),
        band(8999959, 9, 2000009),
        band(899999, 9, 20000009),
        band(89999, 9, 200000009),
        band(8999, 9, 2000000009),
        band(899, 9, 20000000009),
{
    assert(band(641853886172, 9, 29)) by (compute_only);
    assert(band(86177696241, 9, 209)) by (compute_only);
    assert(band(8959741371, 9, 2009)) by (compute_only);
    assert(band(899595242, 9, 20009)) by (compute_only);
    assert(band(89995950, 9, 200009)) by (compute_only);
    assert(band(8999959, 9, 2000009)) by (compute_only);
    assert(band(899999, 9, 20000009)) by (compute_only);
    assert(band(89999, 9, 200000009)) by (compute_only);
    assert(band(8999, 9, 2000000009)) by (compute_only);
    assert(band(899, 9, 20000000009)) by (compute_only);
}

/// 10^12 log 2
pub proof fn lemma_two()
    ensures log_12(693147180559, 1, 3, 1),
{
    assert(log_12(693147180559, 1, 3, 1)) by (compute_only);
}

/// 10^12 log(1 + (row + 1) / place(col)), rounded down
pub open spec fn entry(row: int, col: int) -> int {
    if row == 0 { if col == 0 { 95310179804 } else if col == 1 { 9950330853 } else if col == 2 { 999500333 } else if col == 3 { 99995000 } else if col == 4 { 9999950 } else if col == 5 { 999999 } else if col == 6 { 99999 } else if col == 7 { 9999 } else if col == 8 { 999 } else { 99 } } else
    if row == 1 { if col == 0 { 182321556793 } else if col == 1 { 19802627296 } else if col == 2 { 1998002662 } else if col == 3 { 199980002 } else if col == 4 { 19999800 } else if col == 5 { 1999998 } else if col == 6 { 199999 } else if col == 7 { 19999 } else if col == 8 { 1999 } else { 199 } } else
    if row == 2 { if col == 0 { 262364264467 } else if col == 1 { 29558802241 } else if col == 2 { 2995508979 } else if col == 3 { 299955008 } else if col == 4 { 29999550 } else if col == 5 { 2999995 } else if col == 6 { 299999 } else if col == 7 { 29999 } else if col == 8 { 2999 } else { 299 } } else
    if row == 3 { if col == 0 { 336472236621 } else if col == 1 { 39220713153 } else if col == 2 { 3992021269 } else if col == 3 { 399920021 } else if col == 4 { 39999200 } else if col == 5 { 3999992 } else if col == 6 { 399999 } else if col == 7 { 39999 } else if col == 8 { 3999 } else { 399 } } else
    if row == 4 { if col == 0 { 405465108108 } else if col == 1 { 48790164169 } else if col == 2 { 4987541511 } else if col == 3 { 499875041 } else if col == 4 { 49998750 } else if col == 5 { 4999987 } else if col == 6 { 499999 } else if col == 7 { 49999 } else if col == 8 { 4999 } else { 499 } } else
    if row == 5 { if col == 0 { 470003629245 } else if col == 1 { 58268908123 } else if col == 2 { 5982071677 } else if col == 3 { 599820071 } else if col == 4 { 59998200 } else if col == 5 { 5999982 } else if col == 6 { 599999 } else if col == 7 { 59999 } else if col == 8 { 5999 } else { 599 } } else
    if row == 6 { if col == 0 { 530628251062 } else if col == 1 { 67658648473 } else if col == 2 { 6975613736 } else if col == 3 { 699755114 } else if col == 4 { 69997550 } else if col == 5 { 6999975 } else if col == 6 { 699999 } else if col == 7 { 69999 } else if col == 8 { 6999 } else { 699 } } else
    if row == 7 { if col == 0 { 587786664902 } else if col == 1 { 76961041136 } else if col == 2 { 7968169649 } else if col == 3 { 799680170 } else if col == 4 { 79996800 } else if col == 5 { 7999968 } else if col == 6 { 799999 } else if col == 7 { 79999 } else if col == 8 { 7999 } else { 799 } } else
    { if col == 0 { 641853886172 } else if col == 1 { 86177696241 } else if col == 2 { 8959741371 } else if col == 3 { 899595242 } else if col == 4 { 89995950 } else if col == 5 { 8999959 } else if col == 6 { 899999 } else if col == 7 { 89999 } else if col == 8 { 8999 } else { 899 } }
}

pub proof fn lemma_entry(row: int, col: int)
    requires 0 <= row < 9, 0 <= col < 10,
    ensures band(entry(row, col), row + 1, 2 * place(col) + row + 1),
{
    hide(log_12);
    if row == 0 { lemma_row_0(); } else if row == 1 { lemma_row_1(); } else if row == 2 { lemma_row_2(); } else if row == 3 { lemma_row_3(); } else if row == 4 { lemma_row_4(); } else if row == 5 { lemma_row_5(); } else if row == 6 { lemma_row_6(); } else if row == 7 { lemma_row_7(); } else if row == 8 { lemma_row_8(); }
}
