@unit datetime
@struct src/array/dtype/datetime64.rs TimeUnit
@struct src/array/dtype/datetime64.rs NAT
@struct src/python/datetime.rs BusDayCalendar
@raw
// ---- proleptic Gregorian calendar, defined from first principles
#[verifier::opaque]
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn ylen(y: int) -> int { if leap(y) { 366 } else { 365 } }
pub open spec fn mlen(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
/// days from the start of year y to the start of month m
pub open spec fn mcum(y: int, m: int) -> int decreases m { if m <= 1 { 0 } else { mcum(y, m - 1) + mlen(y, m - 1) } }
/// days from 1970-01-01 to the start of year y: sum of year lengths
pub open spec fn ycum(y: int) -> int decreases (if y >= 1970 { y - 1970 } else { 1970 - y }) {
    if y == 1970 { 0 } else if y > 1970 { ycum(y - 1) + ylen(y - 1) } else { ycum(y + 1) - ylen(y) }
}
pub open spec fn day_no(y: int, m: int, d: int) -> int { ycum(y) + mcum(y, m) + d - 1 }
pub open spec fn valid_date(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= mlen(y, m) }
#[verifier::opaque]
pub open spec fn yform(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 719162 }
/// closed form of the year sum
pub proof fn lemma_ycum(y: int) ensures ycum(y) == yform(y) decreases (if y >= 1970 { y - 1970 } else { 1970 - y })
{
    reveal(yform); if y == 1970 { } else if y > 1970 { lemma_ycum(y - 1); lemma_yform_step(y - 1); } else { lemma_ycum(y + 1); lemma_yform_step(y); }
}
pub proof fn lemma_yform_step(y: int) ensures yform(y + 1) == yform(y) + ylen(y)
{
    reveal(yform); reveal(leap); let a = y - 1;
    assert((a + 1) / 4 == a / 4 + (if (a + 1) % 4 == 0 { 1int } else { 0int }));
    assert((a + 1) / 100 == a / 100 + (if (a + 1) % 100 == 0 { 1int } else { 0int }));
    assert((a + 1) / 400 == a / 400 + (if (a + 1) % 400 == 0 { 1int } else { 0int }));
    assert((a + 1) % 400 == 0 ==> (a + 1) % 100 == 0);
    assert((a + 1) % 100 == 0 ==> (a + 1) % 4 == 0);
}
pub proof fn lemma_mcum(y: int)
    ensures mcum(y, 1) == 0, mcum(y, 2) == 31, mcum(y, 3) == mlen(y, 2) + 31, mcum(y, 4) == mlen(y, 2) + 62, mcum(y, 5) == mlen(y, 2) + 92, mcum(y, 6) == mlen(y, 2) + 123, mcum(y, 7) == mlen(y, 2) + 153,
        mcum(y, 8) == mlen(y, 2) + 184, mcum(y, 9) == mlen(y, 2) + 215, mcum(y, 10) == mlen(y, 2) + 245, mcum(y, 11) == mlen(y, 2) + 276, mcum(y, 12) == mlen(y, 2) + 306
{ reveal_with_fuel(mcum, 13); }
/// a date has one day number only
pub proof fn lemma_date_unique(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid_date(y, m, d), valid_date(y2, m2, d2), day_no(y, m, d) == day_no(y2, m2, d2)
    ensures y == y2, m == m2, d == d2
{
    lemma_mcum(y); lemma_mcum(y2); 
    if y < y2 { lemma_ycum_mono(y, y2); assert(false); }
    if y2 < y { lemma_ycum_mono(y2, y); assert(false); }
}
pub proof fn lemma_ycum_mono(y: int, z: int) requires y < z ensures ycum(z) >= ycum(y) + ylen(y) decreases z - y
{ lemma_ycum(y); lemma_ycum(z); lemma_yform_step(y); if z > y + 1 { lemma_ycum_mono(y + 1, z); lemma_ycum(y + 1); } }
/// days from 0000-03-01 to y-03-01
#[verifier::opaque]
pub open spec fn mform(y: int) -> int { 365 * y + y / 4 - y / 100 + y / 400 }
pub proof fn lemma_march(y: int)
    ensures ycum(y) + mcum(y, 3) == mform(y) - 719468, ycum(y + 1) == mform(y) - 719162, ycum(y + 1) == ycum(y) + ylen(y), ylen(y) == mlen(y, 2) + 337
{ reveal(mform); reveal(yform); lemma_yform_step(y); lemma_ycum(y); lemma_ycum(y + 1); lemma_mcum(y); }
pub proof fn lemma_era(y: int, era: int, yoe: int)
    requires y == 400 * era + yoe, 0 <= yoe < 400
    ensures mform(y) == 146097 * era + 365 * yoe + yoe / 4 - yoe / 100
{ reveal(mform); assert(y / 400 == era); assert(y / 4 == 100 * era + yoe / 4); assert(y / 100 == 4 * era + yoe / 100); }
/// year of the era from the day of the era
pub proof fn lemma_yoe(doe: int, yoe: int)
    requires 0 <= doe <= 146096, yoe == (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    ensures 0 <= yoe <= 399, 0 <= doe - (365 * yoe + yoe / 4 - yoe / 100), doe - (365 * yoe + yoe / 4 - yoe / 100) <= 364 + (if (yoe + 1) % 4 == 0 && ((yoe + 1) % 100 != 0 || yoe == 399) { 1int } else { 0int })
{
}
/// first day (counted from March 1) of the month mp months after March
#[verifier::opaque]
pub open spec fn mstart(mp: int) -> int { (153 * mp + 2) / 5 }
pub proof fn lemma_mp(doy: int, mp: int)
    requires 0 <= doy <= 365, mp == (5 * doy + 2) / 153
    ensures 0 <= mp <= 11, mstart(mp) <= doy < mstart(mp + 1)
{ reveal(mstart); }
pub proof fn lemma_mstart(y: int, mp: int)
    requires 0 <= mp <= 11
    ensures mp < 10 ==> mcum(y, mp + 3) == mcum(y, 3) + mstart(mp), mp < 10 ==> mstart(mp + 1) - mstart(mp) == mlen(y, mp + 3),
        mp >= 10 ==> mcum(y, mp - 9) == mstart(mp) - 306, mp == 10 ==> mstart(11) - mstart(10) == 31, mstart(11) == 337
{ reveal(mstart); lemma_mcum(y); }
pub proof fn lemma_ymd(year: int, month: int, day: int, y: int, m: int, era: int, yoe: int, doy: int)
    requires 1 <= month <= 12, y == (if month <= 2 { year - 1 } else { year }), m == (if month <= 2 { month + 12 } else { month }), y == 400 * era + yoe, 0 <= yoe < 400,
        doy == mstart(m - 3) + day - 1
    ensures day_no(year, month, day) == era * 146097 + (yoe * 365 + yoe / 4 - yoe / 100 + doy) - 719468
{ lemma_march(y); lemma_mstart(y, m - 3); lemma_mstart(year, m - 3); lemma_era(y, era, yoe); }
pub proof fn lemma_days(z: int, era: int, doe: int, yoe: int, doy: int, mp: int, y: int, m: int, d: int)
    requires era == z / 146097, doe == z - era * 146097, yoe == (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy == doe - (365 * yoe + yoe / 4 - yoe / 100),
        mp == (5 * doy + 2) / 153, d == doy - mstart(mp) + 1, m == (if mp < 10 { mp + 3 } else { mp - 9 }), y == (if m <= 2 { yoe + era * 400 + 1 } else { yoe + era * 400 })
    ensures valid_date(y, m, d), day_no(y, m, d) == z - 719468, 0 <= yoe <= 399, 0 <= doy <= 365, 0 <= mp <= 11
{
    lemma_yoe(doe, yoe); let my = yoe + era * 400; lemma_era(my, era, yoe); lemma_march(my); lemma_leap(my + 1, era, yoe + 1);
    lemma_mp(doy, mp); lemma_mstart(my, mp); lemma_mstart(my + 1, mp);
    if mp < 10 { } else { if mp == 11 { assert(d <= doy - 336); lemma_mlen2(my + 1); } }
}
pub proof fn lemma_mlen2(y: int) ensures mlen(y, 2) == (if leap(y) { 29int } else { 28 }), mlen(y, 1) == 31 {}
pub proof fn lemma_leap(y: int, era: int, k: int) requires y == 400 * era + k, 0 < k <= 400 ensures leap(y) == (k % 4 == 0 && (k % 100 != 0 || k == 400)) 
{ reveal(leap); assert(y % 4 == k % 4); assert(y % 100 == k % 100); assert(y % 400 == k % 400); }
// ---- units
pub open spec fn nsf(u: TimeUnit) -> int {
    match u { TimeUnit::Weeks => 604_800_000_000_000, TimeUnit::Days => 86_400_000_000_000, TimeUnit::Hours => 3_600_000_000_000, TimeUnit::Minutes => 60_000_000_000,
      TimeUnit::Seconds => 1_000_000_000, TimeUnit::Milliseconds => 1_000_000, TimeUnit::Microseconds => 1_000, TimeUnit::Nanoseconds => 1, _ => 0 }
}
pub open spec fn dayns() -> int { 86_400_000_000_000 }
pub open spec fn fixed(u: TimeUnit) -> bool { !(u is Years) && !(u is Months) }
/// day on which month v (counted from 1970-01) starts
pub open spec fn mday(v: int) -> int { ycum(1970 + v / 12) + mcum(1970 + v / 12, v % 12 + 1) }
/// nanosecond at which unit v starts: the meaning of a stored value
pub open spec fn inst(v: int, u: TimeUnit) -> int {
    match u { TimeUnit::Years => ycum(1970 + v) * dayns(), TimeUnit::Months => mday(v) * dayns(), _ => v * nsf(u) }
}
pub open spec fn floor_unit(r: int, at: int, u: TimeUnit) -> bool { inst(r, u) <= at < inst(r + 1, u) }
pub open spec fn lim_day() -> int { 300_000_000_000_000 }
/// the converted value is representable
pub open spec fn fits(v: int, from: TimeUnit, to: TimeUnit) -> bool {
    &&& -lim_day() * dayns() <= inst(v, from) <= lim_day() * dayns()
    &&& (!fixed(from) ==> -800_000_000_000 <= v <= 800_000_000_000)
    &&& (fixed(to) ==> (i64::MIN + 1) * nsf(to) <= inst(v, from) <= i64::MAX * nsf(to))
}
pub proof fn lemma_mday_year(v: int) ensures v % 12 == 0 ==> mday(v) == ycum(1970 + v / 12), mday(v + 1) == mday(v) + mlen(1970 + v / 12, v % 12 + 1)
{
    let y = 1970 + v / 12; lemma_mcum(y); lemma_mcum(y + 1); lemma_march(y);
    if v % 12 == 11 { assert((v + 1) / 12 == v / 12 + 1 && (v + 1) % 12 == 0); } else { assert((v + 1) / 12 == v / 12 && (v + 1) % 12 == v % 12 + 1); }
}
/// a date lies in its year and in its month
pub proof fn lemma_date_in(y: int, m: int, d: int, n: int)
    requires valid_date(y, m, d), day_no(y, m, d) == n
    ensures ycum(y) <= n < ycum(y + 1), mday((y - 1970) * 12 + (m - 1)) <= n < mday((y - 1970) * 12 + m)
{
    lemma_mcum(y); lemma_march(y); let v = (y - 1970) * 12 + (m - 1); assert(v / 12 == y - 1970 && v % 12 == m - 1); lemma_mday_year(v);
}
pub proof fn lemma_floor_div(v: int, f: int, q: int, r: int)
    requires f > 0, q == v / f
    ensures q * f <= v < (q + 1) * f
{ lemma_fundamental_div_mod(v, f); lemma_mod_bound(v, f); assert((q + 1) * f == q * f + f) by (nonlinear_arith); assert(q * f == f * q) by (nonlinear_arith); }
pub proof fn lemma_floor_mul(v: int, k: int, f: int, q: int)
    requires f > 0, k > 0, q == v / k
    ensures q * (k * f) <= v * f < (q + 1) * (k * f)
{ lemma_floor_div(v, k, q, 0); let a = q * k; let b = (q + 1) * k;
  assert(q * (k * f) == a * f && (q + 1) * (k * f) == b * f && a * f <= v * f < b * f) by (nonlinear_arith) requires a == q * k, b == (q + 1) * k, a <= v < b, f > 0; }
pub proof fn lemma_scale(v: int, k: int, f: int, lo: int, hi: int)
    requires f > 0, k > 0, lo * f <= v * (k * f) <= hi * f
    ensures lo <= v * k <= hi, (v * k) * f == v * (k * f), (v * k + 1) * f > (v * k) * f
{ let p = v * k; assert(p * f == v * (k * f)) by (nonlinear_arith) requires p == v * k;
  assert(lo <= p <= hi) by (nonlinear_arith) requires lo * f <= p * f <= hi * f, f > 0; assert((p + 1) * f == p * f + f) by (nonlinear_arith); }
pub proof fn lemma_inst_fixed(v: int, u: TimeUnit) requires fixed(u) ensures inst(v, u) == v * nsf(u), nsf(u) >= 1, 0 < nsf(u) <= 604_800_000_000_000 {}
pub open spec fn perday(u: TimeUnit) -> int { match u { TimeUnit::Hours => 24, TimeUnit::Minutes => 1440, TimeUnit::Seconds => 86400, TimeUnit::Milliseconds => 86_400_000, TimeUnit::Microseconds => 86_400_000_000, TimeUnit::Nanoseconds => 86_400_000_000_000, _ => 1 } }
pub proof fn lemma_perday(u: TimeUnit) requires fixed(u), !(u is Weeks) ensures perday(u) * nsf(u) == dayns(), perday(u) >= 1 {}
pub open spec fn utd(v: int, u: TimeUnit) -> int { match u { TimeUnit::Weeks => v * 7, TimeUnit::Days => v, TimeUnit::Hours => v / 24, TimeUnit::Minutes => v / 1440, TimeUnit::Seconds => v / 86400,
    TimeUnit::Milliseconds => v / 86_400_000, TimeUnit::Microseconds => v / 86_400_000_000, _ => v / 86_400_000_000_000 } }
pub proof fn lemma_utd(v: int, u: TimeUnit)
    requires fixed(u), -lim_day() * dayns() <= v * nsf(u) <= lim_day() * dayns()
    ensures ({ let r = utd(v, u); r * dayns() <= v * nsf(u) < (r + 1) * dayns() && -lim_day() <= r <= lim_day() })
{
    let f = nsf(u); let x = v * f; let q = utd(v, u); let D = 86_400_000_000_000int;
    match u {
        TimeUnit::Weeks => { assert(x == (7 * v) * D) by (nonlinear_arith) requires x == v * f, f == 604_800_000_000_000, D == 86_400_000_000_000; assert(q * D == x); assert((q + 1) * D == q * D + D) by (nonlinear_arith); }
        TimeUnit::Days => { assert((q + 1) * D == q * D + D) by (nonlinear_arith); }
        _ => { let k = perday(u); lemma_perday(u); assert(q == v / k); lemma_floor_mul(v, k, f, q); }
    }
    assert(-300_000_000_000_000 <= q <= 300_000_000_000_000) by (nonlinear_arith) requires q * D <= x < (q + 1) * D, -300_000_000_000_000 * D <= x <= 300_000_000_000_000 * D, D == 86_400_000_000_000;
}
/// conversions from years and months
pub proof fn lemma_conv_var(v: int, from: TimeUnit, to: TimeUnit)
    requires fits(v, from, to)
    ensures from is Years && to is Months ==> inst(v * 12, to) == inst(v, from) && inst(v * 12 + 1, to) > inst(v, from),
        from is Months && to is Years ==> floor_unit(v / 12, inst(v, from), to),
        from is Years ==> day_no(1970 + v, 1, 1) * dayns() == inst(v, from),
        from is Months ==> day_no(1970 + v / 12, v % 12 + 1, 1) * dayns() == inst(v, from), (1970 * 12 + v) / 12 == 1970 + v / 12, (1970 * 12 + v) % 12 == v % 12
{
    if from is Years && to is Months { lemma_mday_year(v * 12); assert((v * 12) / 12 == v && (v * 12) % 12 == 0); }
    if from is Months && to is Years { lemma_mlen1(1970 + v / 12, v % 12 + 1); lemma_date_in(1970 + v / 12, v % 12 + 1, 1, mday(v)); }
    if from is Years { assert(mcum(1970 + v, 1) == 0); }
}
pub proof fn lemma_mlen1(y: int, m: int) ensures 28 <= mlen(y, m) {}
/// unit lengths divide each other
pub proof fn lemma_chain(a: TimeUnit, b: TimeUnit)
    requires fixed(a), fixed(b), nsf(a) >= nsf(b)
    ensures nsf(a) == (nsf(a) / nsf(b)) * nsf(b), nsf(a) / nsf(b) >= 1
{}
@endraw

@fn src/array/dtype/datetime64.rs ymd_to_days
@props P15
@req
    -1_000_000_000_000 <= year <= 1_000_000_000_000, 1 <= month <= 12, -1_000_000 <= day <= 1_000_000,
@ens
    r == day_no(year as int, month as int, day as int),
@at /^era \* 146097/
    proof { reveal(mstart); lemma_ymd(year as int, month as int, day as int, y as int, m as int, era as int, yoe as int, doy as int); }

@fn src/array/dtype/datetime64.rs days_to_ymd
@props P15
@req
    -300_000_000_000_000 <= days <= 300_000_000_000_000,
@ens
    valid_date(r.0 as int, r.1 as int, r.2 as int), day_no(r.0 as int, r.1 as int, r.2 as int) == days,
    -1_000_000_000_000 <= r.0 <= 1_000_000_000_000,
@at /^\(y, m, d\)/
    proof { reveal(mstart); lemma_days(z as int, era as int, doe as int, yoe as int, doy as int, mp as int, y as int, m as int, d as int); }

@fn src/array/dtype/datetime64.rs TimeUnit::to_ns_factor
@props P15
@ens
    fixed(*self) ==> r == Some(nsf(*self) as i64), !fixed(*self) ==> r is None,

@fn src/array/dtype/datetime64.rs days_to_unit
@props P15
@req
    -lim_day() <= days <= lim_day(), fixed(unit) ==> (i64::MIN + 1) * nsf(unit) <= days * dayns() <= i64::MAX * nsf(unit),
@ens
    floor_unit(r as int, days * dayns(), unit), fixed(unit) && !(unit is Weeks) ==> inst(r as int, unit) == days * dayns(),
@sub /let \(year, month, _\) = days_to_ymd\(days\);/ => let (year, month, __d) = days_to_ymd(days); proof { lemma_date_in(year as int, month as int, __d as int, days as int); }

@fn src/array/dtype/datetime64.rs unit_to_days
@props P15
@req
    fixed(unit), -lim_day() * dayns() <= value * nsf(unit) <= lim_day() * dayns(),
@ens
    r * dayns() <= value * nsf(unit) < (r + 1) * dayns(), -lim_day() <= r <= lim_day(),
@start
    proof { lemma_utd(value as int, unit); }

@fn src/array/dtype/datetime64.rs convert_datetime64
@props P15
@req
    value != NAT && from_unit != to_unit ==> fits(value as int, from_unit, to_unit),
@ens
    value == NAT ==> r == NAT, value != NAT && from_unit == to_unit ==> r == value,
    value != NAT && from_unit != to_unit ==> floor_unit(r as int, inst(value as int, from_unit), to_unit),
    value != NAT && fixed(from_unit) && fixed(to_unit) && nsf(to_unit) <= nsf(from_unit) ==> inst(r as int, to_unit) == inst(value as int, from_unit),
    value != NAT && !fixed(from_unit) && fixed(to_unit) && !(to_unit is Weeks) ==> inst(r as int, to_unit) == inst(value as int, from_unit),
    value != NAT && from_unit is Years && to_unit is Months ==> inst(r as int, to_unit) == inst(value as int, from_unit),

@start
    proof { if value != NAT && from_unit != to_unit { lemma_conv_var(value as int, from_unit, to_unit); } }
@sub /let \(year, _, _\) = days_to_ymd\(days\);/ => let (year, __m, __d) = days_to_ymd(days); proof { lemma_date_in(year as int, __m as int, __d as int, days as int); }
@sub /let \(year, month, _\) = days_to_ymd\(days\);/ => let (year, month, __d) = days_to_ymd(days); proof { lemma_date_in(year as int, month as int, __d as int, days as int); }
@at /if from_factor >= to_factor/
    proof {
        let (F, T) = (nsf(from_unit), nsf(to_unit)); let v = value as int; lemma_inst_fixed(v, from_unit); lemma_inst_fixed(v, to_unit);
        assert(from == from_unit && to == to_unit && fixed(from) && fixed(to) && from_factor == F && to_factor == T);
        if F >= T { lemma_chain(from_unit, to_unit); let k = F / T; lemma_scale(v, k, T, i64::MIN + 1, i64::MAX as int); assert(k == from_factor as int / to_factor as int); lemma_inst_fixed(v * k, to_unit); lemma_inst_fixed(v * k + 1, to_unit); }
        else { lemma_chain(to_unit, from_unit); let k = T / F; assert(k == to_factor as int / from_factor as int); lemma_floor_mul(v, k, F, v / k); lemma_inst_fixed(v / k, to_unit); lemma_inst_fixed(v / k + 1, to_unit); }
    }

@fn src/python/datetime.rs is_business_day
@props P15
@ens
    r == bday(*cal, days as int),
@sub /\.contains\(/ => .vx_contains(
@raw
pub open spec fn bday(c: BusDayCalendar, d: int) -> bool { d != NAT && !c.holidays@.contains(d as i64) && c.weekmask@[(d + 3) % 7] }
/// number of business days in a..b
pub open spec fn nb(c: BusDayCalendar, a: int, b: int) -> int decreases b - a { if a >= b { 0 } else { nb(c, a, b - 1) + (if bday(c, b - 1) { 1int } else { 0int }) } }
pub proof fn lemma_nb_front(c: BusDayCalendar, a: int, b: int) requires a < b ensures nb(c, a, b) == (if bday(c, a) { 1int } else { 0int }) + nb(c, a + 1, b) decreases b - a
{ if b > a + 1 { lemma_nb_front(c, a, b - 1); } else { assert(nb(c, a, a) == 0); assert(nb(c, a + 1, a + 1) == 0); } }
pub proof fn lemma_nb_mono(c: BusDayCalendar, a: int, b: int, d: int) requires a <= b <= d ensures 0 <= nb(c, a, b) <= nb(c, a, d), nb(c, a, b) <= b - a decreases d - a
{ if d > b { lemma_nb_mono(c, a, b, d - 1); } else if b > a { lemma_nb_mono(c, a, b - 1, b - 1); } }
pub proof fn lemma_nb_mono2(c: BusDayCalendar, a: int, b: int, d: int) requires a <= b <= d ensures 0 <= nb(c, b, d) <= nb(c, a, d) decreases b - a
{ if a < b { lemma_nb_front(c, a, d); lemma_nb_mono2(c, a + 1, b, d); } else { lemma_nb_mono(c, a, d, d); } }
@endraw

@fn src/python/datetime.rs busday_count_single
@props P15
@req
    end - begin <= i64::MAX,
@ens
    r == (if begin == NAT || end == NAT { 0 } else { nb(*cal, begin as int, end as int) }),
@inv 0
    invariant begin <= __i0 <= __e0, __e0 == end, end - begin <= i64::MAX, count == nb(*cal, begin as int, __i0 as int), 0 <= count <= __i0 - begin
    decreases __e0 - __i0

@fn src/python/datetime.rs busday_offset_single
@props P15
@req
    offset != i64::MIN,
    date != NAT && offset > 0 ==> exists|l: int| date <= l <= i64::MAX && #[trigger] nb(*cal, date + 1, l + 1) >= offset,
    date != NAT && offset < 0 ==> exists|l: int| i64::MIN <= l <= date && #[trigger] nb(*cal, l, date as int) >= -offset,
@ens
    date == NAT ==> r == NAT,
    date != NAT && offset == 0 ==> r == date,
    date != NAT && offset > 0 ==> r > date && bday(*cal, r as int) && nb(*cal, date + 1, r + 1) == offset,
    date != NAT && offset < 0 ==> r < date && bday(*cal, r as int) && nb(*cal, r as int, date as int) == -offset,
@before 0
    let ghost lim = if offset > 0 { choose|l: int| date <= l <= i64::MAX && #[trigger] nb(*cal, date + 1, l + 1) >= offset } else { choose|l: int| i64::MIN <= l <= date && #[trigger] nb(*cal, l, date as int) >= -offset };
    let ghost c = *cal;
@inv 0
    invariant c == *cal, offset != i64::MIN, 0 <= remaining <= (if offset < 0 { -offset } else { offset as int }), step == (if offset >= 0 { 1int } else { -1int }),
        offset > 0 ==> date <= current <= lim <= i64::MAX && nb(c, date + 1, lim + 1) >= offset && nb(c, date + 1, current + 1) == offset - remaining && (current > date && remaining < offset && remaining == 0 ==> bday(c, current as int)),
        offset < 0 ==> i64::MIN <= lim <= current <= date && nb(c, lim, date as int) >= -offset && nb(c, current as int, date as int) == -offset - remaining && (current < date && remaining == 0 ==> bday(c, current as int)),
        offset == 0 ==> current == date,
        offset != 0 && remaining == 0 ==> current != date,
    decreases (if offset > 0 { lim - current } else { current - lim })
@body 0
    proof { if offset > 0 { lemma_nb_mono(c, date + 1, current + 1, lim + 1); assert(current != lim); }
        else { lemma_nb_mono2(c, lim, current as int, date as int); assert(current != lim); lemma_nb_front(c, current - 1, date as int); } }
