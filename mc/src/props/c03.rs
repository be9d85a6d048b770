//! C03: literals keep their exact value, type, precision and nullability.
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp};
use substrait::proto::expression::{Literal, RexType};
use substrait::proto::rel::RelType;
use substrait::proto::{Expression, Plan, plan_rel};

use crate::common::{bytes, format, options, parses_to, rejected, round_trip, try_format, try_parse};
use crate::engine::{Case, Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;
use substrait_explain::extensions::ExtensionRegistry;

fn sparse(d: &Doc) -> Doc {
    Doc { env: Env::default(), ..d.clone() }
}

/// A virtual table with one literal per row and column.
fn table(lits: &[Lit]) -> Doc {
    let per = 4usize;
    let rows = lits.chunks(per).map(|c| c.iter().cloned().map(Ex::Lit).collect()).collect();
    Doc {
        version: None,
        env: Env::default(),
        tops: vec![Top::Rel(rel(Op::Virtual { rows, filter: None, cols: cols(per) }, vec![]))],
    }
}

/// Round-trip many literals in one document; if that fails, find which.
fn batch(case: &mut Case, lits: &[Lit], reg: &ExtensionRegistry) {
    if lits.is_empty() {
        return;
    }
    let d = table(lits);
    let (text, plan) = (d.text(&Opts::default()), d.proto());
    case.state(&text);
    case.step(2);
    let parsed = matches!(try_parse(&text, reg), Ok(Ok(p)) if bytes(&p) == bytes(&plan));
    let written = matches!(try_format(&plan, &options(&Opts::default()), reg), Ok((t, e)) if t == text && e.is_empty());
    if parsed && written {
        for _ in lits {
            case.trace();
        }
        case.outcome("batch round trip");
        return;
    }
    let before = case.ctx.violation_count();
    for l in lits {
        round_trip(case, &table(std::slice::from_ref(l)), reg);
    }
    if case.ctx.violation_count() == before {
        round_trip(case, &d, reg);
    }
}

fn filter_text(l: &str) -> String {
    format!("=== Plan\nFilter[{l} => $0]\n  Read[t => c0:i64]\n")
}

fn filter_plan(l: &Lit) -> Plan {
    sparse(&doc1(rel(Op::Filter(Ex::Lit(l.clone())), vec![read(1)]))).proto()
}

/// The text of a literal is accepted as exactly this value, or rejected.
fn reads_as(case: &mut Case, text: &str, want: Option<&Lit>, why: &str, reg: &ExtensionRegistry) {
    let t = filter_text(text);
    match want {
        Some(l) => {
            case.state(&t);
            if parses_to(case, &t, &filter_plan(l), reg) {
                case.outcome("accepted");
            }
        }
        None => {
            rejected(case, &t, why, reg);
        }
    }
}

/// Integers around every power of two (and of ten), both signs.
fn edges() -> Vec<i128> {
    let mut v: Vec<i128> = (-300..=300).collect();
    for k in 0..70 {
        for d in -2..=2 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    let mut p = 1i128;
    for _ in 0..21 {
        p *= 10;
        for d in -1..=1 {
            v.push(p + d);
            v.push(-p + d);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Spread over the i64 range plus everything near its structure points.
fn i64s(step: usize) -> Vec<i64> {
    let mut v: Vec<i64> = edges().into_iter().filter_map(|i| i64::try_from(i).ok()).collect();
    let n = step as i128;
    for k in 0..n {
        let x = i64::MIN as i128 + (u64::MAX as i128 * k) / n + (k * k * 7919) % 1_000_003;
        if let Ok(x) = i64::try_from(x) {
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    v
}

const DAY: i128 = 86_400;
/// Years the date text is claimed for (the calendar library's range, less one).
fn day_of(y: i64) -> i64 {
    // Inverse of `civil` on 1 January, by search.
    let mut lo = -96_500_000i64;
    let mut hi = 95_100_000i64;
    while lo < hi {
        let m = (lo + hi).div_euclid(2);
        if civil(m).0 >= y { hi = m } else { lo = m + 1 }
    }
    lo
}

/// What a literal message must be written as.
enum Shown {
    /// This text and no report.
    Plain(String),
    /// This text, and a report.
    Reported(String),
    /// A failure token and a report.
    Token,
}

fn written_as(case: &mut Case, lit: LiteralType, null: bool, want: &Shown, reg: &ExtensionRegistry) {
    let mut plan = sparse(&doc1(rel(Op::Filter(Ex::Lit(Lit { v: V::I64(4242), null: false })), vec![read(1)]))).proto();
    let desc = format!("{lit:?} nullable={null}");
    if let Some(plan_rel::RelType::Rel(r)) = &mut plan.relations[0].rel_type
        && let Some(RelType::Filter(f)) = &mut r.rel_type
    {
        let l = Literal { nullable: null, type_variation_reference: 0, literal_type: Some(lit) };
        f.condition = Some(Box::new(Expression { rex_type: Some(RexType::Literal(l)) }));
    }
    case.state(&desc);
    let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &desc) else { return };
    case.trace();
    match want {
        Shown::Plain(l) | Shown::Reported(l) => {
            if text != filter_text(l) {
                case.fail("other-text", &format!("formatted as:\n{text}\nerrors: {errs:?}"), &filter_text(l));
            } else if matches!(want, Shown::Plain(_)) && !errs.is_empty() {
                case.fail("errors", &format!("formatting reported errors: {errs:?}"), &filter_text(l));
            } else if matches!(want, Shown::Reported(_)) && errs.is_empty() {
                case.fail("unreported", &format!("no report of a value outside its type:\n{text}"), &desc);
            }
        }
        Shown::Token => {
            if !text.contains("Filter[!{") || errs.is_empty() {
                case.fail("unreported", &format!("no failure for a value that has no text:\n{text}\nerrors: {errs:?}"), &desc);
            }
        }
    }
}

/// Literal messages at the edges of what their type can hold: written exactly,
/// and reported exactly when they are outside it.
fn written(ctx: &Ctx, reg: &ExtensionRegistry) {
    let q = |null: bool| if null { "?" } else { "" };
    let mut ints: Vec<i32> = vec![];
    for k in [0i64, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31] {
        ints.extend((-3..=3).flat_map(|d| [k + d, -k + d]).filter_map(|x| i32::try_from(x).ok()));
    }
    ctx.space("integers-outside-their-type", (ints.len() * 3 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let v = *r.pick(&ints);
        let k = r.take(3);
        let null = r.take(2) == 1;
        let (l, n, fits) = match k {
            0 => (LiteralType::I8(v), "i8", (-128..=127).contains(&v)),
            1 => (LiteralType::I16(v), "i16", (-32_768..=32_767).contains(&v)),
            _ => (LiteralType::I32(v), "i32", true),
        };
        let t = format!("{v}:{n}{}", q(null));
        written_as(case, l, null, &if fits { Shown::Plain(t) } else { Shown::Reported(t) }, reg);
    });
    let max = 3_650_000i32;
    let ds = [0, 1, max - 1, max, max + 1, -max + 1, -max, -max - 1, i32::MAX, i32::MIN];
    let ss = [0, 1, -1, 86_399, 86_400, 86_401, -86_400, -86_401, i32::MAX, i32::MIN];
    ctx.space("intervals-outside-their-type", (ds.len() * ss.len() * 15 * 9 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let (d, s) = (*r.pick(&ds), *r.pick(&ss));
        let k = r.take(15);
        // The last two: precision not stated, and the deprecated microseconds.
        let m = r.take(9);
        let p = [0, 3, 6, 9, 12, 1, -1, 6, 6][m];
        let null = r.take(2) == 1;
        let b = 10i64.pow(p.max(0) as u32);
        let u = [0, 1, -1, b - 1, b, b + 1, 1 - b, -b, -b - 1, 10 * b, -10 * b, b / 10, -b / 10, i64::MAX, i64::MIN][k];
        let (subseconds, mode) = match m {
            7 => (u, None),
            8 => match i32::try_from(u) {
                #[allow(deprecated)]
                Ok(u) => (0, Some(PrecisionMode::Microseconds(u))),
                Err(_) => return,
            },
            _ => (u, Some(PrecisionMode::Precision(p))),
        };
        let l = LiteralType::IntervalDayToSecond(IntervalDayToSecond { days: d, seconds: s, subseconds, precision_mode: mode });
        let want = if !matches!(p, 0 | 3 | 6 | 9 | 12) || (p == 0 && u != 0) {
            Shown::Token
        } else {
            let mut parts = vec![];
            if d != 0 {
                parts.push(format!("{d}d"));
            }
            if s != 0 {
                parts.push(format!("{s}s"));
            }
            if u != 0 {
                parts.push(format!("{u}{}", ["", "ms", "us", "ns", "ps"][p as usize / 3]));
            }
            if parts.is_empty() {
                parts.push("0s".into());
            }
            let t = format!("'{}':interval_day{}<{p}>", parts.join(" "), q(null));
            let total = d as i64 * 86_400 + s as i64;
            let most = max as i64 * 86_400;
            let ok = (-max..=max).contains(&d) && (-most..=most).contains(&total) && u > -b && u < b || (p == 0 && u == 0 && (-max..=max).contains(&d) && (-most..=most).contains(&total));
            if ok { Shown::Plain(t) } else { Shown::Reported(t) }
        };
        written_as(case, l, null, &want, reg);
    });
    // Times of day (the fourth kind is the deprecated one, in microseconds).
    ctx.space("times-outside-their-type", 9 * 14 * 2, |i, case| {
        let mut r = Radix(i);
        let m = r.take(9);
        let p = [0, 3, 6, 9, 12, 1, -1, 13, 6][m];
        let k = r.take(14);
        let null = r.take(2) == 1;
        let b = 10i64.pow(p.clamp(0, 12) as u32);
        let day = 86_400i64.saturating_mul(b);
        let v = [0, 1, -1, b - 1, b, day - 1, day, day.saturating_add(1), day.saturating_mul(2), -day, day / 2, i64::MAX, i64::MIN, -b][k];
        let (l, n) = if m == 8 {
            #[allow(deprecated)]
            (LiteralType::Time(v), format!("time{}", q(null)))
        } else {
            (LiteralType::PrecisionTime(PrecisionTime { precision: p, value: v }), format!("precisiontime{}<{p}>", q(null)))
        };
        let want = if !matches!(p, 0 | 3 | 6 | 9 | 12) || v < 0 || v >= day {
            Shown::Token
        } else {
            let s = v / b;
            let f = match p {
                0 => String::new(),
                12 => format!(".{:09}", v % b / 1000),
                _ => format!(".{:0w$}", v % b, w = p as usize),
            };
            let t = format!("'{:02}:{:02}:{:02}{f}':{n}", s / 3600, s / 60 % 60, s % 60);
            // Picoseconds are cut to nanoseconds.
            if p == 12 { Shown::Reported(t) } else { Shown::Plain(t) }
        };
        written_as(case, l, null, &want, reg);
    });
    // Timestamps far outside the calendar, and with a precision that has no text.
    ctx.space("timestamps-outside-their-type", 8 * 12 * 2 * 2, |i, case| {
        let mut r = Radix(i);
        let p = [0, 3, 6, 9, 12, 1, -1, 13][r.take(8)];
        let k = r.take(12);
        let tz = r.take(2) == 1;
        let null = r.take(2) == 1;
        let b = 10i64.pow(p.clamp(0, 12) as u32);
        let far = 300_000i64 * 366 * 86_400;
        let v = [0, 1, -1, b, -b, far.saturating_mul(b), (-far).saturating_mul(b), i64::MAX, i64::MIN, 1 - b, b - 1, 86_400i64.saturating_mul(b)][k];
        let value = PrecisionTimestamp { precision: p, value: v };
        let l = if tz { LiteralType::PrecisionTimestampTz(value) } else { LiteralType::PrecisionTimestamp(value) };
        let n = if tz { "precisiontimestamptz" } else { "precisiontimestamp" };
        let (s, f) = (v.div_euclid(b), v.rem_euclid(b));
        let want = if !matches!(p, 0 | 3 | 6 | 9 | 12) || s.unsigned_abs() > 290_000 * 365 * 86_400 {
            Shown::Token
        } else if p == 12 && v < 0 {
            return;
        } else {
            let f = match p {
                0 => String::new(),
                12 => format!(".{:09}", f / 1000),
                _ => format!(".{f:0w$}", w = p as usize),
            };
            let t = format!("'{}{f}':{n}{}<{p}>", ts_text(s, 0), q(null));
            if p == 12 { Shown::Reported(t) } else { Shown::Plain(t) }
        };
        written_as(case, l, null, &want, reg);
    });
}

pub fn run(ctx: &Ctx) {
    crate::words::literals(ctx);
    let reg = registry();
    let first_day = day_of(-262_142);
    let last_day = day_of(262_142) - 1;

    // Small integer types, every value; wide ones at every structure point.
    ctx.space("every-i8-i16-value", 2 * 65_536 / 64, |i, case| {
        let mut ls = vec![];
        for k in 0..64 {
            let n = (i as i32 * 64 + k) - 65_536;
            let null = n & 1 == 1;
            if (-32_768..32_768).contains(&n) {
                ls.push(Lit { v: V::I16(n), null });
                ls.push(Lit { v: V::I16(n), null: !null });
            }
            if (-128..128).contains(&n) {
                ls.push(Lit { v: V::I8(n), null: false });
                ls.push(Lit { v: V::I8(n), null: true });
            }
        }
        batch(case, &ls, &reg);
    });
    let wide = i64s(ctx.pick(20_000, 2_000_000));
    ctx.space("wide-integers", wide.len().div_ceil(32) as u64, |i, case| {
        let mut ls = vec![];
        for x in wide.iter().skip(i as usize * 32).take(32) {
            ls.extend(both_lits(vec![V::I64(*x)]));
            if let Ok(y) = i32::try_from(*x) {
                ls.extend(both_lits(vec![V::I32(y)]));
            }
            ls.push(Lit { v: V::I32((*x >> 32) as i32), null: false });
        }
        batch(case, &ls, &reg);
    });
    // An integer text means that integer or is refused, per width.
    let e = edges();
    let widths: [(&str, i128, i128); 4] = [
        ("i8", i8::MIN as i128, i8::MAX as i128),
        ("i16", i16::MIN as i128, i16::MAX as i128),
        ("i32", i32::MIN as i128, i32::MAX as i128),
        ("i64", i64::MIN as i128, i64::MAX as i128),
    ];
    ctx.space("integer-range-per-width", (e.len() * 9 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let x = *r.pick(&e);
        let w = r.take(9);
        let zeros = r.take(2) == 1;
        let digits = if zeros { format!("{}000{}", if x < 0 { "-" } else { "" }, x.abs()) } else { x.to_string() };
        let (name, lo, hi) = widths[if w == 8 { 3 } else { w / 2 }];
        let null = w < 8 && w % 2 == 1;
        let text = if w == 8 { digits } else { format!("{digits}:{name}{}", if null { "?" } else { "" }) };
        let want = (lo..=hi).contains(&x).then(|| Lit {
            v: match name {
                "i8" => V::I8(x as i32),
                "i16" => V::I16(x as i32),
                "i32" => V::I32(x as i32),
                _ => V::I64(x as i64),
            },
            null,
        });
        reads_as(case, &text, want.as_ref(), "the integer does not fit its type", &reg);
    });

    // Floats: every exponent with boundary mantissas, both signs and widths.
    let m32: Vec<u32> = (0..23).map(|b| 1 << b).chain((0..23).map(|b| (1 << b) - 1)).chain([0x7f_ffff, 0x55_5555, 0x2a_aaaa, 0x12_3456]).collect();
    ctx.space("fp32-exponents-and-mantissas", 255 * 2, |i, case| {
        let (ex, s) = ((i / 2) as u32, (i % 2) as u32);
        let mut ls = vec![];
        for m in &m32 {
            ls.push(Lit { v: V::F32(f32::from_bits(s << 31 | ex << 23 | m)), null: m % 2 == 1 });
        }
        batch(case, &ls, &reg);
    });
    // Decimal texts close to the middle between two fp32 values, which are the
    // ones that rounding twice gets wrong; 0x15ae43fd is the one fp32 whose own
    // shortest text is affected.
    let mids: Vec<u32> = [0x15ae_43fd, 0x15ae_43fc, 0x0080_0000, 0x0000_0001, 0x3f80_0000, 0x7f7f_ffff, 0x4b00_0000]
        .into_iter()
        .chain((1..255u32).map(|e| e << 23 | e.wrapping_mul(32_452_843) & 0x7f_ffff))
        .collect();
    ctx.space("fp32-near-midpoints", mids.len() as u64, |i, case| {
        let f = f32::from_bits(mids[i as usize]);
        batch(case, &[Lit { v: V::F32(f), null: false }, Lit { v: V::F32(-f), null: true }], &reg);
        let up = f32::from_bits(mids[i as usize] + 1);
        if !up.is_finite() {
            return;
        }
        let mid = (f as f64 + up as f64) / 2.0;
        let exact = format!("{mid:.200}");
        // Just above and just below the exact midpoint, by appended digits.
        let above = format!("{exact}1");
        let below = {
            let d = format!("{:.200}", mid);
            let mut b: Vec<u8> = d.into_bytes();
            let mut k = b.len();
            loop {
                k -= 1;
                match b[k] {
                    b'.' => continue,
                    b'0' => b[k] = b'9',
                    c => {
                        b[k] = c - 1;
                        break;
                    }
                }
            }
            String::from_utf8(b).unwrap()
        };
        for (t, v) in [(above, up), (below, f)] {
            // The expansion is exact only where 200 digits hold all of it.
            if mid < 1e-12 {
                continue;
            }
            reads_as(case, &format!("{t}:fp32"), Some(&Lit { v: V::F32(v), null: false }), "", &reg);
        }
    });
    let m64: Vec<u64> = (0..52).map(|b| 1 << b).chain((0..52).map(|b| (1 << b) - 1)).chain([0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 0x2_4924_9249_2492]).collect();
    ctx.space("fp64-exponents-and-mantissas", 2047 * 2, |i, case| {
        let (ex, s) = (i / 2, i % 2);
        let mut ls = vec![];
        for m in m64.iter().skip(if ex % 16 == 0 { 0 } else { (ex % 8) as usize }).step_by(if ex % 16 == 0 { 1 } else { ctx.pick(8, 1) }) {
            ls.push(Lit { v: V::F64(f64::from_bits(s << 63 | ex << 52 | m)), null: m % 2 == 1 });
        }
        batch(case, &ls, &reg);
    });
    // Decimals with few digits, read as both widths.
    let digits = ctx.pick(2_000u64, 20_000);
    ctx.space("short-decimals", digits, |i, case| {
        let mut ls = vec![];
        for scale in [1.0, 10.0, 100.0, 1e4, 1e7] {
            for sign in [1.0, -1.0] {
                ls.push(Lit { v: V::F64(sign * i as f64 / scale), null: false });
                ls.push(Lit { v: V::F32(sign as f32 * i as f32 / scale as f32), null: true });
            }
        }
        batch(case, &ls, &reg);
    });
    let fl: Vec<(String, Option<Lit>)> = {
        let ok = |t: &str, v: V, null: bool| (t.to_string(), Some(Lit { v, null }));
        let no = |t: &str| (t.to_string(), None);
        let big = format!("1{}.0", "0".repeat(309));
        let big32 = format!("1{}.0", "0".repeat(39));
        vec![
            ok("1.0", V::F64(1.0), false),
            ok("1.50", V::F64(1.5), false),
            ok("-0.0", V::F64(-0.0), false),
            ok("00.10", V::F64(0.1), false),
            ok("0.1:fp32", V::F32(0.1), false),
            ok("0.1:fp64?", V::F64(0.1), true),
            ok("16777217.0:fp64", V::F64(16_777_217.0), false),
            ok(&format!("{big32}:fp64"), V::F64(1e39), false),
            no(&big),
            no(&format!("-{big}")),
            no(&format!("{big}:fp64?")),
            no(&format!("{big32}:fp32")),
            no(&format!("-{big32}:fp32?")),
            no("340282356779733700000000000000000000000.0:fp32"),
            no("1."),
            no(".5"),
            no("1e5"),
            no("1.0e5"),
            no("+1.0"),
            no("--1.0"),
            no("1.0.0"),
            no("NaN"),
            no("inf"),
            no("Infinity"),
            no("1_000"),
            no("0x10"),
            no("1.0:i64"),
            no("1.0:string"),
            no("1:fp64"),
            no("1:fp32"),
        ]
    };
    ctx.space("float-texts", fl.len() as u64, |i, case| {
        let (t, want) = &fl[i as usize];
        reads_as(case, t, want.as_ref(), "the float is malformed or out of range", &reg);
    });

    // Dates: every day over a long span, strided over the whole range.
    let from = ctx.pick(day_of(1), first_day);
    let to = ctx.pick(day_of(4001), last_day);
    let stride = ctx.pick(1, 3);
    let block = 512;
    let n = (to - from) / stride / block + 1;
    ctx.space("every-date", n as u64, |i, case| {
        let base = from + i as i64 * block * stride;
        let ls: Vec<Lit> = (0..block)
            .map(|k| base + k * stride)
            .filter(|d| *d <= to)
            .map(|d| Lit { v: V::Date(d as i32), null: d % 5 == 0 })
            .collect();
        batch(case, &ls, &reg);
    });
    ctx.space("date-range-edges", 400, |i, case| {
        let mut ls = vec![];
        for b in [first_day, last_day, day_of(0), day_of(-9999), day_of(10_000), day_of(-1), day_of(1000), day_of(100), day_of(99_999), day_of(100_000)] {
            let d = b + i as i64 - 200;
            if (first_day..=last_day).contains(&d) {
                ls.push(Lit { v: V::Date(d as i32), null: false });
            }
        }
        for k in 0..40i64 {
            let d = first_day + (last_day - first_day) / 16_000 * (i as i64 * 40 + k);
            ls.push(Lit { v: V::Date(d as i32), null: true });
        }
        batch(case, &ls, &reg);
    });
    // Every year-month-day text, valid or not, in both spellings.
    ctx.space("calendar-validity", 14 * 34 * 12 * 2, |i, case| {
        let mut r = Radix(i);
        let (m, d) = (r.take(14) as u32, r.take(34) as u32);
        let y = [1970i64, 2000, 1900, 2100, 2024, 2023, 0, 4, 9999, 1600, -4, -1][r.take(12)];
        let sep = ["-", "/"][r.take(2)];
        let leap = y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0);
        let last = match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 if leap => 29,
            2 => 28,
            _ => 0,
        };
        let ys = if y < 0 { format!("{y:05}") } else { format!("{y:04}") };
        let t = format!("{ys}{sep}{m:02}{sep}{d:02}");
        let valid = d >= 1 && d <= last;
        let days = || {
            let mut k = day_of(y);
            while civil(k) != (y, m, d) {
                k += 1;
            }
            k
        };
        let want = valid.then(|| Lit { v: V::Date(days() as i32), null: false });
        reads_as(case, &format!("'{t}':date"), want.as_ref(), "no such day", &reg);
        let ts = valid.then(|| Lit { v: V::PTs(3, days() * 86_400_000 + 3_723_004), null: true });
        for mid in ["T", " "] {
            let s = format!("'{t}{mid}01:02:03.004':precisiontimestamp?<3>");
            reads_as(case, &s, ts.as_ref(), "no such day", &reg);
        }
    });
    // Times of day: every second, and every hour/minute/second field value.
    let step = ctx.pick(7, 1);
    ctx.space("every-second-of-the-day", 86_400 / 48, |i, case| {
        let mut ls = vec![];
        for k in (0..48i64).step_by(step) {
            let s = i as i64 * 48 + k;
            let sub = (s * 999_983) % 1_000_000_000;
            for (p, f) in [(0, 0), (3, sub / 1_000_000), (6, sub / 1000), (9, sub)] {
                ls.push(Lit { v: V::PTime(p, s * 10i64.pow(p as u32) + f), null: s % 2 == 0 });
            }
            ls.push(Lit { v: V::Time(s * 1_000_000 + sub / 1000), null: s % 3 == 0 });
        }
        batch(case, &ls, &reg);
    });
    ctx.space("time-field-validity", 27 * 63 * 63, |i, case| {
        let mut r = Radix(i);
        let (h, m, s) = (r.take(27) as i64, r.take(63) as i64, r.take(63) as i64);
        let near = |x: i64, top: i64| x < 2 || x > top - 2;
        if ctx.quick() && !(near(h, 24) && near(m, 60) && near(s, 60)) {
            return;
        }
        let valid = h < 24 && m < 60 && s < 60;
        let v = h * 3600 + m * 60 + s;
        for (ty, lit) in [
            ("precisiontime<0>", V::PTime(0, v)),
            ("time", V::Time(v * 1_000_000)),
            ("precisiontime<9>", V::PTime(9, v * 1_000_000_000)),
        ] {
            let want = valid.then(|| Lit { v: lit.clone(), null: false });
            reads_as(case, &format!("'{h:02}:{m:02}:{s:02}':{ty}"), want.as_ref(), "no such time of day", &reg);
        }
        let want = valid.then(|| Lit { v: V::Ts((v + 86_400) * 1_000_000), null: false });
        reads_as(case, &format!("'1970-01-02T{h:02}:{m:02}:{s:02}':timestamp"), want.as_ref(), "no such time of day", &reg);
    });
    // Sub-second digits against precision: exact or refused.
    let fracs: Vec<String> = {
        let mut v = vec![];
        for len in 1..=12usize {
            for pos in 0..len {
                let mut s = vec![b'0'; len];
                s[pos] = b'1' + (pos as u8 % 9);
                v.push(String::from_utf8(s).unwrap());
            }
            v.push("0".repeat(len));
            v.push("9".repeat(len));
            v.push(("123456789012")[..len].to_string());
        }
        v
    };
    let secs = [0i64, 1, -1, 86_399, -86_400, 4_102_444_800, -62_135_596_800];
    ctx.space("fraction-against-precision", (fracs.len() * secs.len() * 5 * 4) as u64, |i, case| {
        let mut r = Radix(i);
        let f = r.pick(&fracs);
        let s = *r.pick(&secs);
        let p = [0, 3, 6, 9, 6][r.take(5)];
        let form = r.take(4);
        let legacy = i as usize / (fracs.len() * secs.len()) % 5 == 4;
        let fits = f.bytes().skip(p).all(|b| b == b'0');
        let mut sub = f.clone();
        sub.truncate(p);
        while sub.len() < p {
            sub.push('0');
        }
        let sub: i128 = if p == 0 { 0 } else { sub.parse().unwrap() };
        let per = 10i128.pow(p as u32);
        let (ty, v, t) = if form == 0 {
            let s = s.rem_euclid(86_400);
            let v = s as i128 * per + sub;
            let t = time_text(s, 0);
            if legacy { ("time".to_string(), V::Time(v as i64), t) } else { (format!("precisiontime<{p}>"), V::PTime(p as i32, v as i64), t) }
        } else {
            let v = s as i128 * per + sub;
            let mut t = ts_text(s, 0);
            if form == 2 {
                t = t.replace('T', " ");
            }
            let Ok(v) = i64::try_from(v) else {
                reads_as(case, &format!("'{t}.{f}':precisiontimestamp<{p}>"), None, "out of range for its precision", &reg);
                return;
            };
            if legacy {
                ("timestamp".to_string(), V::Ts(v), t)
            } else if form == 3 {
                (format!("precisiontimestamptz<{p}>"), V::PTsTz(p as i32, v), t)
            } else {
                (format!("precisiontimestamp<{p}>"), V::PTs(p as i32, v), t)
            }
        };
        let want = fits.then_some(Lit { v, null: false });
        reads_as(case, &format!("'{t}.{f}':{ty}"), want.as_ref(), "finer than the precision can hold", &reg);
    });
    // Timestamps across the whole range of each precision.
    let n = ctx.pick(4_000u64, 400_000);
    let points: Vec<i128> = edges();
    ctx.space("timestamps-per-precision", n + points.len() as u64, |i, case| {
        let mut ls = vec![];
        for p in [0i32, 3, 6, 9] {
            let per = 10i128.pow(p as u32);
            let lo = (first_day as i128 * DAY * per).max(i64::MIN as i128);
            let hi = ((last_day as i128 + 1) * DAY * per - 1).min(i64::MAX as i128);
            let v = if i < n {
                lo + (hi - lo) * i as i128 / (n as i128 - 1)
            } else {
                points[(i - n) as usize]
            };
            for v in [v, v.div_euclid(per) * per, v.div_euclid(DAY * per) * DAY * per] {
                if v < lo || v > hi {
                    continue;
                }
                let v = v as i64;
                let null = v & 1 == 1;
                ls.push(Lit { v: V::PTs(p, v), null });
                ls.push(Lit { v: V::PTsTz(p, v), null: !null });
                if p == 6 {
                    ls.push(Lit { v: V::Ts(v), null });
                }
            }
        }
        batch(case, &ls, &reg);
    });
    // Intervals: all combinations of boundary terms per precision.
    let ds = [0i32, 1, -1, 5, 3_650_000, -3_650_000, 999, -42];
    let ss = [0i32, 1, -1, 59, 86_400, -86_400, i32::MAX, i32::MIN];
    ctx.space("interval-terms", (ds.len() * ss.len() * 9 * 5 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let (d, s) = (*r.pick(&ds), *r.pick(&ss));
        let k = r.take(9);
        let p = [0, 3, 6, 9, 12][r.take(5)];
        let null = r.take(2) == 1;
        let max = 10i64.pow(p as u32) - 1;
        let u = [0, 1, -1, max, -max, max / 2, 7, 10, -100][k];
        if u.abs() > max {
            return;
        }
        let l = Lit { v: V::IDay(d, s, u, p), null };
        let total = d as i64 * 86_400 + s as i64;
        if total.abs() <= 3_650_000 * 86_400 {
            batch(case, &[l], &reg);
            return;
        }
        // Beyond the Substrait maximum: still written and read exactly, and reported.
        let doc = table(&[l]);
        let (text, plan) = (doc.text(&Opts::default()), doc.proto());
        case.state(&text);
        parses_to(case, &text, &plan, &reg);
        case.step(1);
        match try_format(&plan, &options(&Opts::default()), &reg) {
            Ok((t, e)) if t == text && !e.is_empty() => case.outcome("reported"),
            other => case.fail("range", &format!("{other:?}"), &text),
        }
    });
    // Interval texts: every sequence of terms; only ordered ones mean anything.
    let terms = ["1d", "-2d", "3s", "-4s", "5ms", "6us", "7ns", "8ps", "0s", "0d"];
    ctx.space("interval-texts", crate::engine::seq_count(10, 3) * 6, |i, case| {
        let mut r = Radix(i);
        let p = [0, 3, 6, 9, 12, 4][r.take(6)];
        let seq = crate::engine::seq_decode(r.0, 10);
        let t: Vec<&str> = seq.iter().map(|k| terms[*k]).collect();
        let (mut d, mut s, mut u, mut stage, mut ok) = (0, 0, 0i64, 0, !t.is_empty() && p != 4);
        for x in &t {
            let cut = x.find(|c: char| c.is_ascii_alphabetic()).unwrap();
            let n: i64 = x[..cut].parse().unwrap();
            let (st, up) = match &x[cut..] {
                "d" => (1, -1),
                "s" => (2, -1),
                "ms" => (3, 3),
                "us" => (3, 6),
                "ns" => (3, 9),
                _ => (3, 12),
            };
            ok &= st > stage && (st < 3 || up == p);
            stage = st;
            match st {
                1 => d = n as i32,
                2 => s = n as i32,
                _ => u = n,
            }
        }
        let text = format!("'{}':interval_day<{p}>", t.join(" "));
        let want = ok.then_some(Lit { v: V::IDay(d, s, u, p), null: false });
        reads_as(case, &text, want.as_ref(), "not an ordered list of terms in the type's unit", &reg);
    });
    let bad_interval = [
        "", " ", "1", "d", "1 d", " 1d", "1d ", "1d  2s", "1d2s", "1D", "1d,2s", "1d\t2s", "+1d", "1.5s", "2147483648d", "-2147483649d",
        "2147483648s", "9223372036854775808ns", "1m", "1h", "1y", "--1d", "1d 1d", "1s 1d", "1ns 1s", "P1D", "1d 2s 3ns 4ns",
    ];
    ctx.space("malformed-intervals", bad_interval.len() as u64, |i, case| {
        reads_as(case, &format!("'{}':interval_day<9>", bad_interval[i as usize]), None, "malformed interval", &reg);
    });

    written(ctx, &reg);

    // Which literal syntax goes with which type.
    let types = flat_types();
    let syn = ["1", "1.5", "true", "'x'", "'2024-02-29'", "'01:02:03'", "'2024-02-29T01:02:03'", "'1d'", "null", "-1", "''", "false"];
    ctx.space("syntax-against-type", (types.len() * syn.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let t = r.pick(&types).clone();
        let s = *r.pick(&syn);
        let null = t.null;
        let d = 19_782i64; // 2024-02-29
        let is = |n: &str| t.k == simple(n).k;
        let b = 10i64.pow(3);
        let v = match s {
            "1" | "-1" => {
                let x = s.parse::<i64>().unwrap();
                if is("i8") {
                    Some(V::I8(x as i32))
                } else if is("i16") {
                    Some(V::I16(x as i32))
                } else if is("i32") {
                    Some(V::I32(x as i32))
                } else if is("i64") {
                    Some(V::I64(x))
                } else {
                    None
                }
            }
            "1.5" => {
                if is("fp32") {
                    Some(V::F32(1.5))
                } else if is("fp64") {
                    Some(V::F64(1.5))
                } else {
                    None
                }
            }
            "true" | "false" => is("boolean").then_some(V::Bool(s == "true")),
            "null" => Some(V::Null(t.clone())),
            q => {
                let c = q.trim_matches('\'');
                if is("string") {
                    Some(V::Str(c.into()))
                } else {
                    match (&t.k, c) {
                        (_, "2024-02-29") if is("date") => Some(V::Date(d as i32)),
                        (_, "01:02:03") if is("time") => Some(V::Time(3723 * b * b)),
                        (_, "2024-02-29T01:02:03") if is("timestamp") => Some(V::Ts((d * 86_400 + 3723) * b * b)),
                        (K::Ptime(p @ (0 | 3 | 6 | 9)), "01:02:03") => Some(V::PTime(*p, 3723 * 10i64.pow(*p as u32))),
                        (K::Pts(p @ (0 | 3 | 6 | 9)), "2024-02-29T01:02:03") => Some(V::PTs(*p, (d * 86_400 + 3723) * 10i64.pow(*p as u32))),
                        (K::PtsTz(p @ (0 | 3 | 6 | 9)), "2024-02-29T01:02:03") => Some(V::PTsTz(*p, (d * 86_400 + 3723) * 10i64.pow(*p as u32))),
                        (K::IDay(p @ (0 | 3 | 6 | 9 | 12)), "1d") => Some(V::IDay(1, 0, 0, *p)),
                        _ => None,
                    }
                }
            }
        };
        let want = v.map(|v| Lit { null: null && !matches!(v, V::Null(_)), v });
        let e = env();
        let text = format!(
            "{}=== Plan\nFilter[{s}:{} => $0]\n  Read[t => c0:i64]\n",
            e.text("  "),
            W { env: &e, o: &Opts::default() }.ty(&t)
        );
        match want {
            Some(l) => {
                case.state(&text);
                let plan = doc1(rel(Op::Filter(Ex::Lit(l)), vec![read(1)])).proto();
                parses_to(case, &text, &plan, &reg);
            }
            None => {
                rejected(case, &text, "that type has no such literal", &reg);
            }
        }
    });
    // A day, a time and both in every order of parts and every choice of separators.
    let seps = ["-", "/", ".", ":", "", " ", "_", ","];
    let ns = seps.len();
    ctx.space("date-patterns", 6 * (ns * ns) as u64 * 4, |i, case| {
        let mut r = Radix(i);
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][r.take(6)];
        let (a, b) = (*r.pick(&seps), *r.pick(&seps));
        let parts = ["2024", ["02", "Feb", "feb", "II"][r.take(4)], "29"];
        let t = format!("{}{a}{}{b}{}", parts[order[0]], parts[order[1]], parts[order[2]]);
        let good = order == [0, 1, 2] && a == b && (a == "-" || a == "/") && parts[1] == "02";
        let day = day_of(2024) + 59;
        let date = good.then(|| Lit { v: V::Date(day as i32), null: false });
        reads_as(case, &format!("'{t}':date"), date.as_ref(), "not the form of a date", &reg);
        let ts = good.then(|| Lit { v: V::PTs(0, day * 86_400 + 3723), null: false });
        reads_as(case, &format!("'{t}T01:02:03':precisiontimestamp<0>"), ts.as_ref(), "not the form of a date", &reg);
    });
    ctx.space("time-patterns", (ns * ns) as u64 * 3 * 3 * 9 * 4, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&seps), *r.pick(&seps));
        let frac = ["", ".5", ",5"][r.take(3)];
        let lead = ["", "0", "T"][r.take(3)];
        let tail = ["", "Z", "z", " AM", "pm", "+00:00", "-0100", " UTC", "[UTC]"][r.take(9)];
        // (Nothing at all between day and time is accepted too; not claimed.)
        let mid = ["T", " ", "_", "-"][r.take(4)];
        let t = format!("{lead}01{a}02{b}03{frac}{tail}");
        let rest = a == ":" && b == ":" && frac != ",5" && tail.is_empty();
        let good = rest && lead.is_empty();
        let ms = 3_723_000 + if frac.is_empty() { 0 } else { 500 };
        if mid == "T" {
            let want = good.then(|| Lit { v: V::PTime(3, ms), null: false });
            reads_as(case, &format!("'{t}':precisiontime<3>"), want.as_ref(), "not the form of a time", &reg);
            let want = good.then(|| Lit { v: V::Time(ms * 1000), null: false });
            reads_as(case, &format!("'{t}':time"), want.as_ref(), "not the form of a time", &reg);
        }
        let good = rest && ["T", " "].contains(&format!("{mid}{lead}").as_str());
        let at = (day_of(2024) + 59) * 86_400_000 + ms;
        let want = good.then(|| Lit { v: V::PTsTz(3, at), null: false });
        reads_as(case, &format!("'2024-02-29{mid}{t}':precisiontimestamptz<3>"), want.as_ref(), "not the form of a timestamp", &reg);
        let want = good.then(|| Lit { v: V::Ts(at * 1000), null: false });
        reads_as(case, &format!("'2024-02-29{mid}{t}':timestamp"), want.as_ref(), "not the form of a timestamp", &reg);
    });
    // Malformed dates, times and timestamps.
    let bad = [
        ("date", "2024-01"), ("date", "2024"), ("date", ""), ("date", "2024-01-01T00:00:00"), ("date", "01-01-2024x"), ("date", "2024-01-01x"),
        ("date", "2024_01_01"), ("date", "2024-01-01-01"), ("date", "x2024-01-01"), ("date", "2024-001"), ("date", "2024-01/01"), ("date", "today"),
        ("date", "+999999-01-01"), ("date", "999999999999-01-01"),
        ("time", "01:02"), ("time", "01"), ("time", ""), ("time", "01:02:03:04"), ("time", "01:02:03.x"), ("time", "01:02:03x"), ("time", "-01:02:03"),
        ("time", "01-02-03"), ("time", "01:02:03Z"), ("time", "01:02:03+00:00"), ("time", "1d"), ("time", "24:00:00"), ("time", "23:59:60"),
        ("precisiontime<3>", "23:59:60"), ("precisiontime<12>", "01:02:03"), ("precisiontime<1>", "01:02:03"), ("precisiontime<7>", "01:02:03"),
        ("timestamp", "2024-01-01"), ("timestamp", "01:02:03"), ("timestamp", "2024-01-01T01:02"), ("timestamp", "2024-01-01T01:02:03Z"),
        ("timestamp", "2024-01-01T01:02:03+01:00"), ("timestamp", "2024-01-01x01:02:03"), ("timestamp", ""), ("timestamp", "2024-01-01T23:59:60"),
        ("timestamp", "2024-01-01T24:00:00"), ("timestamp", "+300000-01-01T00:00:00"), ("timestamp_tz", "2024-01-01T01:02:03"),
        ("precisiontimestamp<12>", "2024-01-01T01:02:03"), ("precisiontimestamp<1>", "2024-01-01T01:02:03"), ("precisiontimestamp<2>", "2024-01-01T01:02:03.12"),
        ("precisiontimestamp<9>", "2262-04-11T23:47:16.854775808"), ("precisiontimestamp<9>", "1677-09-21T00:12:43.145224191"),
        ("precisiontimestamptz<9>", "2300-01-01T00:00:00"), ("precisiontimestamptz<9>", "1600-01-01T00:00:00"), ("precisiontimestamptz<9>", "-0001-01-01T00:00:00"),
        ("precisiontimestamptz<12>", "2024-01-01T01:02:03"), ("precisiontimestamptz<0>", "2024-01-01T01:02:03Z"),
        ("interval_year", "1y"), ("uuid", "00000000-0000-0000-0000-000000000000"), ("binary", "abc"), ("i64", "1"), ("boolean", "true"), ("fp64", "1.0"),
        ("list<string>", "x"),
    ];
    ctx.space("malformed-temporal", bad.len() as u64 * 2, |i, case| {
        let (t, s) = bad[i as usize / 2];
        let t = if i % 2 == 1 {
            match t.split_once('<') {
                Some((a, b)) => format!("{a}?<{b}"),
                None => format!("{t}?"),
            }
        } else {
            t.to_string()
        };
        reads_as(case, &format!("'{s}':{t}"), None, "not a value of that type", &reg);
    });
    ctx.space("malformed-keyword-literals", 12, |i, case| {
        let t = ["null", "True", "FALSE", "true:i64", "true:string", "nul", "null:", "true:", "1:", "'x':", "true_", "nullx:i64?"][i as usize];
        reads_as(case, t, None, "not a literal", &reg);
    });
    // Every literal kind at every expression position, and under every option.
    let lits = few_lits();
    let p = POSITIONS.len();
    ctx.space("literal-positions", (lits.len() * p) as u64, |i, case| {
        let mut r = Radix(i);
        let pos = r.take(p);
        if let Some(d) = place(&Ex::Lit(lits[r.0 as usize].clone()), pos) {
            round_trip(case, &d, &reg);
        }
    });
    ctx.assume("dates and timestamps are claimed for years -262142..=262141; values outside that range are covered by C11");
    ctx.assume("chrono's lenient field widths ('2024-1-5', ' 2024-01-05') denote the same value and are not counted as a different literal");
}
