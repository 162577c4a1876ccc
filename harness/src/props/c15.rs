//! C15: dates pack and unpack without loss at two-second granularity.

use crate::engine::*;
use crate::model::{date_pattern, dos_date};
use async_zip::{ZipDateTime, ZipDateTimeBuilder};
use chrono::{DateTime, Datelike, LocalResult, Timelike, Utc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn property() -> Property {
    Property {
        id: "C15",
        level: "exploration",
        rule: "each case of dates/times enumerates all 47,616 dates (or all 86,400 times of day) against one random time (date) and one random order of the setters; patterns enumerates all 65,536 date (time) words against random other words and compares the chrono conversion with an independent civil calendar; setters runs random setter sequences from any stored date against a six-component model; instants converts random chrono instants; non-trivial = every enumeration, every sequence that sets some component twice or starts from a non-zero date, every instant not on an even whole second",
        assumptions: &["setter arguments within the ranges the components can take (1980-2107, month 0-15, day 0-31, hour 0-31, minute 0-63, second 0-63)"],
        parts: || {
            vec![
                part("dates", 1_500, 6_000, (time(), order()), check_dates),
                part("times", 1_000, 4_000, (date(), order()), check_times),
                part("date-words", 1_000, 4_000, any::<u16>(), check_date_words),
                part("time-words", 1_000, 4_000, prop_oneof![1 => valid_date_word(), 1 => any::<u16>()], check_time_words),
                part("setters", 2_000_000, 6_000_000, (proptest::option::of(any::<(u16, u16)>()), proptest::collection::vec(set(), 0..16)), check_setters),
                part("instants", 2_000_000, 6_000_000, instant(), check_instant),
            ]
        },
    }
}

type Comp = [u32; 6];

fn date() -> impl Strategy<Value = (u32, u32, u32)> {
    (0u32..128, 1u32..13, 1u32..32)
}
fn time() -> impl Strategy<Value = (u32, u32, u32)> {
    (0u32..24, 0u32..60, 0u32..60)
}
fn order() -> impl Strategy<Value = Vec<u8>> {
    Just(vec![0u8, 1, 2, 3, 4, 5]).prop_shuffle()
}
fn valid_date_word() -> impl Strategy<Value = u16> {
    (0u16..128, 1u16..13, 1u16..29).prop_map(|(y, m, d)| y << 9 | m << 5 | d)
}

fn apply(b: ZipDateTimeBuilder, which: u8, v: u32) -> ZipDateTimeBuilder {
    match which {
        0 => b.year(1980 + v as i32),
        1 => b.month(v),
        2 => b.day(v),
        3 => b.hour(v),
        4 => b.minute(v),
        _ => b.second(v),
    }
}

/// What the accessors report, years relative to 1980.
fn comps(d: &ZipDateTime) -> Comp {
    [(d.year() - 1980) as u32, d.month(), d.day(), d.hour(), d.minute(), d.second()]
}

fn verify(want: &Comp, d: &ZipDateTime, what: &str) -> Check {
    let mut w = *want;
    w[5] &= !1;
    let g = comps(d);
    if g != w {
        return Err(format!("{what}: set {want:?}, reported {g:?} (year-1980, month, day, hour, minute, second)"));
    }
    Ok(())
}

fn built(c: &Comp, order: &[u8]) -> ZipDateTime {
    let mut b = ZipDateTimeBuilder::new();
    for o in order {
        b = apply(b, *o, c[*o as usize]);
    }
    b.build()
}

fn days_in(y: u32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

/// Seconds since 1970 by plain counting of days.
fn timestamp(c: &Comp) -> i64 {
    let y = 1980 + c[0];
    let mut days = 3652i64; // 1970-01-01 to 1980-01-01
    for k in 1980..y {
        days += if days_in(k, 2) == 29 { 366 } else { 365 };
    }
    for k in 1..c[1] {
        days += days_in(y, k) as i64;
    }
    days += c[2] as i64 - 1;
    days * 86_400 + c[3] as i64 * 3600 + c[4] as i64 * 60 + c[5] as i64
}

fn real(c: &Comp) -> bool {
    c[2] >= 1 && c[2] <= days_in(1980 + c[0], c[1]) && c[3] < 24 && c[4] < 60 && c[5] < 60
}

/// Conversion to chrono (all forms) against the calendar.
fn verify_chrono(d: &ZipDateTime, stamp: Option<i64>) -> Check {
    let c = comps(d);
    let r = d.as_chrono();
    if r != LocalResult::<DateTime<Utc>>::from(*d) || r != LocalResult::<DateTime<Utc>>::from(d) {
        return Err(format!("conversions of {c:?} to chrono differ"));
    }
    match (r, real(&c)) {
        (LocalResult::Single(t), true) => {
            let want = stamp.unwrap_or_else(|| timestamp(&c));
            if t.timestamp() != want || t.timestamp_subsec_nanos() != 0 {
                return Err(format!("{c:?} became {t}, expected timestamp {want}"));
            }
            let back = ZipDateTime::from_chrono(&t);
            if back != *d || ZipDateTime::from(t) != *d || ZipDateTime::from(&t) != *d {
                return Err(format!("{c:?} -> {t} -> {:?}", comps(&back)));
            }
            Ok(())
        }
        (LocalResult::None, false) => Ok(()),
        (r, real) => Err(format!("{c:?} is {}a real date but became {r:?}", if real { "" } else { "not " })),
    }
}

fn check_dates((t, order): &((u32, u32, u32), Vec<u8>), ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    for y in 0..128 {
        for m in 1..13 {
            for d in 1..32 {
                let c = [y, m, d, t.0, t.1, t.2];
                let b = built(&c, order);
                verify(&c, &b, "fresh builder")?;
                if d == 1 || d >= 28 {
                    verify_chrono(&b, None)?;
                }
            }
        }
    }
    ctx.sub(128 * 12 * 31);
    Ok(())
}

fn check_times((d, order): &((u32, u32, u32), Vec<u8>), ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    for h in 0..24 {
        for m in 0..60 {
            for s in 0..60 {
                let c = [d.0, d.1, d.2, h, m, s];
                verify(&c, &built(&c, order), "fresh builder")?;
            }
        }
    }
    ctx.sub(86_400);
    Ok(())
}

fn check_date_words(time: &u16, ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    // One of the two times is certainly a real one.
    for t in [*time, (time % 24) << 11 | (time % 60) << 5 | time % 30] {
        let secs = (t >> 11) as i64 * 3600 + (t >> 5 & 63) as i64 * 60 + (t & 31) as i64 * 2;
        let mut day = None;
        for w in 0..=u16::MAX {
            let d = dos_date((w, t));
            if date_pattern(&d) != (w, t) {
                return Err(format!("stored pattern {w:04x} {t:04x} reported as {:04x?}", date_pattern(&d)));
            }
            let c = comps(&d);
            // Count the days while going through the calendar in order.
            if c[1] >= 1 && c[1] <= 12 && c[2] >= 1 && c[2] <= days_in(1980 + c[0], c[1]) {
                day = Some(day.map_or(3652i64, |x: i64| x + 1));
            }
            verify_chrono(&d, day.map(|x| x * 86_400 + secs))?;
        }
    }
    ctx.sub(1 << 17);
    Ok(())
}

fn check_time_words(date: &u16, ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    for w in 0..=u16::MAX {
        let d = dos_date((*date, w));
        if date_pattern(&d) != (*date, w) {
            return Err(format!("stored pattern {date:04x} {w:04x} reported as {:04x?}", date_pattern(&d)));
        }
        if w % 7 == 0 {
            verify_chrono(&d, None)?;
        }
    }
    ctx.sub(1 << 16);
    Ok(())
}

fn set() -> BoxedStrategy<(u8, u32)> {
    let lim = [128u32, 16, 32, 32, 64, 64];
    (0u8..6, any::<u32>(), any::<bool>()).prop_map(move |(w, v, edge)| (w, if edge { [0, lim[w as usize] - 1][v as usize & 1] } else { v % lim[w as usize] })).boxed()
}

fn check_setters((start, sets): &(Option<(u16, u16)>, Vec<(u8, u32)>), ctx: &mut Ctx) -> Check {
    let (mut b, mut model) = match start {
        Some(p) => {
            let d = dos_date(*p);
            (ZipDateTimeBuilder::from(d), [(p.0 >> 9) as u32, (p.0 >> 5 & 15) as u32, (p.0 & 31) as u32, (p.1 >> 11) as u32, (p.1 >> 5 & 63) as u32, (p.1 & 31) as u32 * 2])
        }
        None => (ZipDateTimeBuilder::default(), [0; 6]),
    };
    let mut seen = [false; 6];
    for (w, v) in sets {
        ctx.nontrivial_if(seen[*w as usize] || start.is_some());
        ctx.label_if(seen[*w as usize], "set-again");
        seen[*w as usize] = true;
        b = apply(b, *w, *v);
        model[*w as usize] = *v;
    }
    let d: ZipDateTime = b.into();
    verify(&model, &d, &format!("builder from {start:?} after {sets:?}"))?;
    verify_chrono(&d, None)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Instant {
    /// Seconds since 1980-01-01.
    secs: u32,
    nanos: u32,
}

fn instant() -> BoxedStrategy<Instant> {
    // The last second of 2107.
    const END: u32 = 4_039_286_399;
    (
        prop_oneof![6 => 0u32..=END, 1 => 0u32..5, 1 => (0u32..5).prop_map(|d| END - d), 2 => (0u32..(END / 86400), 0u32..3).prop_map(|(d, s)| (d * 86400 + 86399).saturating_add(s).min(END))],
        prop_oneof![2 => Just(0u32), 3 => 0u32..1_000_000_000, 1 => Just(999_999_999u32), 1 => 1_000_000_000u32..2_000_000_000],
    )
        .prop_map(|(secs, nanos)| Instant { secs, nanos })
        .boxed()
}

fn check_instant(i: &Instant, ctx: &mut Ctx) -> Check {
    let unix = i.secs as i64 + 315_532_800;
    // Leap seconds (a nanosecond part of a second or more) exist only at :59.
    let nanos = if i.nanos >= 1_000_000_000 && unix % 60 != 59 { i.nanos - 1_000_000_000 } else { i.nanos };
    let Some(t) = DateTime::<Utc>::from_timestamp(unix, nanos) else { return Err(format!("harness: no instant {unix} {nanos}")) };
    ctx.nontrivial_if(nanos != 0 || unix % 2 != 0);
    ctx.label_if(nanos >= 1_000_000_000, "leap-second");
    let z = ZipDateTime::from_chrono(&t);
    let want = [(t.year() - 1980) as u32, t.month(), t.day(), t.hour(), t.minute(), t.second()];
    verify(&want, &z, &format!("from_chrono({t})"))?;
    if ZipDateTime::from(t) != z || ZipDateTime::from(&t) != z {
        return Err(format!("conversions from {t} differ"));
    }
    match z.as_chrono() {
        LocalResult::Single(b) if b.timestamp() == unix & !1 && b.timestamp_subsec_nanos() == 0 => Ok(()),
        r => Err(format!("{t} became {z:?} and then {r:?}")),
    }
}
