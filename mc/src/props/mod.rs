//! One module per property.

use crate::engine::{Count, Ctx};

macro_rules! props {
    ($($m:ident $id:literal)*) => {
        $(mod $m;)*
        fn own(ctx: &Ctx, id: &str) -> bool {
            match id {
                $($id => $m::run(ctx),)*
                _ => return false,
            }
            true
        }
    };
}

/// The spaces of other properties that say something about this one, and what
/// counts in them: a name that changes is also a plan that does not round-trip.
const ALSO: &[(&str, Count, &[&str])] = &[
    ("C01", Count::Agree, &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C16", "C18"]),
    ("C02", Count::Agree, &["C03", "C04", "C05", "C06"]),
    ("C04", Count::Agree, &["C06"]),
    ("C06", Count::Agree, &["C02", "C18"]),
    ("C07", Count::Agree, &["C01"]),
    ("C08", Count::Agree, &["C01", "C16"]),
    ("C09", Count::Agree, &["C18"]),
    ("C10", Count::Parse, &["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C14", "C16", "C18"]),
    ("C11", Count::Format, &["C01", "C02", "C03", "C04", "C12", "C14", "C16", "C18"]),
    ("C12", Count::Agree, &["C13"]),
    ("C13", Count::Agree, &["C02"]),
    ("C14", Count::Agree, &["C16"]),
    ("C16", Count::Agree, &["C14"]),
    ("C18", Count::Agree, &["C06"]),
];

pub fn run(ctx: &Ctx) -> bool {
    let known = own(ctx, &ctx.prop);
    for (_, count, ids) in ALSO.iter().filter(|a| a.0 == ctx.prop) {
        for id in *ids {
            ctx.include(id, *count, |ctx| {
                own(ctx, id);
            });
        }
    }
    known
}

props!(
    c01 "C01" c02 "C02" c03 "C03" c04 "C04" c05 "C05" c06 "C06" c07 "C07" c08 "C08" c09 "C09" c10 "C10" c11 "C11" c12 "C12" c13 "C13" c14 "C14" c15 "C15" c16 "C16" c17 "C17" c18 "C18" c19 "C19" c20 "C20"
);

/// Helper processes of a check.
pub fn probe(what: &str, args: &[String]) -> i32 {
    match (what, args) {
        ("C10", [name]) => c10::probe(name),
        ("C19", [i]) => c19::probe(i),
        _ => 2,
    }
}
