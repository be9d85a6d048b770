//! Calls into the implementation, and the oracles shared by the properties.

use prost::Message;
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{
    FormatError, OutputOptions, ParseError, Parser, Visibility, format_with_registry,
};

use crate::engine::{Case, guarded};
use crate::model::{Doc, Opts, Vis};

pub fn options(o: &Opts) -> OutputOptions {
    let vis = |v: Vis| match v {
        Vis::Never => Visibility::Never,
        Vis::Required => Visibility::Required,
        Vis::Always => Visibility::Always,
    };
    OutputOptions {
        show_simple_extension_anchors: vis(o.anchors),
        literal_types: vis(o.literal_types),
        show_emit: o.show_emit,
        indent: o.indent.clone(),
        virtual_table_multiline_threshold: o.threshold,
        ..OutputOptions::default()
    }
}

pub fn bytes(p: &Plan) -> Vec<u8> {
    p.encode_to_vec()
}

pub type Parsed = Result<Plan, ParseError>;

pub fn try_parse(text: &str, reg: &ExtensionRegistry) -> Result<Parsed, String> {
    guarded(|| Parser::new().with_extension_registry(reg.clone()).parse_plan(text))
}

pub fn try_format(
    plan: &Plan,
    o: &OutputOptions,
    reg: &ExtensionRegistry,
) -> Result<(String, Vec<FormatError>), String> {
    guarded(|| format_with_registry(plan, o, reg))
}

/// Parse; a panic is reported as a violation and gives `None`.
pub fn parse(case: &mut Case, text: &str, reg: &ExtensionRegistry) -> Option<Parsed> {
    case.step(1);
    match try_parse(text, reg) {
        Ok(r) => Some(r),
        Err(p) => {
            case.fail("panic", &format!("parsing: {p}"), text);
            None
        }
    }
}

pub fn format(
    case: &mut Case,
    plan: &Plan,
    o: &OutputOptions,
    reg: &ExtensionRegistry,
    input: &str,
) -> Option<(String, Vec<FormatError>)> {
    case.step(1);
    match try_format(plan, o, reg) {
        Ok(r) => Some(r),
        Err(p) => {
            case.fail("panic", &format!("formatting: {p}"), input);
            None
        }
    }
}

/// What another plan looks like, for a message.
pub fn show(plan: &Plan, reg: &ExtensionRegistry) -> String {
    match try_format(plan, &OutputOptions::default(), reg) {
        Ok((t, e)) => {
            let t = t.split("=== Plan\n").last().unwrap_or(&t);
            format!("{t} (errors: {e:?})")
        }
        Err(p) => p,
    }
}

/// Where two renderings start to differ.
pub fn diff(got: &str, want: &str) -> String {
    let (g, w): (Vec<char>, Vec<char>) = (got.chars().collect(), want.chars().collect());
    let at = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
    let cut = |v: &[char]| v[at.saturating_sub(80)..(at + 160).min(v.len())].iter().collect::<String>();
    format!("got …{}… instead of …{}…", cut(&g), cut(&w))
}

/// The text parses to exactly this plan.
pub fn parses_to(case: &mut Case, text: &str, plan: &Plan, reg: &ExtensionRegistry) -> bool {
    let Some(parsed) = parse(case, text, reg) else {
        return false;
    };
    case.trace();
    match parsed {
        Err(e) => {
            case.fail("rejected", &format!("valid text was rejected: {e}"), text);
            false
        }
        Ok(p) if bytes(&p) != bytes(plan) => {
            let what = format!(
                "parsed to a different plan: {}\nit formats as:\n{}",
                diff(&format!("{p:?}"), &format!("{plan:?}")),
                show(&p, reg)
            );
            case.fail("other-plan", &what, text);
            false
        }
        Ok(_) => true,
    }
}

/// The plan formats to exactly this text, without errors.
pub fn formats_to(
    case: &mut Case,
    plan: &Plan,
    text: &str,
    o: &Opts,
    reg: &ExtensionRegistry,
) -> bool {
    let Some((t, errs)) = format(case, plan, &options(o), reg, text) else {
        return false;
    };
    case.trace();
    if t != text {
        case.fail("other-text", &format!("formatted as:\n{t}\nerrors: {errs:?}"), text);
        return false;
    }
    if !errs.is_empty() {
        case.fail("errors", &format!("formatting reported errors: {errs:?}"), text);
        return false;
    }
    true
}

/// Text and message of a document denote each other, in both directions.
pub fn round_trip(case: &mut Case, doc: &Doc, reg: &ExtensionRegistry) -> bool {
    let o = Opts::default();
    let text = doc.text(&o);
    let plan = doc.proto();
    case.state(&text);
    let a = parses_to(case, &text, &plan, reg);
    let b = formats_to(case, &plan, &text, &o, reg);
    case.outcome(if a && b { "round trip" } else { "mismatch" });
    a && b
}

/// The text is rejected with an error.
pub fn rejected(case: &mut Case, text: &str, why: &str, reg: &ExtensionRegistry) -> bool {
    case.state(text);
    let Some(parsed) = parse(case, text, reg) else {
        return false;
    };
    case.trace();
    match parsed {
        Err(_) => {
            case.outcome("rejected");
            true
        }
        Ok(p) => {
            let what = format!("accepted, but {why}; formats as:\n{}", show(&p, reg));
            case.fail("accepted", &what, text);
            false
        }
    }
}
