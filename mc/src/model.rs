//! The reference model: an abstract plan syntax with two independent
//! renderings, the protobuf message it denotes and the text it is documented to
//! be written as. Nothing here calls into substrait-explain.

use std::fmt::Write as _;

use substrait::proto;
use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{
    IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp,
};
use substrait::proto::expression::{
    Cast, FieldReference, IfThen, Literal, ReferenceSegment, RexType, ScalarFunction, if_then,
    reference_segment,
};
use substrait::proto::extensions as pext;
use substrait::proto::extensions::simple_extension_declaration as decl;
use substrait::proto::function_argument::ArgType;
use substrait::proto::r#type as pt;
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::{Direct, Emit, EmitKind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vis {
    Never,
    Required,
    Always,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub anchors: Vis,
    pub literal_types: Vis,
    pub show_emit: bool,
    pub indent: String,
    pub threshold: usize,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            anchors: Vis::Required,
            literal_types: Vis::Required,
            show_emit: false,
            indent: "  ".into(),
            threshold: 3,
        }
    }
}

/// Declarations: (anchor, urn anchor, name).
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub urns: Vec<(u32, String)>,
    pub fns: Vec<(u32, u32, String)>,
    pub types: Vec<(u32, u32, String)>,
    pub vars: Vec<(u32, u32, String)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ty {
    pub k: K,
    pub null: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Simple(usize),
    List(Box<Ty>),
    Pts(i32),
    PtsTz(i32),
    Ptime(i32),
    IDay(i32),
    Udt(u32, Vec<Ty>),
}

pub const SIMPLE: [&str; 15] = [
    "boolean",
    "i8",
    "i16",
    "i32",
    "i64",
    "fp32",
    "fp64",
    "string",
    "binary",
    "timestamp_tz",
    "timestamp",
    "date",
    "time",
    "interval_year",
    "uuid",
];

pub fn simple(name: &str) -> Ty {
    Ty {
        k: K::Simple(SIMPLE.iter().position(|s| *s == name).unwrap()),
        null: false,
    }
}

impl Ty {
    pub fn nullable(mut self) -> Ty {
        self.null = true;
        self
    }
    pub fn with_null(mut self, null: bool) -> Ty {
        self.null = null;
        self
    }
}

pub fn list(t: Ty) -> Ty {
    Ty {
        k: K::List(Box::new(t)),
        null: false,
    }
}

pub fn udt(anchor: u32, params: Vec<Ty>) -> Ty {
    Ty {
        k: K::Udt(anchor, params),
        null: false,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Bool(bool),
    I8(i32),
    I16(i32),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Date(i32),
    Time(i64),
    Ts(i64),
    PTime(i32, i64),
    PTs(i32, i64),
    PTsTz(i32, i64),
    /// days, seconds, subseconds, precision
    IDay(i32, i32, i64, i32),
    Null(Ty),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Lit {
    pub v: V,
    pub null: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ex {
    Ref(i32),
    Lit(Lit),
    Call(u32, Vec<Ex>, Ty),
    /// 0 unspecified, 1 return null, 2 throw
    Cast(Box<Ex>, i32, Ty),
    If(Vec<(Ex, Ex)>, Box<Ex>),
}

pub fn lit(v: V) -> Ex {
    Ex::Lit(Lit { v, null: false })
}

pub fn int(i: i64) -> Ex {
    lit(V::I64(i))
}

/// An extension argument value.
#[derive(Clone, PartialEq, Debug)]
pub enum Arg {
    Str(String),
    Int(i64),
    Float(f64),
    Bool(bool),
    Null,
    Enum(String),
    Tuple(Vec<Arg>),
    Ex(Ex),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Col {
    Named(String, Ty),
    Ex(Ex),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Args {
    pub pos: Vec<Arg>,
    pub named: Vec<(String, Arg)>,
    pub cols: Vec<Col>,
}

/// A payload handled by recording extension number `id` (see ext.rs).
#[derive(Clone, PartialEq, Debug)]
pub struct Pay {
    pub id: usize,
    pub args: Args,
}

pub const JOINS: [(&str, i32); 12] = [
    ("Inner", 1),
    ("Outer", 2),
    ("Left", 3),
    ("Right", 4),
    ("LeftSemi", 5),
    ("LeftAnti", 6),
    ("LeftSingle", 7),
    ("RightSemi", 8),
    ("RightAnti", 9),
    ("RightSingle", 10),
    ("LeftMark", 11),
    ("RightMark", 12),
];

pub const SETS: [(&str, i32); 8] = [
    ("MinusPrimary", 1),
    ("MinusPrimaryAll", 7),
    ("MinusMultiset", 2),
    ("IntersectionPrimary", 3),
    ("IntersectionMultiset", 4),
    ("IntersectionMultisetAll", 8),
    ("UnionDistinct", 5),
    ("UnionAll", 6),
];

pub const DIRS: [(&str, i32); 5] = [
    ("AscNullsFirst", 1),
    ("AscNullsLast", 2),
    ("DescNullsFirst", 3),
    ("DescNullsLast", 4),
    ("Clustered", 5),
];

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Read(Vec<String>, Vec<(String, Ty)>),
    Virtual {
        rows: Vec<Vec<Ex>>,
        filter: Option<Ex>,
        cols: Vec<(String, Ty)>,
    },
    ReadExt(Vec<(String, Ty)>, Pay),
    Filter(Ex),
    Project(Vec<Ex>),
    Sort(Vec<(Ex, usize)>),
    Fetch(Option<Ex>, Option<Ex>),
    /// grouping expressions, sets of indices, measures (function, args, type)
    Agg(Vec<Ex>, Vec<Vec<usize>>, Vec<(u32, Vec<Ex>, Ty)>),
    Join(usize, Ex, Option<Ex>),
    Set(usize),
    Cross,
    ExtLeaf(Pay),
    ExtSingle(Pay),
    ExtMulti(Pay),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Rel {
    pub op: Op,
    pub emit: Option<Vec<i32>>,
    pub enh: Option<Pay>,
    pub opts: Vec<Pay>,
    pub kids: Vec<Rel>,
}

pub fn rel(op: Op, kids: Vec<Rel>) -> Rel {
    Rel {
        op,
        emit: None,
        enh: None,
        opts: vec![],
        kids,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Top {
    Rel(Rel),
    Root(Vec<String>, Rel),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Ver {
    pub num: (u32, u32, u32),
    pub producer: String,
    pub git_hash: String,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub version: Option<Ver>,
    pub env: Env,
    pub tops: Vec<Top>,
}

// ---------------------------------------------------------------- text

pub fn is_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

pub fn name_text(s: &str) -> String {
    if is_ident(s) {
        s.to_string()
    } else {
        format!("\"{}\"", s.escape_debug())
    }
}

pub fn str_text(s: &str) -> String {
    format!("'{}'", s.escape_debug())
}

fn base(name: &str) -> &str {
    name.split(':').next().unwrap()
}

impl Env {
    /// How a reference to the function with this anchor is written.
    pub fn fn_text(&self, anchor: u32, vis: Vis) -> String {
        let Some((_, _, name)) = self.fns.iter().find(|f| f.0 == anchor) else {
            return format!(
                "!{{function}}{}",
                if vis == Vis::Never { String::new() } else { format!("#{anchor}") }
            );
        };
        let same_base = self.fns.iter().filter(|f| base(&f.2) == base(name)).count();
        let same_name = self.fns.iter().filter(|f| f.2 == *name).count();
        match vis {
            Vis::Never => base(name).to_string(),
            Vis::Always => format!("{name}#{anchor}"),
            Vis::Required if same_base == 1 => base(name).to_string(),
            Vis::Required if same_name > 1 || !name.contains(':') => format!("{name}#{anchor}"),
            Vis::Required => name.clone(),
        }
    }

    pub fn type_text(&self, anchor: u32, vis: Vis) -> String {
        let Some((_, _, name)) = self.types.iter().find(|f| f.0 == anchor) else {
            return format!(
                "!{{type}}{}",
                if vis == Vis::Never { String::new() } else { format!("#{anchor}") }
            );
        };
        let same = self.types.iter().filter(|f| f.2 == *name).count();
        match vis {
            Vis::Never => name.clone(),
            Vis::Always => format!("{name}#{anchor}"),
            Vis::Required if same > 1 => format!("{name}#{anchor}"),
            Vis::Required => name.clone(),
        }
    }

    pub fn is_empty(&self) -> bool {
        self.urns.is_empty() && self.fns.is_empty() && self.types.is_empty() && self.vars.is_empty()
    }

    pub fn text(&self, indent: &str) -> String {
        let mut s = String::new();
        if self.is_empty() {
            return s;
        }
        s.push_str("=== Extensions\n");
        let mut urns = self.urns.clone();
        urns.sort();
        if !urns.is_empty() {
            s.push_str("URNs:\n");
            for (a, u) in urns {
                let _ = writeln!(s, "{indent}@{a:>3}: {u}");
            }
        }
        for (head, list) in [
            ("Functions:", &self.fns),
            ("Types:", &self.types),
            ("Type Variations:", &self.vars),
        ] {
            let mut list = list.clone();
            list.sort();
            if !list.is_empty() {
                let _ = writeln!(s, "{head}");
                for (a, u, n) in list {
                    let _ = writeln!(s, "{indent}#{a:>3} @{u:>3}: {n}");
                }
            }
        }
        s.push('\n');
        s
    }

    pub fn proto(&self) -> (Vec<pext::SimpleExtensionUrn>, Vec<pext::SimpleExtensionDeclaration>) {
        let mut urns: Vec<_> = self.urns.clone();
        urns.sort();
        let mut all: Vec<(u32, u8, u32, String)> = vec![];
        for (k, list) in [(0u8, &self.fns), (1, &self.types), (2, &self.vars)] {
            for (a, u, n) in list {
                all.push((*a, k, *u, n.clone()));
            }
        }
        all.sort();
        let urns = urns
            .into_iter()
            .map(|(a, urn)| pext::SimpleExtensionUrn {
                extension_urn_anchor: a,
                urn,
            })
            .collect();
        let decls = all.into_iter().map(|(a, k, u, n)| declaration(k, a, u, &n)).collect();
        (urns, decls)
    }
}

pub fn declaration(kind: u8, anchor: u32, urn: u32, name: &str) -> pext::SimpleExtensionDeclaration {
    let name = name.to_string();
    let m = match kind {
        0 => decl::MappingType::ExtensionFunction(decl::ExtensionFunction {
            extension_urn_reference: urn,
            function_anchor: anchor,
            name,
        }),
        1 => decl::MappingType::ExtensionType(decl::ExtensionType {
            extension_urn_reference: urn,
            type_anchor: anchor,
            name,
        }),
        _ => decl::MappingType::ExtensionTypeVariation(decl::ExtensionTypeVariation {
            extension_urn_reference: urn,
            type_variation_anchor: anchor,
            name,
        }),
    };
    pext::SimpleExtensionDeclaration {
        mapping_type: Some(m),
    }
}

/// The text writer of the model.
pub struct W<'a> {
    pub env: &'a Env,
    pub o: &'a Opts,
}

fn join_all(items: impl IntoIterator<Item = String>) -> String {
    items.into_iter().collect::<Vec<_>>().join(", ")
}

/// Days since 1970-01-01 to a proleptic Gregorian date (Hinnant's algorithm).
pub fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + i64::from(m <= 2);
    (y, m, d)
}

pub fn date_text(days: i64) -> String {
    let (y, m, d) = civil(days);
    if (0..=9999).contains(&y) {
        format!("{y:04}-{m:02}-{d:02}")
    } else {
        format!("{y:+05}-{m:02}-{d:02}")
    }
}

fn frac_text(units: i64, p: i32) -> String {
    match p {
        0 => String::new(),
        12 => format!(".{:09}", units / 1000),
        _ => format!(".{:0w$}", units, w = p as usize),
    }
}

pub fn time_text(value: i64, p: i32) -> String {
    let per = 10i64.pow(p as u32);
    let (s, f) = (value.div_euclid(per), value.rem_euclid(per));
    format!("{:02}:{:02}:{:02}{}", s / 3600, s / 60 % 60, s % 60, frac_text(f, p))
}

pub fn ts_text(value: i64, p: i32) -> String {
    let per = 10i64.pow(p as u32);
    let (s, f) = (value.div_euclid(per), value.rem_euclid(per));
    let (day, sec) = (s.div_euclid(86_400), s.rem_euclid(86_400));
    format!(
        "{}T{:02}:{:02}:{:02}{}",
        date_text(day),
        sec / 3600,
        sec / 60 % 60,
        sec % 60,
        frac_text(f, p)
    )
}

pub fn iday_text(days: i32, secs: i32, sub: i64, p: i32) -> String {
    let mut parts = vec![];
    if days != 0 {
        parts.push(format!("{days}d"));
    }
    if secs != 0 {
        parts.push(format!("{secs}s"));
    }
    if sub != 0 {
        let unit = match p {
            3 => "ms",
            6 => "us",
            9 => "ns",
            _ => "ps",
        };
        parts.push(format!("{sub}{unit}"));
    }
    if parts.is_empty() {
        "0s".into()
    } else {
        parts.join(" ")
    }
}

fn float_text(s: String) -> String {
    if s.contains('.') { s } else { format!("{s}.0") }
}

impl W<'_> {
    pub fn ty(&self, t: &Ty) -> String {
        let q = if t.null { "?" } else { "" };
        match &t.k {
            K::Simple(i) => format!("{}{q}", SIMPLE[*i]),
            K::List(e) => format!("list{q}<{}>", self.ty(e)),
            K::Pts(p) => format!("precisiontimestamp{q}<{p}>"),
            K::PtsTz(p) => format!("precisiontimestamptz{q}<{p}>"),
            K::Ptime(p) => format!("precisiontime{q}<{p}>"),
            K::IDay(p) => format!("interval_day{q}<{p}>"),
            K::Udt(a, ps) => {
                let n = self.env.type_text(*a, self.o.anchors);
                if ps.is_empty() {
                    format!("{n}{q}")
                } else {
                    format!("{n}{q}<{}>", join_all(ps.iter().map(|p| self.ty(p))))
                }
            }
        }
    }

    pub fn lit(&self, l: &Lit) -> String {
        let q = if l.null { "?" } else { "" };
        // (value, type name, precision suffix, default for its syntax)
        let (v, ty, p, default): (String, &str, Option<i32>, bool) = match &l.v {
            V::Bool(b) => (b.to_string(), "boolean", None, true),
            V::I8(i) => (i.to_string(), "i8", None, false),
            V::I16(i) => (i.to_string(), "i16", None, false),
            V::I32(i) => (i.to_string(), "i32", None, false),
            V::I64(i) => (i.to_string(), "i64", None, true),
            V::F32(f) => (float_text(f.to_string()), "fp32", None, false),
            V::F64(f) => (float_text(f.to_string()), "fp64", None, true),
            V::Str(s) => (str_text(s), "string", None, true),
            V::Date(d) => (format!("'{}'", date_text(*d as i64)), "date", None, false),
            V::Time(t) => (format!("'{}'", time_text(*t, 6)), "time", None, false),
            V::Ts(t) => (format!("'{}'", ts_text(*t, 6)), "timestamp", None, false),
            V::PTime(p, t) => (format!("'{}'", time_text(*t, *p)), "precisiontime", Some(*p), false),
            V::PTs(p, t) => (format!("'{}'", ts_text(*t, *p)), "precisiontimestamp", Some(*p), false),
            V::PTsTz(p, t) => (format!("'{}'", ts_text(*t, *p)), "precisiontimestamptz", Some(*p), false),
            V::IDay(d, s, u, p) => (
                format!("'{}'", iday_text(*d, *s, *u, *p)),
                "interval_day",
                Some(*p),
                false,
            ),
            V::Null(t) => return format!("null:{}", self.ty(t)),
        };
        let show = match self.o.literal_types {
            Vis::Never => false,
            Vis::Always => true,
            Vis::Required => l.null || !default,
        };
        if !show {
            return v;
        }
        let p = p.map(|p| format!("<{p}>")).unwrap_or_default();
        format!("{v}:{ty}{q}{p}")
    }

    pub fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::Ref(i) => format!("${i}"),
            Ex::Lit(l) => self.lit(l),
            Ex::Call(f, args, t) => self.call(*f, args, t),
            Ex::Cast(e, fb, t) => format!(
                "({})::{}{}",
                self.ex(e),
                ["", "?", "!"][*fb as usize],
                self.ty(t)
            ),
            Ex::If(cl, e) => {
                let mut s = String::from("if_then(");
                for (c, v) in cl {
                    let _ = write!(s, "{} -> {}, ", self.ex(c), self.ex(v));
                }
                let _ = write!(s, "_ -> {})", self.ex(e));
                s
            }
        }
    }

    fn call(&self, f: u32, args: &[Ex], t: &Ty) -> String {
        format!(
            "{}({}):{}",
            self.env.fn_text(f, self.o.anchors),
            self.exs(args),
            self.ty(t)
        )
    }

    pub fn exs(&self, es: &[Ex]) -> String {
        join_all(es.iter().map(|e| self.ex(e)))
    }

    pub fn arg(&self, a: &Arg) -> String {
        match a {
            Arg::Str(s) => str_text(s),
            Arg::Int(i) => i.to_string(),
            Arg::Float(f) => float_text(f.to_string()),
            Arg::Bool(b) => b.to_string(),
            Arg::Null => "null".into(),
            Arg::Enum(e) => format!("&{e}"),
            Arg::Tuple(v) if v.len() == 1 => format!("({},)", self.arg(&v[0])),
            Arg::Tuple(v) => format!("({})", join_all(v.iter().map(|a| self.arg(a)))),
            Arg::Ex(e) => self.ex(e),
        }
    }

    /// `_` when there are no arguments at all.
    pub fn args(&self, a: &Args) -> String {
        if a.pos.is_empty() && a.named.is_empty() {
            return "_".into();
        }
        join_all(
            a.pos
                .iter()
                .map(|p| self.arg(p))
                .chain(a.named.iter().map(|(n, v)| format!("{}={}", name_text(n), self.arg(v)))),
        )
    }

    fn cols(&self, cols: &[(String, Ty)]) -> Vec<String> {
        cols.iter().map(|(n, t)| format!("{}:{}", name_text(n), self.ty(t))).collect()
    }

    fn refs(&self, n: usize) -> Vec<String> {
        (0..n).map(|i| format!("${i}")).collect()
    }

    fn out(&self, r: &Rel, direct: Vec<String>) -> String {
        match &r.emit {
            Some(m) if !self.o.show_emit => join_all(m.iter().map(|i| {
                direct.get(*i as usize).cloned().unwrap_or_else(|| "!{Emitted}".into())
            })),
            _ => join_all(direct),
        }
    }

    fn addendum(&self, kind: &str, p: &Pay) -> String {
        let a = if p.args.pos.is_empty() && p.args.named.is_empty() {
            "_".to_string()
        } else {
            self.args(&p.args)
        };
        format!("+ {kind}:{}[{a}]", name_text(crate::ext::NAMES[p.id]))
    }

    /// The lines of a relation tree, each with its depth.
    pub fn rel(&self, r: &Rel, depth: usize, out: &mut Vec<(usize, String)>) {
        let one = |k: usize| r.kids.get(k).map(width).unwrap_or(0);
        let mut ext_line = None;
        match &r.op {
            Op::Read(t, cols) => {
                let t = t.iter().map(|n| name_text(n)).collect::<Vec<_>>().join(".");
                let c = join_all(self.cols(cols));
                match &r.emit {
                    Some(m) => out.push((
                        depth,
                        format!("Read[{t} +> {c} |> {}]", join_all(m.iter().map(|i| format!("${i}")))),
                    )),
                    None => out.push((depth, format!("Read[{t} => {c}]"))),
                }
            }
            Op::Virtual { rows, filter, cols } => {
                let mut items: Vec<String> = rows.iter().map(|r| format!("({})", self.exs(r))).collect();
                let c = self.out(r, self.cols(cols));
                let multi = !rows.is_empty() && rows.len() >= self.o.threshold;
                if items.is_empty() {
                    items.push("_".into());
                }
                if let Some(f) = filter {
                    items.push(format!("filter={}", self.ex(f)));
                }
                if multi {
                    out.push((depth, "Read:Virtual[".into()));
                    let n = items.len();
                    for (i, it) in items.iter().enumerate() {
                        let comma = if i + 1 < n { "," } else { "" };
                        out.push((depth + 1, format!("- {it}{comma}")));
                    }
                    out.push((depth + 1, format!("- => {c}]")));
                } else {
                    out.push((depth, format!("Read:Virtual[{} => {c}]", items.join(", "))));
                }
            }
            Op::ReadExt(cols, p) => {
                out.push((depth, format!("Read:Extension[{}]", self.out(r, self.cols(cols)))));
                ext_line = Some(self.addendum("Ext", p));
            }
            Op::Filter(e) => out.push((
                depth,
                format!("Filter[{} => {}]", self.ex(e), self.out(r, self.refs(one(0)))),
            )),
            Op::Project(es) => {
                let mut d = self.refs(one(0));
                d.extend(es.iter().map(|e| self.ex(e)));
                out.push((depth, format!("Project[{}]", self.out(r, d))));
            }
            Op::Sort(keys) => {
                let k = if keys.is_empty() {
                    "_".into()
                } else {
                    join_all(keys.iter().map(|(e, d)| format!("({}, &{})", self.ex(e), DIRS[*d].0)))
                };
                out.push((depth, format!("Sort[{k} => {}]", self.out(r, self.refs(one(0))))));
            }
            Op::Fetch(l, o) => {
                let mut a = vec![];
                if let Some(l) = l {
                    a.push(format!("limit={}", self.ex(l)));
                }
                if let Some(o) = o {
                    a.push(format!("offset={}", self.ex(o)));
                }
                if a.is_empty() {
                    a.push("_".into());
                }
                out.push((
                    depth,
                    format!("Fetch[{} => {}]", a.join(", "), self.out(r, self.refs(one(0)))),
                ));
            }
            Op::Agg(g, sets, ms) => {
                let set = |s: &Vec<usize>| join_all(s.iter().map(|i| self.ex(&g[*i])));
                let a = match sets.as_slice() {
                    [] => "_".to_string(),
                    [s] if !s.is_empty() => set(s),
                    many => join_all(many.iter().map(|s| {
                        if s.is_empty() { "_".into() } else { format!("({})", set(s)) }
                    })),
                };
                let mut d: Vec<String> = g.iter().map(|e| self.ex(e)).collect();
                d.extend(ms.iter().map(|(f, x, t)| self.call(*f, x, t)));
                out.push((depth, format!("Aggregate[{a} => {}]", self.out(r, d))));
            }
            Op::Join(k, c, pf) => {
                let pf = pf
                    .as_ref()
                    .map(|e| format!(", post_filter={}", self.ex(e)))
                    .unwrap_or_default();
                out.push((
                    depth,
                    format!(
                        "Join[&{}, {}{pf} => {}]",
                        JOINS[*k].0,
                        self.ex(c),
                        self.out(r, self.refs(direct_width(r)))
                    ),
                ));
            }
            Op::Set(k) => out.push((
                depth,
                format!("Set[&{} => {}]", SETS[*k].0, self.out(r, self.refs(direct_width(r)))),
            )),
            Op::Cross => out.push((
                depth,
                format!("Cross[{}]", self.out(r, self.refs(direct_width(r)))),
            )),
            Op::ExtLeaf(p) | Op::ExtSingle(p) | Op::ExtMulti(p) => {
                let kind = match &r.op {
                    Op::ExtLeaf(_) => "ExtensionLeaf",
                    Op::ExtSingle(_) => "ExtensionSingle",
                    _ => "ExtensionMulti",
                };
                let cols = join_all(p.args.cols.iter().map(|c| match c {
                    // Unquoted, these would be typed literals.
                    Col::Named(n, t) if matches!(n.as_str(), "true" | "false" | "null") => format!("\"{n}\":{}", self.ty(t)),
                    Col::Named(n, t) => format!("{}:{}", name_text(n), self.ty(t)),
                    Col::Ex(e) => self.ex(e),
                }));
                out.push((
                    depth,
                    format!(
                        "{kind}:{}[{} => {cols}]",
                        name_text(crate::ext::NAMES[p.id]),
                        self.args(&p.args)
                    ),
                ));
            }
        }
        if let Some(l) = ext_line {
            out.push((depth + 1, l));
        }
        if let Some(p) = &r.enh {
            out.push((depth + 1, self.addendum("Enh", p)));
        }
        for p in &r.opts {
            out.push((depth + 1, self.addendum("Opt", p)));
        }
        for k in &r.kids {
            self.rel(k, depth + 1, out);
        }
    }

    pub fn top(&self, t: &Top) -> Vec<(usize, String)> {
        let mut out = vec![];
        match t {
            Top::Rel(r) => self.rel(r, 0, &mut out),
            Top::Root(names, r) => {
                out.push((0, format!("Root[{}]", join_all(names.iter().map(|n| name_text(n))))));
                self.rel(r, 1, &mut out);
            }
        }
        out
    }
}

pub fn direct_width(r: &Rel) -> usize {
    let w = |i: usize| r.kids.get(i).map(width).unwrap_or(0);
    match &r.op {
        Op::Read(_, c) | Op::Virtual { cols: c, .. } | Op::ReadExt(c, _) => c.len(),
        Op::Filter(_) | Op::Sort(_) | Op::Fetch(..) => w(0),
        Op::Project(e) => w(0) + e.len(),
        Op::Agg(g, _, m) => g.len() + m.len(),
        Op::Join(k, ..) => match JOINS[*k].0 {
            "Inner" | "Outer" | "Left" | "Right" => w(0) + w(1),
            "LeftSemi" | "LeftAnti" | "LeftSingle" => w(0),
            "RightSemi" | "RightAnti" | "RightSingle" => w(1),
            "LeftMark" => w(0) + 1,
            "RightMark" => w(1) + 1,
            _ => unreachable!(),
        },
        Op::Set(_) => w(0),
        Op::Cross => w(0) + w(1),
        Op::ExtLeaf(p) | Op::ExtSingle(p) | Op::ExtMulti(p) => p.args.cols.len(),
    }
}

pub fn width(r: &Rel) -> usize {
    r.emit.as_ref().map(|m| m.len()).unwrap_or_else(|| direct_width(r))
}

impl Doc {
    pub fn text(&self, o: &Opts) -> String {
        let mut s = String::new();
        if let Some(v) = &self.version
            && *v != Ver::default()
        {
            let _ = writeln!(s, "=== Version {}.{}.{}", v.num.0, v.num.1, v.num.2);
            if !v.producer.is_empty() {
                let _ = writeln!(s, "{}producer: {}", o.indent, v.producer);
            }
            if !v.git_hash.is_empty() {
                let _ = writeln!(s, "{}git_hash: {}", o.indent, v.git_hash);
            }
        }
        s.push_str(&self.env.text(&o.indent));
        s.push_str("=== Plan\n");
        let w = W { env: &self.env, o };
        for (i, t) in self.tops.iter().enumerate() {
            if i > 0 {
                s.push_str("\n\n");
            }
            let lines = w.top(t);
            for (j, (d, l)) in lines.iter().enumerate() {
                if j > 0 {
                    s.push('\n');
                }
                for _ in 0..*d {
                    s.push_str(&o.indent);
                }
                s.push_str(l);
            }
        }
        s.push('\n');
        s
    }

    pub fn proto(&self) -> proto::Plan {
        let (extension_urns, extensions) = self.env.proto();
        proto::Plan {
            version: self.version.as_ref().map(|v| proto::Version {
                major_number: v.num.0,
                minor_number: v.num.1,
                patch_number: v.num.2,
                git_hash: v.git_hash.clone(),
                producer: v.producer.clone(),
            }),
            extension_urns,
            extensions,
            relations: self
                .tops
                .iter()
                .map(|t| proto::PlanRel {
                    rel_type: Some(match t {
                        Top::Rel(r) => proto::plan_rel::RelType::Rel(rel_proto(r)),
                        Top::Root(names, r) => proto::plan_rel::RelType::Root(proto::RelRoot {
                            input: Some(rel_proto(r)),
                            names: names.clone(),
                        }),
                    }),
                })
                .collect(),
            ..Default::default()
        }
    }
}

// ---------------------------------------------------------------- proto

pub fn nullability(null: bool) -> i32 {
    if null {
        pt::Nullability::Nullable as i32
    } else {
        pt::Nullability::Required as i32
    }
}

pub fn ty_proto(t: &Ty) -> proto::Type {
    let nullability = nullability(t.null);
    macro_rules! k {
        ($v:ident, $s:ident) => {
            pt::Kind::$v(pt::$s {
                type_variation_reference: 0,
                nullability,
            })
        };
    }
    #[allow(deprecated)]
    let kind = match &t.k {
        K::Simple(i) => match SIMPLE[*i] {
            "boolean" => k!(Bool, Boolean),
            "i8" => k!(I8, I8),
            "i16" => k!(I16, I16),
            "i32" => k!(I32, I32),
            "i64" => k!(I64, I64),
            "fp32" => k!(Fp32, Fp32),
            "fp64" => k!(Fp64, Fp64),
            "string" => k!(String, String),
            "binary" => k!(Binary, Binary),
            "timestamp_tz" => k!(TimestampTz, TimestampTz),
            "timestamp" => k!(Timestamp, Timestamp),
            "date" => k!(Date, Date),
            "time" => k!(Time, Time),
            "interval_year" => k!(IntervalYear, IntervalYear),
            "uuid" => k!(Uuid, Uuid),
            _ => unreachable!(),
        },
        K::List(e) => pt::Kind::List(Box::new(pt::List {
            r#type: Some(Box::new(ty_proto(e))),
            type_variation_reference: 0,
            nullability,
        })),
        K::Pts(p) => pt::Kind::PrecisionTimestamp(pt::PrecisionTimestamp {
            precision: *p,
            nullability,
            type_variation_reference: 0,
        }),
        K::PtsTz(p) => pt::Kind::PrecisionTimestampTz(pt::PrecisionTimestampTz {
            precision: *p,
            nullability,
            type_variation_reference: 0,
        }),
        K::Ptime(p) => pt::Kind::PrecisionTime(pt::PrecisionTime {
            precision: *p,
            nullability,
            type_variation_reference: 0,
        }),
        K::IDay(p) => pt::Kind::IntervalDay(pt::IntervalDay {
            precision: Some(*p),
            nullability,
            type_variation_reference: 0,
        }),
        K::Udt(a, ps) => pt::Kind::UserDefined(pt::UserDefined {
            type_reference: *a,
            type_variation_reference: 0,
            nullability,
            type_parameters: ps
                .iter()
                .map(|p| pt::Parameter {
                    parameter: Some(pt::parameter::Parameter::DataType(ty_proto(p))),
                })
                .collect(),
        }),
    };
    proto::Type { kind: Some(kind) }
}

pub fn lit_proto(l: &Lit) -> Literal {
    #[allow(deprecated)]
    let v = match &l.v {
        V::Bool(b) => LiteralType::Boolean(*b),
        V::I8(i) => LiteralType::I8(*i),
        V::I16(i) => LiteralType::I16(*i),
        V::I32(i) => LiteralType::I32(*i),
        V::I64(i) => LiteralType::I64(*i),
        V::F32(f) => LiteralType::Fp32(*f),
        V::F64(f) => LiteralType::Fp64(*f),
        V::Str(s) => LiteralType::String(s.clone()),
        V::Date(d) => LiteralType::Date(*d),
        V::Time(t) => LiteralType::Time(*t),
        V::Ts(t) => LiteralType::Timestamp(*t),
        V::PTime(p, t) => LiteralType::PrecisionTime(PrecisionTime {
            precision: *p,
            value: *t,
        }),
        V::PTs(p, t) => LiteralType::PrecisionTimestamp(PrecisionTimestamp {
            precision: *p,
            value: *t,
        }),
        V::PTsTz(p, t) => LiteralType::PrecisionTimestampTz(PrecisionTimestamp {
            precision: *p,
            value: *t,
        }),
        V::IDay(d, s, u, p) => LiteralType::IntervalDayToSecond(IntervalDayToSecond {
            days: *d,
            seconds: *s,
            subseconds: *u,
            precision_mode: Some(PrecisionMode::Precision(*p)),
        }),
        V::Null(t) => LiteralType::Null(ty_proto(t)),
    };
    Literal {
        nullable: l.null,
        type_variation_reference: 0,
        literal_type: Some(v),
    }
}

pub fn field_ref(i: i32) -> FieldReference {
    FieldReference {
        reference_type: Some(ReferenceType::DirectReference(ReferenceSegment {
            reference_type: Some(reference_segment::ReferenceType::StructField(Box::new(
                reference_segment::StructField {
                    field: i,
                    child: None,
                },
            ))),
        })),
        root_type: Some(RootType::RootReference(RootReference {})),
    }
}

fn fn_args(args: &[Ex]) -> Vec<proto::FunctionArgument> {
    args.iter()
        .map(|a| proto::FunctionArgument {
            arg_type: Some(ArgType::Value(ex_proto(a))),
        })
        .collect()
}

pub fn ex_proto(e: &Ex) -> proto::Expression {
    let rex = match e {
        Ex::Ref(i) => RexType::Selection(Box::new(field_ref(*i))),
        Ex::Lit(l) => RexType::Literal(lit_proto(l)),
        Ex::Call(f, args, t) => RexType::ScalarFunction(ScalarFunction {
            function_reference: *f,
            arguments: fn_args(args),
            output_type: Some(ty_proto(t)),
            ..Default::default()
        }),
        Ex::Cast(e, fb, t) => RexType::Cast(Box::new(Cast {
            r#type: Some(ty_proto(t)),
            input: Some(Box::new(ex_proto(e))),
            failure_behavior: *fb,
        })),
        Ex::If(cl, e) => RexType::IfThen(Box::new(IfThen {
            ifs: cl
                .iter()
                .map(|(c, v)| if_then::IfClause {
                    r#if: Some(ex_proto(c)),
                    then: Some(ex_proto(v)),
                })
                .collect(),
            r#else: Some(Box::new(ex_proto(e))),
        })),
    };
    proto::Expression {
        rex_type: Some(rex),
    }
}

pub fn common(emit: &Option<Vec<i32>>) -> Option<proto::RelCommon> {
    Some(proto::RelCommon {
        emit_kind: Some(match emit {
            None => EmitKind::Direct(Direct {}),
            Some(m) => EmitKind::Emit(Emit {
                output_mapping: m.clone(),
            }),
        }),
        ..Default::default()
    })
}

pub fn schema(cols: &[(String, Ty)]) -> Option<proto::NamedStruct> {
    Some(proto::NamedStruct {
        names: cols.iter().map(|c| c.0.clone()).collect(),
        r#struct: Some(pt::Struct {
            types: cols.iter().map(|c| ty_proto(&c.1)).collect(),
            type_variation_reference: 0,
            nullability: nullability(false),
        }),
    })
}

pub fn rel_proto(r: &Rel) -> proto::Rel {
    use proto::*;
    let kid = |i: usize| r.kids.get(i).map(|k| Box::new(rel_proto(k)));
    let common = common(&r.emit);
    let advanced_extension = if r.enh.is_some() || !r.opts.is_empty() {
        Some(pext::AdvancedExtension {
            enhancement: r.enh.as_ref().map(crate::ext::any_of),
            optimization: r.opts.iter().map(crate::ext::any_of).collect(),
        })
    } else {
        None
    };
    let bx = |e: &Ex| Box::new(ex_proto(e));
    let rt = match &r.op {
        Op::Read(t, cols) => RelType::Read(Box::new(ReadRel {
            common,
            base_schema: schema(cols),
            advanced_extension,
            read_type: Some(read_rel::ReadType::NamedTable(read_rel::NamedTable {
                names: t.clone(),
                advanced_extension: None,
            })),
            ..Default::default()
        })),
        Op::Virtual { rows, filter, cols } => RelType::Read(Box::new(ReadRel {
            common,
            base_schema: schema(cols),
            filter: filter.as_ref().map(bx),
            advanced_extension,
            read_type: Some(read_rel::ReadType::VirtualTable(read_rel::VirtualTable {
                expressions: rows
                    .iter()
                    .map(|r| expression::nested::Struct {
                        fields: r.iter().map(ex_proto).collect(),
                    })
                    .collect(),
                ..Default::default()
            })),
            ..Default::default()
        })),
        Op::ReadExt(cols, p) => RelType::Read(Box::new(ReadRel {
            common,
            base_schema: schema(cols),
            advanced_extension,
            read_type: Some(read_rel::ReadType::ExtensionTable(read_rel::ExtensionTable {
                detail: Some(crate::ext::any_of(p)),
            })),
            ..Default::default()
        })),
        Op::Filter(e) => RelType::Filter(Box::new(FilterRel {
            common,
            input: kid(0),
            condition: Some(bx(e)),
            advanced_extension,
        })),
        Op::Project(es) => RelType::Project(Box::new(ProjectRel {
            common,
            input: kid(0),
            expressions: es.iter().map(ex_proto).collect(),
            advanced_extension,
        })),
        Op::Sort(keys) => RelType::Sort(Box::new(SortRel {
            common,
            input: kid(0),
            sorts: keys
                .iter()
                .map(|(e, d)| SortField {
                    expr: Some(ex_proto(e)),
                    sort_kind: Some(sort_field::SortKind::Direction(DIRS[*d].1)),
                })
                .collect(),
            advanced_extension,
        })),
        Op::Fetch(l, o) => RelType::Fetch(Box::new(FetchRel {
            common,
            input: kid(0),
            advanced_extension,
            offset_mode: o.as_ref().map(|e| fetch_rel::OffsetMode::OffsetExpr(bx(e))),
            count_mode: l.as_ref().map(|e| fetch_rel::CountMode::CountExpr(bx(e))),
        })),
        Op::Agg(g, sets, ms) => RelType::Aggregate(Box::new(AggregateRel {
            common,
            input: kid(0),
            groupings: sets
                .iter()
                .map(|s| aggregate_rel::Grouping {
                    expression_references: s.iter().map(|i| *i as u32).collect(),
                    ..Default::default()
                })
                .collect(),
            measures: ms
                .iter()
                .map(|(f, a, t)| aggregate_rel::Measure {
                    measure: Some(AggregateFunction {
                        function_reference: *f,
                        arguments: fn_args(a),
                        output_type: Some(ty_proto(t)),
                        ..Default::default()
                    }),
                    filter: None,
                })
                .collect(),
            grouping_expressions: g.iter().map(ex_proto).collect(),
            advanced_extension,
        })),
        Op::Join(k, c, pf) => RelType::Join(Box::new(JoinRel {
            common,
            left: kid(0),
            right: kid(1),
            expression: Some(bx(c)),
            post_join_filter: pf.as_ref().map(bx),
            r#type: JOINS[*k].1,
            advanced_extension,
        })),
        Op::Set(k) => RelType::Set(SetRel {
            common,
            inputs: r.kids.iter().map(rel_proto).collect(),
            op: SETS[*k].1,
            advanced_extension,
        }),
        Op::Cross => RelType::Cross(Box::new(CrossRel {
            common,
            left: kid(0),
            right: kid(1),
            advanced_extension,
        })),
        Op::ExtLeaf(p) => RelType::ExtensionLeaf(ExtensionLeafRel {
            common,
            detail: Some(crate::ext::any_of(p)),
        }),
        Op::ExtSingle(p) => RelType::ExtensionSingle(Box::new(ExtensionSingleRel {
            common,
            input: kid(0),
            detail: Some(crate::ext::any_of(p)),
        })),
        Op::ExtMulti(p) => RelType::ExtensionMulti(ExtensionMultiRel {
            common,
            inputs: r.kids.iter().map(rel_proto).collect(),
            detail: Some(crate::ext::any_of(p)),
        }),
    };
    Rel { rel_type: Some(rt) }
}
