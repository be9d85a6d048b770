//! Recording extension handlers: they store exactly what they were handed in
//! the payload, and hand back exactly what the payload holds.

use substrait::proto;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, Expr, ExtensionArgs, ExtensionColumn,
    ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionValue, TupleValue,
};

use crate::model::{Arg, Args, Col, Pay, ex_proto, ty_proto};
use prost::Message;

/// Text names of the recording handlers; the third needs quoting.
pub const NAMES: [&str; 5] = ["RecA", "RecB", "odd name.", "Pass", "Rec_D4"];

/// Named arguments the recording handlers ask for, in this order.
pub const ARG_NAMES: [&str; 7] = ["a", "b", "limit", "true_", "a b", "_", "count"];

pub struct Rec<const N: usize>(pub Vec<u8>);

thread_local! {
    /// Called whenever a recording handler is, if the thread has set it.
    pub static POINT: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}

/// A moment at which a handler is entered.
fn point() {
    // Taken out while it runs: it may itself use the library.
    let f = POINT.with(|p| p.borrow_mut().take());
    if let Some(mut f) = f {
        f();
        POINT.with(|p| *p.borrow_mut() = Some(f));
    }
}

pub fn url(n: usize) -> String {
    format!("type.googleapis.com/mc.Rec{n}")
}

impl<const N: usize> AnyConvertible for Rec<N> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), self.0.clone()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if any.type_url != url(N) {
            return Err(ExtensionError::Custom("wrong type url".into()));
        }
        Ok(Rec(any.value.to_vec()))
    }
    fn type_url() -> String {
        url(N)
    }
}

impl<const N: usize> Explainable for Rec<N> {
    fn name() -> &'static str {
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        point();
        let mut out = vec![];
        let pos = args.positional();
        put_len(&mut out, pos.len());
        for p in pos {
            put_value(&mut out, p);
        }
        let mut named = vec![];
        let mut n = 0;
        for name in ARG_NAMES {
            if let Some(v) = args.get_named_arg(name) {
                n += 1;
                put_str(&mut named, name);
                put_value(&mut named, v);
            }
        }
        put_len(&mut out, n);
        out.extend(named);
        let cols = args.output_columns();
        put_len(&mut out, cols.len());
        for c in cols {
            put_col(&mut out, c);
        }
        Ok(Rec(out))
    }
    fn to_args(&self, context: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        point();
        let mut r = Reader(&self.0);
        let mut args = ExtensionArgs::default();
        let bad = || ExtensionError::Custom("bad payload".into());
        let n = r.len().ok_or_else(bad)?;
        for _ in 0..n {
            args.positional.push(r.value().ok_or_else(bad)?);
        }
        let n = r.len().ok_or_else(bad)?;
        for _ in 0..n {
            let k = r.str().ok_or_else(bad)?;
            let v = r.value().ok_or_else(bad)?;
            args.named.insert(k, v);
        }
        let n = r.len().ok_or_else(bad)?;
        for _ in 0..n {
            args.output_columns.push(r.col().ok_or_else(bad)?);
        }
        if !r.0.is_empty() {
            return Err(bad());
        }
        if NAMES[N] == "Pass" {
            // Passes every input column through, as many as the inputs emit.
            let total: usize = context.inputs().iter().map(|i| i.emitted_column_count()).sum();
            args.output_columns = (0..total).map(|i| ExtensionColumn::field(i as i32)).collect();
        }
        Ok(args)
    }
}

fn put_len(out: &mut Vec<u8>, n: usize) {
    out.extend((n as u32).to_le_bytes());
}

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_len(out, b.len());
    out.extend(b);
}

fn put_str(out: &mut Vec<u8>, s: &str) {
    put_bytes(out, s.as_bytes());
}

fn put_value(out: &mut Vec<u8>, v: &ExtensionValue) {
    match v {
        ExtensionValue::String(s) => {
            out.push(1);
            put_str(out, s)
        }
        ExtensionValue::Integer(i) => {
            out.push(2);
            out.extend(i.to_le_bytes())
        }
        ExtensionValue::Float(f) => {
            out.push(3);
            out.extend(f.to_bits().to_le_bytes())
        }
        ExtensionValue::Boolean(b) => {
            out.push(4);
            out.push(*b as u8)
        }
        ExtensionValue::Null => out.push(5),
        ExtensionValue::Enum(e) => {
            out.push(6);
            put_str(out, e)
        }
        ExtensionValue::Tuple(t) => {
            out.push(7);
            put_len(out, t.len());
            for e in t.iter() {
                put_value(out, e);
            }
        }
        ExtensionValue::Expr(e) => {
            out.push(8);
            put_bytes(out, &e.as_proto().encode_to_vec())
        }
        ExtensionValue::Error(_) => out.push(255),
        #[allow(unreachable_patterns)]
        _ => out.push(254),
    }
}

fn put_col(out: &mut Vec<u8>, c: &ExtensionColumn) {
    match c {
        ExtensionColumn::Named { name, r#type } => {
            out.push(1);
            put_str(out, name);
            put_bytes(out, &r#type.encode_to_vec());
        }
        ExtensionColumn::Expr(e) => {
            out.push(2);
            put_bytes(out, &e.as_proto().encode_to_vec());
        }
        #[allow(unreachable_patterns)]
        _ => out.push(254),
    }
}

struct Reader<'a>(&'a [u8]);

impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let (h, t) = self.0.split_at_checked(n)?;
        self.0 = t;
        Some(h)
    }
    fn len(&mut self) -> Option<usize> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().ok()?) as usize)
    }
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.len()?;
        self.take(n)
    }
    fn str(&mut self) -> Option<String> {
        String::from_utf8(self.bytes()?.to_vec()).ok()
    }
    fn value(&mut self) -> Option<ExtensionValue> {
        Some(match self.take(1)?[0] {
            1 => ExtensionValue::String(self.str()?),
            2 => ExtensionValue::Integer(i64::from_le_bytes(self.take(8)?.try_into().ok()?)),
            3 => ExtensionValue::Float(f64::from_bits(u64::from_le_bytes(
                self.take(8)?.try_into().ok()?,
            ))),
            4 => ExtensionValue::Boolean(self.take(1)?[0] == 1),
            5 => ExtensionValue::Null,
            6 => ExtensionValue::Enum(self.str()?),
            7 => {
                let n = self.len()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.value()?);
                }
                ExtensionValue::Tuple(TupleValue::from(v))
            }
            8 => ExtensionValue::Expr(Expr::from(proto::Expression::decode(self.bytes()?).ok()?)),
            255 => ExtensionValue::Error(ExtensionError::Custom("stored error".into())),
            _ => return None,
        })
    }
    fn col(&mut self) -> Option<ExtensionColumn> {
        Some(match self.take(1)?[0] {
            1 => ExtensionColumn::Named {
                name: self.str()?,
                r#type: proto::Type::decode(self.bytes()?).ok()?,
            },
            2 => ExtensionColumn::Expr(Expr::from(proto::Expression::decode(self.bytes()?).ok()?)),
            _ => return None,
        })
    }
}

pub fn value_of(a: &Arg) -> ExtensionValue {
    match a {
        Arg::Str(s) => ExtensionValue::String(s.clone()),
        Arg::Int(i) => ExtensionValue::Integer(*i),
        Arg::Float(f) => ExtensionValue::Float(*f),
        Arg::Bool(b) => ExtensionValue::Boolean(*b),
        Arg::Null => ExtensionValue::Null,
        Arg::Enum(e) => ExtensionValue::Enum(e.clone()),
        Arg::Tuple(v) => ExtensionValue::Tuple(TupleValue::from(
            v.iter().map(value_of).collect::<Vec<_>>(),
        )),
        Arg::Ex(e) => ExtensionValue::Expr(Expr::from(ex_proto(e))),
    }
}

pub fn payload(a: &Args) -> Vec<u8> {
    let mut out = vec![];
    put_len(&mut out, a.pos.len());
    for p in &a.pos {
        put_value(&mut out, &value_of(p));
    }
    put_len(&mut out, a.named.len());
    for (k, v) in &a.named {
        put_str(&mut out, k);
        put_value(&mut out, &value_of(v));
    }
    put_len(&mut out, a.cols.len());
    for c in &a.cols {
        let c = match c {
            Col::Named(n, t) => ExtensionColumn::Named {
                name: n.clone(),
                r#type: ty_proto(t),
            },
            Col::Ex(e) => ExtensionColumn::Expr(Expr::from(ex_proto(e))),
        };
        put_col(&mut out, &c);
    }
    out
}

/// The message a handler would store for these arguments (named arguments are
/// kept in the handler's own order, which is what it can observe).
pub fn any_of(p: &Pay) -> pbjson_types::Any {
    let mut args = p.args.clone();
    args.named
        .sort_by_key(|(n, _)| ARG_NAMES.iter().position(|a| a == n).unwrap_or(99));
    pbjson_types::Any {
        type_url: url(p.id),
        value: payload(&args).into(),
    }
}

/// A registry with every recording handler in every namespace.
pub fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    macro_rules! reg {
        ($($n:literal)*) => {$(
            r.register_relation::<Rec<$n>>().unwrap();
            r.register_extension_table::<Rec<$n>>().unwrap();
            r.register_enhancement::<Rec<$n>>().unwrap();
            r.register_optimization::<Rec<$n>>().unwrap();
        )*};
    }
    reg!(0 1 2 3 4);
    r
}
