//! Logical types and values, with independent encodings: to Arrow (for base files), to Avro
//! binary (for log blocks), and a canonical rendering used to compare rows.
use std::fmt::Write as _;
use std::sync::Arc;

use arrow_array::builder::*;
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::*;
use arrow_buffer::{BooleanBuffer, NullBuffer, OffsetBuffer};
use arrow_schema::{DataType, Field, Fields, TimeUnit};
use serde_json::{json, Value as J};

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int,
    Long,
    Float,
    Double,
    Str,
    Bytes,
    Date,
    TimeMillis,
    TimeMicros,
    TsMillis,
    TsMicros,
    TsNanos,
    LocalTsMillis,
    LocalTsMicros,
    LocalTsNanos,
    Uuid,
    Enum(Vec<String>),
    Fixed(usize),
    List(Box<Ty>, bool),             // element type, element nullable
    Rec(Vec<(String, Ty, bool)>),    // name, type, nullable
    Map(Box<Ty>),
    Decimal(u8, i8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    B(bool),
    I(i64),
    F(f32),
    D(f64),
    S(String),
    Y(Vec<u8>),
    L(Vec<V>),
    R(Vec<V>),
    M(Vec<(String, V)>),
    Dec(i128),
}

impl V {
    pub fn s(x: &str) -> V {
        V::S(x.to_string())
    }
}

impl Ty {
    pub fn arrow(&self) -> DataType {
        match self {
            Ty::Bool => DataType::Boolean,
            Ty::Int => DataType::Int32,
            Ty::Long => DataType::Int64,
            Ty::Float => DataType::Float32,
            Ty::Double => DataType::Float64,
            Ty::Str | Ty::Enum(_) => DataType::Utf8,
            Ty::Bytes => DataType::Binary,
            Ty::Date => DataType::Date32,
            Ty::TimeMillis => DataType::Time32(TimeUnit::Millisecond),
            Ty::TimeMicros => DataType::Time64(TimeUnit::Microsecond),
            Ty::TsMillis | Ty::LocalTsMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
            Ty::TsMicros | Ty::LocalTsMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
            Ty::TsNanos | Ty::LocalTsNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
            Ty::Uuid => DataType::FixedSizeBinary(16),
            Ty::Fixed(n) => DataType::FixedSizeBinary(*n as i32),
            Ty::List(t, n) => DataType::List(Arc::new(Field::new("element", t.arrow(), *n))),
            Ty::Rec(f) => DataType::Struct(rec_fields(f)),
            Ty::Map(_) => unreachable!("map has no base-file encoding here"),
            Ty::Decimal(p, s) => DataType::Decimal128(*p, *s),
        }
    }

    /// Avro schema JSON; `id` makes named types unique.
    pub fn avro(&self, id: &str) -> J {
        match self {
            Ty::Bool => json!("boolean"),
            Ty::Int => json!("int"),
            Ty::Long => json!("long"),
            Ty::Float => json!("float"),
            Ty::Double => json!("double"),
            Ty::Str => json!("string"),
            Ty::Bytes => json!("bytes"),
            Ty::Date => json!({"type":"int","logicalType":"date"}),
            Ty::TimeMillis => json!({"type":"int","logicalType":"time-millis"}),
            Ty::TimeMicros => json!({"type":"long","logicalType":"time-micros"}),
            Ty::TsMillis => json!({"type":"long","logicalType":"timestamp-millis"}),
            Ty::TsMicros => json!({"type":"long","logicalType":"timestamp-micros"}),
            Ty::TsNanos => json!({"type":"long","logicalType":"timestamp-nanos"}),
            Ty::LocalTsMillis => json!({"type":"long","logicalType":"local-timestamp-millis"}),
            Ty::LocalTsMicros => json!({"type":"long","logicalType":"local-timestamp-micros"}),
            Ty::LocalTsNanos => json!({"type":"long","logicalType":"local-timestamp-nanos"}),
            Ty::Uuid => json!({"type":"string","logicalType":"uuid"}),
            Ty::Enum(s) => json!({"type":"enum","name":format!("E_{id}"),"symbols":s}),
            Ty::Fixed(n) => json!({"type":"fixed","name":format!("F_{id}"),"size":n}),
            Ty::List(t, n) => {
                json!({"type":"array","items": avro_nullable(t, *n, &format!("{id}_e"))})
            }
            Ty::Rec(f) => json!({"type":"record","name":format!("R_{id}"),"fields": avro_fields(f, id)}),
            Ty::Map(t) => json!({"type":"map","values": t.avro(&format!("{id}_m"))}),
            Ty::Decimal(p, s) => {
                json!({"type":"bytes","logicalType":"decimal","precision":p,"scale":s})
            }
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Ty::List(t, _) => 1 + t.depth(),
            Ty::Map(t) => 1 + t.depth(),
            Ty::Rec(f) => 1 + f.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub fn rec_fields(f: &[(String, Ty, bool)]) -> Fields {
    f.iter()
        .map(|(n, t, nl)| Field::new(n, t.arrow(), *nl))
        .collect::<Vec<_>>()
        .into()
}

thread_local! {
    /// Which Avro spellings the current case's writer uses; set when its table is made.
    static STYLE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn set_avro_style(s: u32) {
    STYLE.with(|c| c.set(s));
}
fn style(bit: u32) -> bool {
    STYLE.with(|c| c.get() >> bit & 1 == 1)
}
/// Unions of this type name the null branch second.
fn null_last(t: &Ty) -> bool {
    let tag = match t {
        Ty::Bool => 0,
        Ty::Int | Ty::Long => 1,
        Ty::Float | Ty::Double => 2,
        Ty::Str => 3,
        Ty::Bytes => 4,
        Ty::Enum(_) => 5,
        Ty::Fixed(_) => 6,
        Ty::List(..) => 7,
        Ty::Rec(_) => 8,
        Ty::Uuid | Ty::Decimal(..) | Ty::Map(_) => 9,
        _ => 10,
    };
    style(tag)
}

pub fn avro_nullable(t: &Ty, nullable: bool, id: &str) -> J {
    if nullable && null_last(t) {
        json!([t.avro(id), "null"])
    } else if nullable {
        json!(["null", t.avro(id)])
    } else {
        t.avro(id)
    }
}

pub fn avro_fields(f: &[(String, Ty, bool)], id: &str) -> J {
    J::Array(
        f.iter()
            .enumerate()
            .map(|(i, (n, t, nl))| {
                let mut o = json!({"name": n, "type": avro_nullable(t, *nl, &format!("{id}_{i}"))});
                if *nl && !null_last(t) {
                    o["default"] = J::Null;
                }
                if style(11) {
                    o["doc"] = json!(format!("column {n}"));
                }
                if style(12) {
                    o["aliases"] = json!([format!("old_{n}")]);
                    o["order"] = json!("ignore");
                    o["custom"] = json!({"a": [1]});
                }
                o
            })
            .collect(),
    )
}

// ---------- Avro binary encoding, written from the specification ----------
pub fn zigzag(out: &mut Vec<u8>, n: i64) {
    let mut z = ((n << 1) ^ (n >> 63)) as u64;
    loop {
        if z < 0x80 {
            out.push(z as u8);
            return;
        }
        out.push((z as u8 & 0x7f) | 0x80);
        z >>= 7;
    }
}

pub fn avro_encode(out: &mut Vec<u8>, t: &Ty, nullable: bool, v: &V) {
    if nullable {
        let last = null_last(t);
        if *v == V::Null {
            zigzag(out, last as i64);
            return;
        }
        zigzag(out, !last as i64);
    }
    match (t, v) {
        (Ty::Bool, V::B(b)) => out.push(*b as u8),
        (Ty::Float, V::F(f)) => out.extend(f.to_le_bytes()),
        (Ty::Double, V::D(f)) => out.extend(f.to_le_bytes()),
        (Ty::Enum(sy), V::S(s)) => zigzag(out, sy.iter().position(|x| x == s).unwrap() as i64),
        (Ty::Str, V::S(s)) => {
            zigzag(out, s.len() as i64);
            out.extend(s.as_bytes());
        }
        (Ty::Uuid, V::Y(b)) => {
            let s = uuid_text(b);
            zigzag(out, s.len() as i64);
            out.extend(s.as_bytes());
        }
        (Ty::Bytes, V::Y(b)) => {
            zigzag(out, b.len() as i64);
            out.extend(b);
        }
        (Ty::Fixed(_), V::Y(b)) => out.extend(b),
        (Ty::List(e, en), V::L(items)) => {
            // split into blocks when long, to exercise multi-block arrays
            let (a, b) = if items.len() > 2 { items.split_at(2) } else { (&items[..], &items[..0]) };
            for part in [a, b] {
                if !part.is_empty() {
                    let mut b = vec![];
                    for i in part {
                        avro_encode(&mut b, e, *en, i);
                    }
                    if style(13) {
                        // a negative count is followed by the block's size
                        zigzag(out, -(part.len() as i64));
                        zigzag(out, b.len() as i64);
                    } else {
                        zigzag(out, part.len() as i64);
                    }
                    out.extend(b);
                }
            }
            zigzag(out, 0);
        }
        (Ty::Map(e), V::M(items)) => {
            if !items.is_empty() {
                zigzag(out, items.len() as i64);
                for (k, i) in items {
                    zigzag(out, k.len() as i64);
                    out.extend(k.as_bytes());
                    avro_encode(out, e, false, i);
                }
            }
            zigzag(out, 0);
        }
        (Ty::Rec(f), V::R(vs)) => {
            for ((_, t, n), v) in f.iter().zip(vs) {
                avro_encode(out, t, *n, v);
            }
        }
        (Ty::Decimal(..), V::Dec(d)) => {
            let b = d.to_be_bytes();
            zigzag(out, b.len() as i64);
            out.extend(b);
        }
        (_, V::I(i)) => zigzag(out, *i),
        (t, v) => unreachable!("cannot encode {v:?} as {t:?}"),
    }
}

pub fn uuid_text(b: &[u8]) -> String {
    let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

// ---------- Arrow arrays ----------
macro_rules! prim {
    ($t:ty, $vs:expr, $n:ty) => {
        Arc::new(
            $vs.iter()
                .map(|v| match v {
                    V::I(i) => Some(*i as $n),
                    V::Null => None,
                    o => unreachable!("{o:?}"),
                })
                .collect::<PrimitiveArray<$t>>(),
        ) as ArrayRef
    };
}

pub fn to_arrow(t: &Ty, vs: &[&V]) -> ArrayRef {
    match t {
        Ty::Bool => Arc::new(
            vs.iter()
                .map(|v| if let V::B(b) = v { Some(*b) } else { None })
                .collect::<BooleanArray>(),
        ),
        Ty::Int => prim!(Int32Type, vs, i32),
        Ty::Long => prim!(Int64Type, vs, i64),
        Ty::Date => prim!(Date32Type, vs, i32),
        Ty::TimeMillis => prim!(Time32MillisecondType, vs, i32),
        Ty::TimeMicros => prim!(Time64MicrosecondType, vs, i64),
        Ty::TsMillis | Ty::LocalTsMillis => prim!(TimestampMillisecondType, vs, i64),
        Ty::TsMicros | Ty::LocalTsMicros => prim!(TimestampMicrosecondType, vs, i64),
        Ty::TsNanos | Ty::LocalTsNanos => prim!(TimestampNanosecondType, vs, i64),
        Ty::Float => Arc::new(
            vs.iter()
                .map(|v| if let V::F(b) = v { Some(*b) } else { None })
                .collect::<Float32Array>(),
        ),
        Ty::Double => Arc::new(
            vs.iter()
                .map(|v| if let V::D(b) = v { Some(*b) } else { None })
                .collect::<Float64Array>(),
        ),
        Ty::Str | Ty::Enum(_) => Arc::new(
            vs.iter()
                .map(|v| if let V::S(b) = v { Some(b.clone()) } else { None })
                .collect::<StringArray>(),
        ),
        Ty::Bytes => Arc::new(
            vs.iter()
                .map(|v| if let V::Y(b) = v { Some(b.clone()) } else { None })
                .collect::<BinaryArray>(),
        ),
        Ty::Uuid | Ty::Fixed(_) => {
            let n = if let Ty::Fixed(n) = t { *n } else { 16 };
            let mut b = FixedSizeBinaryBuilder::new(n as i32);
            for v in vs {
                match v {
                    V::Y(x) => b.append_value(x).unwrap(),
                    _ => b.append_null(),
                }
            }
            Arc::new(b.finish())
        }
        Ty::Decimal(p, s) => Arc::new(
            vs.iter()
                .map(|v| if let V::Dec(b) = v { Some(*b) } else { None })
                .collect::<Decimal128Array>()
                .with_precision_and_scale(*p, *s)
                .unwrap(),
        ),
        Ty::List(e, en) => {
            let mut lens = vec![];
            let mut valid = vec![];
            let mut items: Vec<&V> = vec![];
            for v in vs {
                if let V::L(x) = v {
                    lens.push(x.len());
                    valid.push(true);
                    items.extend(x.iter());
                } else {
                    lens.push(0);
                    valid.push(false);
                }
            }
            Arc::new(ListArray::new(
                Arc::new(Field::new("element", e.arrow(), *en)),
                OffsetBuffer::from_lengths(lens),
                to_arrow(e, &items),
                Some(NullBuffer::new(BooleanBuffer::from(valid))),
            ))
        }
        Ty::Rec(f) => {
            let valid: Vec<bool> = vs.iter().map(|v| matches!(v, V::R(_))).collect();
            let n = V::Null;
            let cols: Vec<ArrayRef> = f
                .iter()
                .enumerate()
                .map(|(i, (_, t, _))| {
                    let c: Vec<&V> = vs
                        .iter()
                        .map(|v| if let V::R(x) = v { &x[i] } else { &n })
                        .collect();
                    to_arrow(t, &c)
                })
                .collect();
            Arc::new(StructArray::new(
                rec_fields(f),
                cols,
                Some(NullBuffer::new(BooleanBuffer::from(valid))),
            ))
        }
        Ty::Map(_) => unreachable!(),
    }
}

// ---------- canonical rendering ----------
fn esc(s: &str, out: &mut String) {
    let _ = write!(out, "{s:?}");
}

pub fn render(t: &Ty, v: &V, out: &mut String) {
    match (t, v) {
        (_, V::Null) => out.push('~'),
        (_, V::B(b)) => out.push_str(if *b { "true" } else { "false" }),
        (Ty::Int, V::I(i)) => {
            let _ = write!(out, "{i}i");
        }
        (Ty::Long, V::I(i)) => {
            let _ = write!(out, "{i}l");
        }
        (Ty::Date, V::I(i)) => {
            let _ = write!(out, "{i}date");
        }
        (Ty::TimeMillis, V::I(i)) => {
            let _ = write!(out, "{i}t3");
        }
        (Ty::TimeMicros, V::I(i)) => {
            let _ = write!(out, "{i}t6");
        }
        (Ty::TsMillis | Ty::LocalTsMillis, V::I(i)) => {
            let _ = write!(out, "{i}ms");
        }
        (Ty::TsMicros | Ty::LocalTsMicros, V::I(i)) => {
            let _ = write!(out, "{i}us");
        }
        (Ty::TsNanos | Ty::LocalTsNanos, V::I(i)) => {
            let _ = write!(out, "{i}ns");
        }
        (_, V::F(f)) => {
            let _ = write!(out, "f{:08x}", f.to_bits());
        }
        (_, V::D(f)) => {
            let _ = write!(out, "d{:016x}", f.to_bits());
        }
        (_, V::S(s)) => esc(s, out),
        (_, V::Y(b)) => {
            out.push('x');
            for c in b {
                let _ = write!(out, "{c:02x}");
            }
        }
        (Ty::List(e, _), V::L(items)) => {
            out.push('[');
            for i in items {
                render(e, i, out);
                out.push(',');
            }
            out.push(']');
        }
        (Ty::Rec(f), V::R(vs)) => {
            out.push('{');
            for ((n, t, _), v) in f.iter().zip(vs) {
                out.push_str(n);
                out.push(':');
                render(t, v, out);
                out.push(',');
            }
            out.push('}');
        }
        (_, V::Dec(d)) => {
            let _ = write!(out, "{d}dec");
        }
        (t, v) => unreachable!("render {t:?} {v:?}"),
    }
}

pub fn render_s(t: &Ty, v: &V) -> String {
    let mut s = String::new();
    render(t, v, &mut s);
    s
}

/// Renders one cell of an Arrow array in the same notation.
pub fn render_arrow(a: &dyn Array, i: usize, out: &mut String) {
    if a.is_null(i) || matches!(a.data_type(), DataType::Null) {
        out.push('~');
        return;
    }
    macro_rules! p {
        ($t:ty, $suf:expr) => {{
            let _ = write!(out, "{}{}", a.as_primitive::<$t>().value(i), $suf);
        }};
    }
    match a.data_type() {
        DataType::Boolean => {
            let _ = write!(out, "{}", a.as_boolean().value(i));
        }
        DataType::Int32 => p!(Int32Type, "i"),
        DataType::Int64 => p!(Int64Type, "l"),
        DataType::UInt64 => p!(UInt64Type, "ul"),
        DataType::Date32 => p!(Date32Type, "date"),
        DataType::Time32(TimeUnit::Millisecond) => p!(Time32MillisecondType, "t3"),
        DataType::Time64(TimeUnit::Microsecond) => p!(Time64MicrosecondType, "t6"),
        DataType::Timestamp(TimeUnit::Millisecond, _) => p!(TimestampMillisecondType, "ms"),
        DataType::Timestamp(TimeUnit::Microsecond, _) => p!(TimestampMicrosecondType, "us"),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => p!(TimestampNanosecondType, "ns"),
        DataType::Float32 => {
            let _ = write!(out, "f{:08x}", a.as_primitive::<Float32Type>().value(i).to_bits());
        }
        DataType::Float64 => {
            let _ = write!(out, "d{:016x}", a.as_primitive::<Float64Type>().value(i).to_bits());
        }
        DataType::Utf8 => esc(a.as_string::<i32>().value(i), out),
        DataType::LargeUtf8 => esc(a.as_string::<i64>().value(i), out),
        DataType::Utf8View => esc(a.as_string_view().value(i), out),
        DataType::Binary => hex(a.as_binary::<i32>().value(i), out),
        DataType::LargeBinary => hex(a.as_binary::<i64>().value(i), out),
        DataType::BinaryView => hex(a.as_binary_view().value(i), out),
        DataType::FixedSizeBinary(_) => hex(a.as_fixed_size_binary().value(i), out),
        DataType::Decimal128(..) => p!(Decimal128Type, "dec"),
        DataType::List(_) => {
            let l = a.as_list::<i32>().value(i);
            out.push('[');
            for k in 0..l.len() {
                render_arrow(&l, k, out);
                out.push(',');
            }
            out.push(']');
        }
        DataType::Struct(f) => {
            let s = a.as_struct();
            out.push('{');
            for (k, f) in f.iter().enumerate() {
                out.push_str(f.name());
                out.push(':');
                render_arrow(s.column(k), i, out);
                out.push(',');
            }
            out.push('}');
        }
        DataType::Dictionary(..) => {
            let d = a.as_any_dictionary();
            let k = d.normalized_keys()[i];
            render_arrow(d.values(), k, out);
        }
        o => {
            let _ = write!(out, "<{o:?}>");
        }
    }
}

fn hex(b: &[u8], out: &mut String) {
    out.push('x');
    for c in b {
        let _ = write!(out, "{c:02x}");
    }
}

/// Rows of a batch as "col=value|col=value|..." in column order.
pub fn render_batch(b: &RecordBatch) -> Vec<String> {
    let mut rows = Vec::with_capacity(b.num_rows());
    let sch = b.schema();
    for i in 0..b.num_rows() {
        let mut s = String::new();
        for (c, f) in sch.fields().iter().enumerate() {
            s.push_str(f.name());
            s.push('=');
            render_arrow(b.column(c), i, &mut s);
            s.push('|');
        }
        rows.push(s);
    }
    rows
}

// ---------- random values ----------
thread_local! {
    /// Whether float values may be NaN on this thread (no order among them: only where values are not compared)
    pub static NANS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn nans() -> bool {
    NANS.with(|x| x.get())
}

pub fn gen_string(r: &mut Rng) -> String {
    // rarely long ones, around the sizes at which length encodings and buffers change
    if r.below(1500) == 0 {
        let n = *r.pick(&[63usize, 64, 127, 128, 300, 4095, 4097, 8191, 8192, 20_000]) + r.below(2);
        return (0..n).map(|i| if i % 97 == 96 { 'é' } else { (b'a' + (i % 23) as u8) as char }).collect();
    }
    match r.below(8) {
        0 => String::new(),
        1 => "日本語😀é".chars().take(r.below(6)).collect(),
        2 => "a\"b\\c\n|=~ ".to_string(),
        3 => "x".repeat(r.below(40)),
        _ => {
            let n = 1 + r.below(8);
            (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '_', '-', ' '])).collect()
        }
    }
}

pub fn gen_val(r: &mut Rng, t: &Ty, nullable: bool) -> V {
    if nullable && r.chance(22) {
        return V::Null;
    }
    match t {
        Ty::Bool => V::B(r.chance(50)),
        Ty::Int => V::I(match r.below(6) {
            0 => i32::MIN as i64,
            1 => i32::MAX as i64,
            2 => 0,
            3 => -1,
            _ => r.range(-1000, 1000),
        }),
        Ty::Long => V::I(match r.below(6) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => 0,
            3 => -1,
            _ => r.range(-1_000_000_000_000, 1_000_000_000_000),
        }),
        Ty::Date => V::I(r.range(-30000, 60000)),
        Ty::TimeMillis => V::I(r.range(0, 86_399_999)),
        Ty::TimeMicros => V::I(r.range(0, 86_399_999_999)),
        Ty::TsMillis | Ty::LocalTsMillis => V::I(r.range(-1_000_000_000_000, 3_000_000_000_000)),
        Ty::TsMicros | Ty::LocalTsMicros => {
            V::I(r.range(-1_000_000_000_000_000, 3_000_000_000_000_000))
        }
        Ty::TsNanos | Ty::LocalTsNanos => {
            V::I(r.range(-1_000_000_000_000_000_000, 3_000_000_000_000_000_000))
        }
        Ty::Float => V::F(match r.below(6) {
            0 => f32::INFINITY,
            1 => -0.0,
            2 => f32::MIN_POSITIVE,
            3 if nans() => f32::NAN,
            _ => r.range(-100000, 100000) as f32 / 7.0,
        }),
        Ty::Double => V::D(match r.below(6) {
            0 => f64::NEG_INFINITY,
            1 => -0.0,
            2 => f64::MAX,
            3 if nans() => f64::NAN,
            _ => r.range(-10000000, 10000000) as f64 / 13.0,
        }),
        Ty::Str => V::S(gen_string(r)),
        Ty::Bytes if r.below(400) == 0 => {
            let n = *r.pick(&[63usize, 64, 127, 128, 300, 8192]) + r.below(2);
            V::Y((0..n).map(|_| r.u64() as u8).collect())
        }
        Ty::Bytes => V::Y((0..r.below(6)).map(|_| r.u64() as u8).collect()),
        Ty::Uuid => V::Y((0..16).map(|_| r.u64() as u8).collect()),
        Ty::Fixed(n) => V::Y((0..*n).map(|_| r.u64() as u8).collect()),
        Ty::Enum(s) => V::S(r.pick(s).clone()),
        Ty::List(e, en) => {
            let n = if r.below(400) == 0 { *r.pick(&[63usize, 64, 65, 130]) } else { *r.pick(&[0usize, 0, 1, 2, 3, 5]) };
            V::L((0..n).map(|_| gen_val(r, e, *en)).collect())
        }
        Ty::Rec(f) => V::R(f.iter().map(|(_, t, n)| gen_val(r, t, *n)).collect()),
        Ty::Map(e) => {
            let n = r.below(3);
            V::M((0..n).map(|i| (format!("k{i}"), gen_val(r, e, false))).collect())
        }
        Ty::Decimal(p, _) => {
            let top = 10i128.pow(*p as u32) - 1;
            V::Dec(match r.below(6) {
                0 => top,
                1 => -top,
                2 => ((r.u64() as i128) << 62) % top,
                _ => r.range(-99999, 99999) as i128,
            })
        }
    }
}
