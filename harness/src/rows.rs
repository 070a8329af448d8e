//! Concrete columns of the test tables: values are a pure function of the
//! abstract row (partition, key, version, ordering value, sequence, copy), so
//! that whatever comes back can be checked in full.
use crate::rng::hash;
use apache_avro::types::Value as AV;
use arrow_array::builder::*;
use arrow_array::cast::AsArray;
use arrow_array::*;
use arrow_schema::{DataType, Field, Fields, Schema, SchemaRef, TimeUnit};
use serde_json::{json, Value as J};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Str,
    Int,
    Long,
    Float,
    Double,
    Bool,
    Bytes,
    Date,
    TsMicros,
    TsMillis,
    Decimal,
    List,
    Struct,
    TsNanos,
    TimeMillis,
    TimeMicros,
    Enum,
    Fixed,
    Uuid,
    ListBool,
    ListLong,
    ListStr,
    ListRec,
    ListList,
    ListListRec,
    Deep,
    ListFloat,
    ListDouble,
    Flat,
    ListFlat,
    Map,
    ListDate,
    ListBytes,
    RecDec,
    RecMap,
    LocalTs,
    FixedDec,
}
/// Kinds made of others.
pub const NESTED: [Kind; 13] = [
    Kind::List, Kind::Struct, Kind::ListBool, Kind::ListLong, Kind::ListStr, Kind::ListRec, Kind::ListList, Kind::ListListRec, Kind::Deep,
    Kind::ListFloat, Kind::ListDouble, Kind::Flat, Kind::ListFlat,
];
/// Kinds the reader may refuse in an Avro block.
pub const REFUSED: [Kind; 8] = [Kind::Decimal, Kind::LocalTs, Kind::FixedDec, Kind::Map, Kind::ListDate, Kind::ListBytes, Kind::RecDec, Kind::RecMap];
pub const RARE: [Kind; 6] = [Kind::TsNanos, Kind::TimeMillis, Kind::TimeMicros, Kind::Enum, Kind::Fixed, Kind::Uuid];

/// The shape of nested kinds.
#[derive(Clone, Debug)]
enum Ty {
    Int,
    Long,
    Bool,
    Str,
    P(Kind),
    List(Box<(Ty, bool)>), // elements, nullable
    Map(Box<(Ty, bool)>),  // from strings; a value is a list of (key, value)
    Rec(&'static str, Vec<(&'static str, Ty, bool)>),
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub kind: Kind,
    pub nullable: bool,
}

impl Col {
    /// The null variant comes last in the Avro union.
    fn null_last(&self) -> bool {
        self.nullable && ["c1", "c4", "c5"].contains(&self.name.as_str())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Str(String),
    Int(i32),
    Long(i64),
    Float(f32),
    Double(f64),
    Bool(bool),
    Bytes(Vec<u8>),
    Dec(i128),
    List(Vec<Val>),
    Rec(Vec<Val>),
}

pub const DEC_P: u8 = 10;
pub const DEC_S: i8 = 5;

impl Kind {
    pub fn data_type(&self) -> DataType {
        match self {
            Kind::Str => DataType::Utf8,
            Kind::Int => DataType::Int32,
            Kind::Long => DataType::Int64,
            Kind::Float => DataType::Float32,
            Kind::Double => DataType::Float64,
            Kind::Bool => DataType::Boolean,
            Kind::Bytes => DataType::Binary,
            Kind::Date => DataType::Date32,
            Kind::LocalTs | Kind::TsMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
            Kind::TsMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
            Kind::Decimal | Kind::FixedDec => DataType::Decimal128(DEC_P, DEC_S),
            Kind::TsNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
            Kind::TimeMillis => DataType::Time32(TimeUnit::Millisecond),
            Kind::TimeMicros => DataType::Time64(TimeUnit::Microsecond),
            Kind::Enum => DataType::Utf8,
            Kind::Fixed => DataType::FixedSizeBinary(5),
            Kind::Uuid => DataType::FixedSizeBinary(16),
            k => k.ty().data_type(),
        }
    }
    fn avro(&self, name: &str) -> J {
        match self {
            Kind::Str => json!("string"),
            Kind::Int => json!("int"),
            Kind::Long => json!("long"),
            Kind::Float => json!("float"),
            Kind::Double => json!("double"),
            Kind::Bool => json!("boolean"),
            Kind::Bytes => json!("bytes"),
            Kind::Date => json!({"type":"int","logicalType":"date"}),
            Kind::TsMicros => json!({"type":"long","logicalType":"timestamp-micros"}),
            Kind::TsMillis => json!({"type":"long","logicalType":"timestamp-millis"}),
            Kind::Decimal => {
                json!({"type":"bytes","logicalType":"decimal","precision":DEC_P,"scale":DEC_S})
            }
            Kind::LocalTs => json!({"type":"long","logicalType":"local-timestamp-micros"}),
            Kind::FixedDec => {
                json!({"type":"fixed","name":format!("{name}_fixed"),"size":5,"logicalType":"decimal","precision":DEC_P,"scale":DEC_S})
            }
            Kind::TsNanos => json!({"type":"long","logicalType":"timestamp-nanos"}),
            Kind::TimeMillis => json!({"type":"int","logicalType":"time-millis"}),
            Kind::TimeMicros => json!({"type":"long","logicalType":"time-micros"}),
            Kind::Enum => json!({"type":"enum","name":format!("{name}_enum"),"symbols":SYMBOLS}),
            Kind::Fixed => json!({"type":"fixed","name":format!("{name}_fixed"),"size":5}),
            Kind::Uuid => json!({"type":"string","logicalType":"uuid"}),
            k => k.ty().avro(name),
        }
    }
    fn ty(&self) -> Ty {
        let rec = || Ty::Rec("rec", vec![("s1", Ty::Str, false), ("s2", Ty::Int, true)]);
        let list = |t: Ty, n: bool| Ty::List(Box::new((t, n)));
        let map = |t: Ty, n: bool| Ty::Map(Box::new((t, n)));
        let flat = || {
            let p = Ty::P;
            Ty::Rec("flat", vec![
                ("f", p(Kind::Float), true), ("d", p(Kind::Double), false), ("l", Ty::Long, true), ("b", p(Kind::Bytes), true), ("dt", p(Kind::Date), true),
                ("tu", p(Kind::TsMicros), true), ("tm", p(Kind::TsMillis), false), ("e", p(Kind::Enum), true), ("x", p(Kind::Fixed), true), ("t", p(Kind::TimeMicros), true),
            ])
        };
        match self {
            Kind::List => list(Ty::Int, false),
            Kind::Struct => rec(),
            Kind::ListBool => list(Ty::Bool, true),
            Kind::ListLong => list(Ty::Long, true),
            Kind::ListStr => list(Ty::Str, true),
            Kind::ListRec => list(rec(), true),
            Kind::ListList => list(list(Ty::Int, true), true),
            Kind::ListListRec => list(list(rec(), false), true),
            Kind::Deep => Ty::Rec("deep", vec![("a", list(Ty::Str, false), true), ("b", rec(), true), ("c", Ty::Bool, false), ("d", list(rec(), false), true)]),
            Kind::ListFloat => list(Ty::P(Kind::Float), true),
            Kind::ListDouble => list(Ty::P(Kind::Double), true),
            Kind::Flat => flat(),
            Kind::ListFlat => list(flat(), true),
            Kind::Map => map(Ty::Long, true),
            Kind::ListDate => list(Ty::P(Kind::Date), true),
            Kind::ListBytes => list(Ty::P(Kind::Bytes), true),
            Kind::RecDec => Ty::Rec("dec", vec![("a", Ty::Int, true), ("b", Ty::P(Kind::Decimal), true)]),
            Kind::RecMap => Ty::Rec("withmap", vec![("a", Ty::Int, true), ("b", map(rec(), true), true)]),
            k => panic!("{k:?} is not nested"),
        }
    }
    /// A value of this kind derived from h.
    pub fn value(&self, h: u64) -> Val {
        match self {
            Kind::Str => Val::Str(match h % 5 {
                0 => String::new(),
                1 => format!("ü✓-{}", h % 9973),
                2 => "x".repeat((h % 300) as usize),
                _ => format!("v{}", h % 1000003),
            }),
            Kind::Int => Val::Int(match h % 6 {
                0 => i32::MIN,
                1 => i32::MAX,
                _ => h as i32,
            }),
            Kind::Long => Val::Long(match h % 6 {
                0 => i64::MIN,
                1 => i64::MAX,
                _ => h as i64,
            }),
            Kind::Float => Val::Float((h % 2000003) as f32 / 7.0 - 1000.0),
            Kind::Double => Val::Double((h % 2000000011) as f64 / 7.0 - 1000.0),
            Kind::Bool => Val::Bool(h % 2 == 0),
            Kind::Bytes => Val::Bytes(h.to_le_bytes()[..(h % 9) as usize].to_vec()),
            Kind::Date => Val::Int((h % 40000) as i32 - 5000),
            Kind::LocalTs | Kind::TsMicros | Kind::TsMillis => Val::Long((h % 4_000_000_000_000_000) as i64 - 1_000_000),
            Kind::Decimal | Kind::FixedDec => Val::Dec((h % 19_999_999_999) as i128 - 9_999_999_999),
            Kind::TsNanos => Val::Long(h as i64),
            Kind::TimeMillis => Val::Int((h % 86_400_000) as i32),
            Kind::TimeMicros => Val::Long((h % 86_400_000_000) as i64),
            Kind::Enum => Val::Str(SYMBOLS[(h % 4) as usize].into()),
            Kind::Fixed => Val::Bytes(h.to_le_bytes()[..5].to_vec()),
            Kind::Uuid => Val::Bytes([h.to_le_bytes(), hash(&[h as i64]).to_le_bytes()].concat()),
            k => k.ty().value(h),
        }
    }
}
const SYMBOLS: [&str; 4] = ["A", "b", "Ccc", "d_1"];

impl Ty {
    fn data_type(&self) -> DataType {
        match self {
            Ty::Int => DataType::Int32,
            Ty::Long => DataType::Int64,
            Ty::Bool => DataType::Boolean,
            Ty::Str => DataType::Utf8,
            Ty::P(k) => k.data_type(),
            Ty::Map(e) => DataType::Map(Arc::new(Field::new("key_value", DataType::Struct(entry_fields(e)), false)), false),
            Ty::List(e) => DataType::List(e.field()),
            Ty::Rec(_, f) => DataType::Struct(Fields::from(f.iter().map(|(n, t, o)| Field::new(*n, t.data_type(), *o)).collect::<Vec<_>>())),
        }
    }
    fn avro(&self, name: &str) -> J {
        let opt = |t: &Ty, o: bool, n: String| if o { json!(["null", t.avro(&n)]) } else { t.avro(&n) };
        match self {
            Ty::Int => json!("int"),
            Ty::Long => json!("long"),
            Ty::Bool => json!("boolean"),
            Ty::Str => json!("string"),
            Ty::P(k) => k.avro(name),
            Ty::Map(e) => json!({"type":"map","values":opt(&e.0, e.1, format!("{name}_v"))}),
            Ty::List(e) => json!({"type":"array","items":opt(&e.0, e.1, format!("{name}_e"))}),
            Ty::Rec(s, f) => json!({"type":"record","name":format!("{name}_{s}"),
                "fields":f.iter().map(|(n, t, o)| json!({"name":n,"type":opt(t, *o, format!("{name}_{n}"))})).collect::<Vec<_>>()}),
        }
    }
    fn value(&self, h: u64) -> Val {
        let opt = |t: &Ty, o: bool, i: u64| {
            let x = hash(&[h as i64, i as i64]);
            if o && x % 3 == 0 { Val::Null } else { t.value(x / 3) }
        };
        match self {
            Ty::Int => Val::Int(h as i32),
            Ty::Long => Val::Long(h as i64),
            Ty::Bool => Val::Bool(h % 2 == 0),
            Ty::Str => Val::Str(if h % 4 == 0 { String::new() } else { format!("s{}", h % 101) }),
            Ty::P(k) => k.value(h),
            Ty::Map(e) => Val::List((0..h % 4).map(|i| Val::Rec(vec![Val::Str(format!("m{i}")), opt(&e.0, e.1, i)])).collect()),
            Ty::List(e) => Val::List((0..h % 4).map(|i| opt(&e.0, e.1, i)).collect()),
            Ty::Rec(_, f) => Val::Rec(f.iter().enumerate().map(|(i, (_, t, o))| opt(t, *o, i as u64)).collect()),
        }
    }
    fn to_avro(&self, v: &Val) -> AV {
        let opt = |t: &Ty, o: bool, v: &Val| match (o, v) {
            (false, _) => t.to_avro(v),
            (true, Val::Null) => AV::Union(0, Box::new(AV::Null)),
            (true, _) => AV::Union(1, Box::new(t.to_avro(v))),
        };
        match (self, v) {
            (Ty::Int, Val::Int(i)) => AV::Int(*i),
            (Ty::Long, Val::Long(i)) => AV::Long(*i),
            (Ty::Bool, Val::Bool(i)) => AV::Boolean(*i),
            (Ty::Str, Val::Str(i)) => AV::String(i.clone()),
            (Ty::P(k), v) => plain_avro(*k, v),
            (Ty::Map(e), Val::List(l)) => AV::Map(
                l.iter()
                    .map(|x| match x {
                        Val::Rec(kv) => match &kv[0] {
                            Val::Str(k) => (k.clone(), opt(&e.0, e.1, &kv[1])),
                            k => panic!("key {k:?}"),
                        },
                        x => panic!("entry {x:?}"),
                    })
                    .collect(),
            ),
            (Ty::List(e), Val::List(l)) => AV::Array(l.iter().map(|x| opt(&e.0, e.1, x)).collect()),
            (Ty::Rec(_, f), Val::Rec(l)) => AV::Record(f.iter().zip(l).map(|((n, t, o), x)| (n.to_string(), opt(t, *o, x))).collect()),
            (t, v) => panic!("bad value {v:?} for {t:?}"),
        }
    }
    fn array(&self, vals: &[&Val]) -> ArrayRef {
        macro_rules! prim {
            ($a:ty, $p:pat => $x:expr) => {
                Arc::new(vals.iter().map(|v| match v { $p => Some($x), _ => None }).collect::<$a>()) as ArrayRef
            };
        }
        let nulls = || arrow::buffer::NullBuffer::from(vals.iter().map(|v| **v != Val::Null).collect::<Vec<_>>());
        match self {
            Ty::Int => prim!(Int32Array, Val::Int(i) => *i),
            Ty::Long => prim!(Int64Array, Val::Long(i) => *i),
            Ty::Bool => prim!(BooleanArray, Val::Bool(i) => *i),
            Ty::Str => prim!(StringArray, Val::Str(i) => i.clone()),
            Ty::P(k) => to_array(&Col { name: String::new(), kind: *k, nullable: true }, &vals.iter().map(|v| (*v).clone()).collect::<Vec<_>>()),
            Ty::Map(e) => {
                let none = vec![];
                let ls: Vec<&Vec<Val>> = vals.iter().map(|v| if let Val::List(l) = v { l } else { &none }).collect();
                let at = |i: usize| ls.iter().flat_map(|l| l.iter()).map(|x| if let Val::Rec(kv) = x { &kv[i] } else { panic!("entry {x:?}") }).collect::<Vec<_>>();
                let entries = StructArray::new(entry_fields(e), vec![Ty::Str.array(&at(0)), e.0.array(&at(1))], None);
                let DataType::Map(f, _) = self.data_type() else { unreachable!() };
                Arc::new(MapArray::new(f, arrow::buffer::OffsetBuffer::from_lengths(ls.iter().map(|l| l.len())), entries, Some(nulls()), false))
            }
            Ty::List(e) => {
                let none = vec![];
                let ls: Vec<&Vec<Val>> = vals.iter().map(|v| if let Val::List(l) = v { l } else { &none }).collect();
                let child = e.0.array(&ls.iter().flat_map(|l| l.iter()).collect::<Vec<_>>());
                Arc::new(ListArray::new(e.field(), arrow::buffer::OffsetBuffer::from_lengths(ls.iter().map(|l| l.len())), child, Some(nulls())))
            }
            Ty::Rec(_, f) => {
                // below null records: any value where null is not allowed
                let fill: Vec<Val> = f.iter().map(|(_, t, o)| if *o { Val::Null } else { t.value(1) }).collect();
                let cols = (0..f.len())
                    .map(|i| f[i].1.array(&vals.iter().map(|v| if let Val::Rec(l) = v { &l[i] } else { &fill[i] }).collect::<Vec<_>>()))
                    .collect();
                let DataType::Struct(fields) = self.data_type() else { unreachable!() };
                Arc::new(StructArray::new(fields, cols, Some(nulls())))
            }
        }
    }
}
fn entry_fields(e: &(Ty, bool)) -> Fields {
    Fields::from(vec![Field::new("key", DataType::Utf8, false), Field::new("value", e.0.data_type(), e.1)])
}
trait ElementField {
    fn field(&self) -> Arc<Field>;
}
impl ElementField for (Ty, bool) {
    fn field(&self) -> Arc<Field> {
        Arc::new(Field::new("element", self.0.data_type(), self.1))
    }
}

pub fn arrow_schema(cols: &[Col]) -> SchemaRef {
    Arc::new(Schema::new(
        cols.iter().map(|c| Field::new(&c.name, c.kind.data_type(), c.nullable)).collect::<Vec<_>>(),
    ))
}

pub fn avro_schema(cols: &[Col], name: &str) -> J {
    let fields: Vec<J> = cols
        .iter()
        .map(|c| {
            if c.null_last() {
                json!({"name":c.name,"type":[c.kind.avro(&c.name), "null"]})
            } else if c.nullable {
                json!({"name":c.name,"type":["null",c.kind.avro(&c.name)],"default":null})
            } else {
                json!({"name":c.name,"type":c.kind.avro(&c.name)})
            }
        })
        .collect();
    json!({"type":"record","name":name,"namespace":"hoodie.t","fields":fields})
}

fn plain_avro(kind: Kind, v: &Val) -> AV {
    match v {
        Val::Null => AV::Null,
        Val::Str(s) if kind != Kind::Enum => AV::String(s.clone()),
        Val::Int(i) if kind == Kind::Date => AV::Date(*i),
        Val::Int(i) if kind != Kind::TimeMillis => AV::Int(*i),
        Val::Long(i) if kind == Kind::TsMicros => AV::TimestampMicros(*i),
        Val::Long(i) if kind == Kind::TsNanos => AV::TimestampNanos(*i),
        Val::Long(i) if kind == Kind::TimeMicros => AV::TimeMicros(*i),
        Val::Int(i) => AV::TimeMillis(*i),
        Val::Str(s) => AV::Enum(SYMBOLS.iter().position(|x| x == s).unwrap() as u32, s.clone()),
        Val::Long(i) if kind == Kind::TsMillis => AV::TimestampMillis(*i),
        Val::Long(i) if kind == Kind::LocalTs => AV::LocalTimestampMicros(*i),
        Val::Long(i) => AV::Long(*i),
        Val::Float(f) => AV::Float(*f),
        Val::Double(f) => AV::Double(*f),
        Val::Bool(b) => AV::Boolean(*b),
        Val::Bytes(b) if kind == Kind::Fixed => AV::Fixed(5, b.clone()),
        Val::Bytes(b) if kind == Kind::Uuid => AV::Uuid(uuid::Uuid::from_slice(b).unwrap()),
        Val::Bytes(b) => AV::Bytes(b.clone()),
        Val::Dec(d) if kind == Kind::FixedDec => AV::Decimal(apache_avro::Decimal::from(d.to_be_bytes()[11..].to_vec())),
        Val::Dec(d) => AV::Decimal(apache_avro::Decimal::from(min_be(*d))),
        Val::List(_) | Val::Rec(_) => kind.ty().to_avro(v),
    }
}

pub fn to_avro(col: &Col, v: &Val) -> AV {
    let inner = plain_avro(col.kind, v);
    if col.null_last() {
        match inner {
            AV::Null => AV::Union(1, Box::new(AV::Null)),
            x => AV::Union(0, Box::new(x)),
        }
    } else if col.nullable {
        match inner {
            AV::Null => AV::Union(0, Box::new(AV::Null)),
            x => AV::Union(1, Box::new(x)),
        }
    } else {
        inner
    }
}

/// Minimal two's complement big-endian bytes.
fn min_be(d: i128) -> Vec<u8> {
    let b = d.to_be_bytes();
    let mut i = 0;
    while i < 15
        && ((b[i] == 0 && b[i + 1] & 0x80 == 0) || (b[i] == 0xff && b[i + 1] & 0x80 != 0))
    {
        i += 1;
    }
    b[i..].to_vec()
}

pub fn to_array(col: &Col, vals: &[Val]) -> ArrayRef {
    macro_rules! prim {
        ($b:expr, $pat:pat => $x:expr) => {{
            let mut b = $b;
            for v in vals {
                match v {
                    Val::Null => b.append_null(),
                    $pat => b.append_value($x),
                    o => panic!("bad value {o:?} for {col:?}"),
                }
            }
            Arc::new(b.finish()) as ArrayRef
        }};
    }
    match col.kind {
        Kind::Str => prim!(StringBuilder::new(), Val::Str(s) => s),
        Kind::Int => prim!(Int32Builder::new(), Val::Int(i) => *i),
        Kind::Long => prim!(Int64Builder::new(), Val::Long(i) => *i),
        Kind::Float => prim!(Float32Builder::new(), Val::Float(i) => *i),
        Kind::Double => prim!(Float64Builder::new(), Val::Double(i) => *i),
        Kind::Bool => prim!(BooleanBuilder::new(), Val::Bool(i) => *i),
        Kind::Bytes => prim!(BinaryBuilder::new(), Val::Bytes(i) => i),
        Kind::Date => prim!(Date32Builder::new(), Val::Int(i) => *i),
        Kind::LocalTs | Kind::TsMicros => prim!(TimestampMicrosecondBuilder::new(), Val::Long(i) => *i),
        Kind::TsMillis => prim!(TimestampMillisecondBuilder::new(), Val::Long(i) => *i),
        Kind::Decimal | Kind::FixedDec => prim!(
            Decimal128Builder::new().with_precision_and_scale(DEC_P, DEC_S).unwrap(),
            Val::Dec(i) => *i
        ),
        Kind::TsNanos => prim!(TimestampNanosecondBuilder::new(), Val::Long(i) => *i),
        Kind::TimeMillis => prim!(Time32MillisecondBuilder::new(), Val::Int(i) => *i),
        Kind::TimeMicros => prim!(Time64MicrosecondBuilder::new(), Val::Long(i) => *i),
        Kind::Enum => prim!(StringBuilder::new(), Val::Str(s) => s),
        Kind::Fixed | Kind::Uuid => {
            let DataType::FixedSizeBinary(n) = col.kind.data_type() else { unreachable!() };
            let mut b = FixedSizeBinaryBuilder::new(n);
            for v in vals {
                match v {
                    Val::Bytes(x) => b.append_value(x).unwrap(),
                    _ => b.append_null(),
                }
            }
            Arc::new(b.finish())
        }
        k => k.ty().array(&vals.iter().collect::<Vec<_>>()),
    }
}

/// Abstract row: partition, key, version, ordering value (-1 null), sequence.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ARow {
    pub p: i64,
    pub k: i64,
    pub v: i64,
    pub o: i64,
    pub q: i64,
}
impl ARow {
    pub fn payload(&self, col: &Col, ci: usize, copy: i64) -> Val {
        let h = hash(&[self.p, self.k, self.v, self.o, self.q, copy, ci as i64]);
        if col.nullable && h % 7 == 3 {
            Val::Null
        } else {
            col.kind.value(h / 7)
        }
    }
}

/// How a writer labels the types in its Parquet files: 0 the plain way, 1 as
/// Spark's row writer does (timestamps in UTC), 2 as Hudi's Avro writer does
/// (also elements named "array").
fn styled_type(t: &DataType, style: u8) -> DataType {
    let name = if style == 2 { "array" } else { "element" };
    let sub = |f: &Field, n: &str| Arc::new(Field::new(n, styled_type(f.data_type(), style), f.is_nullable()));
    match t {
        DataType::Timestamp(u, None) if style != PLAIN => DataType::Timestamp(*u, Some("UTC".into())),
        DataType::Timestamp(u, _) if style == PLAIN => DataType::Timestamp(*u, None),
        DataType::List(f) => DataType::List(sub(f, name)),
        DataType::Struct(fs) => DataType::Struct(fs.iter().map(|f| sub(f, f.name())).collect()),
        DataType::Map(f, o) => DataType::Map(sub(f, f.name()), *o),
        t => t.clone(),
    }
}
fn styled_array(a: &ArrayRef, t: &DataType) -> ArrayRef {
    let children = |fs: &Fields, s: &StructArray| StructArray::new(fs.clone(), s.columns().iter().zip(fs).map(|(c, f)| styled_array(c, f.data_type())).collect(), s.nulls().cloned());
    match t {
        DataType::Timestamp(_, _) => make_array(a.to_data().into_builder().data_type(t.clone()).build().unwrap()),
        DataType::List(f) => {
            let l = a.as_list::<i32>();
            Arc::new(ListArray::new(f.clone(), l.offsets().clone(), styled_array(l.values(), f.data_type()), l.nulls().cloned()))
        }
        DataType::Struct(fs) => Arc::new(children(fs, a.as_struct())),
        DataType::Map(f, o) => {
            let m = a.as_map();
            let DataType::Struct(fs) = f.data_type() else { unreachable!() };
            Arc::new(MapArray::new(f.clone(), m.offsets().clone(), children(fs, m.entries()), m.nulls().cloned(), *o))
        }
        _ => a.clone(),
    }
}
pub fn styled(b: RecordBatch, cols: &[Col], style: u8) -> RecordBatch {
    if style == 0 {
        return b;
    }
    let s = b.schema();
    let fields: Vec<Field> = s
        .fields()
        .iter()
        .zip(cols)
        .map(|(f, c)| if c.kind == Kind::LocalTs { f.as_ref().clone() } else { f.as_ref().clone().with_data_type(styled_type(f.data_type(), style)) })
        .collect();
    let arrays = fields.iter().zip(b.columns()).map(|(f, a)| styled_array(a, f.data_type())).collect();
    RecordBatch::try_new(Arc::new(Schema::new(fields)), arrays).unwrap()
}
const PLAIN: u8 = 0;
/// The column without labels, as it can be shown.
pub fn plain(a: &ArrayRef) -> ArrayRef {
    styled_array(a, &styled_type(a.data_type(), PLAIN))
}
