//! Reads Arrow files back as JSON rows, one list per batch.
use arrow::array::*;
use arrow::datatypes::*;
use serde_json::{Map, Value, json};

fn cell(a: &dyn Array, i: usize) -> Value {
    if a.is_null(i) {
        return Value::Null;
    }
    macro_rules! prim {
        ($t:ty) => {
            json!(a.as_any().downcast_ref::<PrimitiveArray<$t>>().expect("harness: array").value(i))
        };
    }
    match a.data_type() {
        DataType::Int8 => prim!(Int8Type),
        DataType::Int16 => prim!(Int16Type),
        DataType::Int32 => prim!(Int32Type),
        DataType::Int64 => prim!(Int64Type),
        DataType::UInt8 => prim!(UInt8Type),
        DataType::UInt16 => prim!(UInt16Type),
        DataType::UInt32 => prim!(UInt32Type),
        DataType::UInt64 => prim!(UInt64Type),
        DataType::Float32 => prim!(Float32Type),
        DataType::Float64 => prim!(Float64Type),
        DataType::Utf8 => json!(a.as_any().downcast_ref::<StringArray>().expect("harness: array").value(i)),
        DataType::LargeUtf8 => json!(a.as_any().downcast_ref::<LargeStringArray>().expect("harness: array").value(i)),
        DataType::Boolean => json!(a.as_any().downcast_ref::<BooleanArray>().expect("harness: array").value(i)),
        // as microseconds since the epoch
        DataType::Timestamp(u, _) => {
            let v: i128 = match u {
                TimeUnit::Second => a.as_any().downcast_ref::<TimestampSecondArray>().expect("harness: array").value(i) as i128 * 1_000_000_000,
                TimeUnit::Millisecond => a.as_any().downcast_ref::<TimestampMillisecondArray>().expect("harness: array").value(i) as i128 * 1_000_000,
                TimeUnit::Microsecond => a.as_any().downcast_ref::<TimestampMicrosecondArray>().expect("harness: array").value(i) as i128 * 1_000,
                TimeUnit::Nanosecond => a.as_any().downcast_ref::<TimestampNanosecondArray>().expect("harness: array").value(i) as i128,
            };
            json!({"ns": v.to_string()})
        }
        other => panic!("harness: column type {other:?}"),
    }
}

pub struct File {
    pub schema: Schema,
    pub batches: Vec<Vec<Value>>,
}

impl File {
    pub fn rows(&self) -> Vec<Value> {
        self.batches.iter().flatten().cloned().collect()
    }
}

pub fn read(path: &std::path::Path) -> Result<File, String> {
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let rd = arrow::ipc::reader::FileReader::try_new(f, None).map_err(|e| e.to_string())?;
    let schema = rd.schema().as_ref().clone();
    let mut batches = vec![];
    for b in rd {
        let b = b.map_err(|e| e.to_string())?;
        let mut rows = vec![];
        for i in 0..b.num_rows() {
            let mut m = Map::new();
            for (n, f) in b.schema().fields().iter().enumerate() {
                m.insert(f.name().clone(), cell(b.column(n).as_ref(), i));
            }
            rows.push(Value::Object(m));
        }
        batches.push(rows);
    }
    Ok(File { schema, batches })
}
