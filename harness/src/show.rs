//! Layouts as JSON, the way the specification sees them.
use pasture_core::layout::*;
use serde_json::{json, Value};

pub fn jdt(d: PointAttributeDataType) -> Value {
    match d {
        PointAttributeDataType::ByteArray(n) => json!({"t": "ByteArray", "n": n, "m": 0, "u": 0}),
        PointAttributeDataType::Custom { size, min_alignment, name } => json!({"t": "Custom", "n": size, "m": min_alignment, "u": name.as_u128() as u64}),
        d => json!({"t": format!("{d:?}"), "n": 0, "m": 0, "u": 0}),
    }
}
pub fn jdef(d: &PointAttributeDefinition) -> Value { json!({"n": d.name(), "d": jdt(d.datatype())}) }
pub fn jmem(m: &PointAttributeMember) -> Value { json!({"n": m.name(), "d": jdt(m.datatype()), "o": m.offset()}) }

/// The layout read back; the alignment is only visible in the serialized form.
pub fn jlay(l: &PointLayout) -> Value {
    let v = serde_json::to_value(l).unwrap();
    json!({"attrs": l.attributes().map(jmem).collect::<Vec<_>>(), "size": l.size_of_point_entry(), "align": v["memory_layout"]["align"]})
}
