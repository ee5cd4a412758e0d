//! The JSON of the specification as layouts: the values that it made up.
use pasture_core::layout::*;
use serde_json::Value;

pub fn dt_of(v: &Value) -> PointAttributeDataType {
    let (t, n) = (v["t"].as_str().unwrap(), v["n"].as_u64().unwrap());
    match t {
        "ByteArray" => PointAttributeDataType::ByteArray(n),
        "Custom" => PointAttributeDataType::Custom { size: n, min_alignment: v["m"].as_u64().unwrap(), name: uuid::Uuid::from_u128(v["u"].as_u64().unwrap() as u128) },
        _ => *crate::types::PRIMS.iter().find(|d| format!("{d:?}") == t).unwrap_or_else(|| panic!("harness: no data type {t}")),
    }
}
pub fn def_of(v: &Value) -> PointAttributeDefinition { PointAttributeDefinition::custom(std::borrow::Cow::Owned(v["n"].as_str().unwrap().to_string()), dt_of(&v["d"])) }
pub fn defs_of(v: &Value) -> Vec<PointAttributeDefinition> { v.as_array().unwrap().iter().map(def_of).collect() }
pub fn prim_of(t: &str) -> PointAttributeDataType { dt_of(&serde_json::json!({"t": t, "n": 0})) }
/// A layout as the specification describes it: all members with their offsets.
pub fn layout_of(v: &Value) -> PointLayout {
    let ms: Vec<_> = v["attrs"].as_array().unwrap().iter().map(|m| def_of(m).at_offset_in_type(m["o"].as_u64().unwrap())).collect();
    PointLayout::from_members_and_alignment(&ms, v["align"].as_u64().unwrap())
}
