//! Stand-in for facet-json: `facet::Value` as JSON.
use facet::{Facet, Value};
use serde_json::{Value as J, json};

#[derive(Debug, Clone, PartialEq)]
pub struct SerializeError(pub String);
#[derive(Debug, Clone, PartialEq)]
pub struct DeserializeError(pub String);
impl std::fmt::Display for SerializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SerializeError {}
impl std::fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DeserializeError {}

fn enc(v: &Value) -> J {
    match v {
        Value::Unit => J::Null,
        Value::Bool(b) => J::Bool(*b),
        Value::Num(n) => json!(n),
        Value::Str(s) => json!(s),
        Value::None => json!({"none": null}),
        Value::Some(x) => json!({"some": enc(x)}),
        Value::List(l) => J::Array(l.iter().map(enc).collect()),
        Value::Map(m) => json!({"map": m.iter().map(|(k, x)| json!([k, enc(x)])).collect::<Vec<_>>()}),
        Value::Variant(k, n, x) => json!({"variant": [k, n, enc(x)]}),
    }
}

fn dec(j: &J) -> Option<Value> {
    Some(match j {
        J::Null => Value::Unit,
        J::Bool(b) => Value::Bool(*b),
        J::Number(n) => Value::Num(n.as_u64()?),
        J::String(s) => Value::Str(s.clone()),
        J::Array(l) => Value::List(l.iter().map(dec).collect::<Option<_>>()?),
        J::Object(o) => {
            if o.contains_key("none") {
                Value::None
            } else if let Some(x) = o.get("some") {
                Value::Some(Box::new(dec(x)?))
            } else if let Some(m) = o.get("map") {
                let mut out = vec![];
                for p in m.as_array()? {
                    out.push((p.get(0)?.as_str()?.to_string(), dec(p.get(1)?)?));
                }
                Value::Map(out)
            } else {
                let v = o.get("variant")?;
                Value::Variant(
                    u32::try_from(v.get(0)?.as_u64()?).ok()?,
                    v.get(1)?.as_str()?.to_string(),
                    Box::new(dec(v.get(2)?)?),
                )
            }
        }
    })
}

pub fn to_string<T: Facet>(v: &T) -> Result<String, SerializeError> {
    Ok(enc(&v.to_value()).to_string())
}

pub fn from_str<T: Facet>(s: &str) -> Result<T, DeserializeError> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let j: J = serde::Deserialize::deserialize(&mut d).map_err(|e| DeserializeError(e.to_string()))?;
    d.end().map_err(|e| DeserializeError(e.to_string()))?;
    let v = dec(&j).ok_or_else(|| DeserializeError("malformed".into()))?;
    T::from_value(v).map_err(|e| DeserializeError(e.to_string()))
}
