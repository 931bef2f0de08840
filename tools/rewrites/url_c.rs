pub fn from_str<T>(s: &str) -> Result<T>
where
    T: DeserializeOwned,
{
    let pairs: Vec<(String, Value)> = s.split('&').map(parse_pair).collect::<Result<Vec<_>>>()?;
    let expected = pairs.len();
    let fields: Map<String, Value> = pairs.into_iter().collect();
    if fields.len() != expected {
        return Err(Error::Message("duplicate field".to_string()));
    }
    serde_json::from_value(fields.into()).map_err(|e| Error::Message(e.to_string()))
}

fn parse_pair(pair: &str) -> Result<(String, Value)> {
    let Some(at) = pair.find('=') else {
        return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
    };
    let key = unescape(&pair[..at]);
    let value = unescape(&pair[at + 1..]);
    let field = match value.as_bytes().first() {
        Some(b'{') | Some(b'[') => {
            serde_json::from_str::<Value>(&value).unwrap_or_else(|_| Value::String(value.clone()))
        }
        _ => Value::String(value),
    };
    Ok((key, field))
}

fn unescape(text: &str) -> String {
    percent_decode_str(text).decode_utf8_lossy().into_owned()
}

