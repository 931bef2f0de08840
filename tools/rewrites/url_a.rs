pub fn from_str<T>(s: &str) -> Result<T>
where
    T: DeserializeOwned,
{
    let fields = s.split('&').map(field).try_fold(Map::new(), |mut fields, field| {
        let (key, value) = field?;
        match fields.entry(key) {
            Entry::Vacant(slot) => {
                slot.insert(value);
                Ok(fields)
            }
            Entry::Occupied(_) => Err(Error::Message("duplicate field".to_string())),
        }
    })?;
    T::deserialize(Value::Object(fields)).map_err(|e| Error::Message(e.to_string()))
}

fn field(pair: &str) -> Result<(String, Value)> {
    let (key, value) = pair
        .split_once('=')
        .ok_or_else(|| Error::Message(format!("expected `key=value`, found `{pair}`")))?;
    Ok((decode(key), nested(decode(value))))
}

fn decode(text: &str) -> String {
    percent_decode_str(text).decode_utf8_lossy().to_string()
}

// nested values are JSON objects or arrays
fn nested(text: String) -> Value {
    match text.chars().next() {
        Some('{' | '[') => match serde_json::from_str(&text) {
            Ok(value) => value,
            Err(_) => Value::String(text),
        },
        _ => text.into(),
    }
}

