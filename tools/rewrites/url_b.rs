pub fn from_str<T>(s: &str) -> Result<T>
where
    T: DeserializeOwned,
{
    let mut decoder = Decoder { rest: Some(s), fields: Map::new() };
    while let Some(pair) = decoder.next_pair() {
        decoder.add(pair)?;
    }
    let object = Value::from(decoder.fields);
    match serde_json::from_value::<T>(object) {
        Ok(value) => Ok(value),
        Err(e) => Err(Error::Message(e.to_string())),
    }
}

struct Decoder<'a> {
    rest: Option<&'a str>,
    fields: Map<String, Value>,
}

impl<'a> Decoder<'a> {
    fn next_pair(&mut self) -> Option<&'a str> {
        let text = self.rest.take()?;
        match text.split_once('&') {
            Some((pair, rest)) => {
                self.rest = Some(rest);
                Some(pair)
            }
            None => Some(text),
        }
    }

    fn add(&mut self, pair: &str) -> Result<()> {
        let Some((key, value)) = pair.split_once('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
        let key: String = percent_decode_str(key).decode_utf8_lossy().into();
        let text: String = percent_decode_str(value).decode_utf8_lossy().into();
        if self.fields.contains_key(&key) {
            return Err(Error::Message("duplicate field".to_string()));
        }
        let looks_nested = text.starts_with('{') || text.starts_with('[');
        let value = if looks_nested { serde_json::from_str(&text).ok() } else { None };
        self.fields.insert(key, value.unwrap_or(Value::String(text)));
        Ok(())
    }
}

