"""Behaviour-preserving edits; every check must stay quiet on each.  Read by tools/refactor_run.py only."""
GEN, PK, SER, URL, CORE = ("crates/core/src/" + x for x in ("gen.rs", "pkce.rs", "urlencode/ser.rs", "urlencode.rs", "lib.rs"))
MAT, DIF = "crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs"
MP, MA, MT, MC, MO, ML = ("crates/macros/src/" + x + ".rs" for x in ("parse", "authorization", "token", "credential", "create_offer", "lib"))
REFACTORS = []
CK = {GEN: ["C01", "C02"], PK: ["C02"], SER: ["C03", "C04"], URL: ["C03", "C04", "C05"], CORE: ["C06"], MAT: ["C07", "C08", "C09", "C10"], DIF: ["C11", "C07"],
      MP: ["C12", "C13", "C14", "C15"], MA: ["C12", "C13", "C14", "C15"], MT: ["C12", "C13", "C14", "C15"], MC: ["C12", "C13", "C14", "C15"], MO: ["C12", "C13", "C14", "C15"], ML: ["C12", "C13", "C14", "C15"]}
def R(name, *edits, checks=None):
    cs = checks or sorted({c for f, _, _ in edits for c in CK.get(f, [])})
    if "C12" in cs and "C37" not in cs: cs = [*cs, "C37"]
    REFACTORS.append(dict(name=name, edits=list(edits), checks=cs))
ENC = '''    let rnd = random_string(STATE_LEN, SAFE_CHARS);
    Base64UrlUnpadded::encode_string(rnd.as_bytes())
'''
R("gen-helper", (GEN, ENC, "    state_string()\n"), (GEN, "/// Generates a use PIN", "fn state_string() -> String {\n" + ENC + "}\n\n/// Generates a use PIN"))
R("gen-loop-push", (GEN, '''    let chars: Vec<char> = charset.chars().collect();
    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let chars: Vec<char> = charset.chars().collect();
    let mut out = String::with_capacity(len);
    for _ in 0..len {
        let idx = fastrand::usize(..chars.len());
        out.push(chars[idx]);
    }
    out
'''))
R("gen-while", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let mut out = String::new();
    let mut n = 0;
    while n < len {
        out.push(chars[fastrand::usize(0..chars.len())]);
        n += 1;
    }
    out
'''))
R("gen-repeat-with", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    std::iter::repeat_with(|| chars[fastrand::usize(..chars.len())]).take(len).collect::<String>()
'''))
R("gen-choice", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    (0..len).filter_map(|_| fastrand::choice(&chars)).copied().collect()
'''))
R("gen-bytes", (GEN, '''    let chars: Vec<char> = charset.chars().collect();
    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let bytes = charset.as_bytes();
    (0..len).map(|_| char::from(bytes[fastrand::usize(..bytes.len())])).collect()
'''))
R("gen-nth", (GEN, '''    let chars: Vec<char> = charset.chars().collect();
    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let count = charset.chars().count();
    (0..len).filter_map(|_| charset.chars().nth(fastrand::usize(..count))).collect()
'''))
R("gen-const-slice", (GEN, 'const PIN_CHARS: &str = "0123456789";', 'const PIN_CHARS: &[u8] = b"0123456789";'), (GEN, "random_string(PIN_LEN, PIN_CHARS)", "random_bytes_string(PIN_LEN, PIN_CHARS)"),
  (GEN, "pub(crate) fn random_string(len: usize, charset: &str) -> String {\n    let chars: Vec<char> = charset.chars().collect();\n    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n}",
   "pub(crate) fn random_string(len: usize, charset: &str) -> String {\n    random_bytes_string(len, charset.as_bytes())\n}\nfn random_bytes_string(len: usize, charset: &[u8]) -> String {\n    (0..len).map(|_| charset[fastrand::usize(..charset.len())] as char).collect()\n}"))
R("gen-rng", (GEN, "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n", "    let mut rng = fastrand::Rng::new();\n    (0..len).map(|_| chars[rng.usize(..chars.len())]).collect()\n"))
R("gen-fold", (GEN, "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n", "    (0..len).fold(String::with_capacity(len), |mut acc, _| {\n        acc.push(chars[fastrand::usize(..chars.len())]);\n        acc\n    })\n"))
R("pkce-hasher", (PK, "    let hash = Sha256::digest(verifier.as_bytes());\n    Base64UrlUnpadded::encode_string(&hash)", "    let mut hasher = Sha256::new();\n    hasher.update(verifier.as_bytes());\n    let digest = hasher.finalize();\n    Base64UrlUnpadded::encode_string(digest.as_slice())"))
R("pkce-len", (PK, "fastrand::usize(MIN_LEN..=MAX_LEN)", "MIN_LEN + fastrand::usize(..=(MAX_LEN - MIN_LEN))"))
R("pkce-chain", (PK, "    let hash = Sha256::digest(verifier.as_bytes());\n    Base64UrlUnpadded::encode_string(&hash)", "    Base64UrlUnpadded::encode_string(&Sha256::new().chain_update(verifier).finalize())"))
# --- Quota / Kind
R("quota-matches", (CORE, '''        match self {
            Self::One(_) => true,
            Self::Many(_) => false,
        }''', "        matches!(self, Self::One(_))"), (CORE, '''        match self {
            Self::One(_) => false,
            Self::Many(_) => true,
        }''', "        !self.is_one()"))
R("quota-add-take", (CORE, '''        match self {
            Self::One(one) => {
                *self = Self::Many(vec![one.clone(), item]);
            }
            Self::Many(many) => {
                many.push(item);
            }
        }''', '''        let mut items = match std::mem::take(self) {
            Self::One(one) => vec![one],
            Self::Many(many) => many,
        };
        items.push(item);
        *self = Self::Many(items);'''))
R("quota-add-iflet", (CORE, '''        match self {
            Self::One(one) => {
                *self = Self::Many(vec![one.clone(), item]);
            }
            Self::Many(many) => {
                many.push(item);
            }
        }''', '''        if let Self::Many(many) = self {
            many.extend([item]);
            return;
        }
        if let Self::One(one) = self {
            let mut many = Vec::with_capacity(2);
            many.push(one.clone());
            many.push(item);
            *self = Self::Many(many);
        }'''))
R("quota-empty-len", (CORE, '''        match self {
            Self::One(_) => false,
            Self::Many(many) => many.is_empty(),
        }''', "        self.len() == 0"))
R("quota-slice", (CORE, '''        match self {
            Self::One(_) => 1,
            Self::Many(many) => many.len(),
        }''', "        self.as_slice().len()"), (CORE, '''    /// Returns the length of the quota.''', '''    fn as_slice(&self) -> &[T] {
        match self {
            Self::One(one) => std::slice::from_ref(one),
            Self::Many(many) => many,
        }
    }

    /// Returns the length of the quota.'''), (CORE, '''        match self {
            Self::One(_) => false,
            Self::Many(many) => many.is_empty(),
        }''', "        self.as_slice().is_empty()"))
# --- urlencode
R("ser-push", (SER, 'self.output += "&";', "self.output.push('&');"), (SER, 'self.output += ",";', "self.output.push(',');"), (SER, 'self.output += "=";', "self.output.push('=');"))
SEP = '''        if !self.output.ends_with('[') {
            self.output += ",";
        }
        value.serialize(&mut **self)
'''
R("ser-element-helper", (SER, SEP, "        self.element(value)\n"), (SER, "impl ser::Serializer for &mut Serializer {", '''impl Serializer {
    fn element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
''' + SEP.replace("&mut **self", "&mut *self") + '''    }
}

impl ser::Serializer for &mut Serializer {'''))
R("ser-delegate", (SER, '''        if self.level > TOP_LEVEL {
            if !self.output.ends_with('{') {
                self.output += ",";
            }
        } else if !self.output.is_empty() {
            self.output += "&";
        }

        key.serialize(&mut **self)?;
        if self.level > TOP_LEVEL {
            self.output += ":";
        } else {
            self.output += "=";
        }
        value.serialize(&mut **self)
''', '''        ser::SerializeMap::serialize_key(self, key)?;
        ser::SerializeMap::serialize_value(self, value)
'''))
R("ser-nested-fn", (SER, "self.level > TOP_LEVEL", "self.nested()"), (SER, "impl ser::Serializer for &mut Serializer {", '''impl Serializer {
    const fn nested(&self) -> bool {
        self.level > TOP_LEVEL
    }
}

impl ser::Serializer for &mut Serializer {'''))
R("ser-open-close", (SER, '''        self.level += 1;
        self.output += "[";
        Ok(self)''', '''        self.open("[");
        Ok(self)'''), (SER, '''        self.output += "]";
        self.level -= 1;
        Ok(())''', '''        self.close("]");
        Ok(())'''), (SER, "impl ser::Serializer for &mut Serializer {", '''impl Serializer {
    fn open(&mut self, bracket: &str) {
        self.level += 1;
        self.output.push_str(bracket);
    }

    fn close(&mut self, bracket: &str) {
        self.output.push_str(bracket);
        self.level -= 1;
    }
}

impl ser::Serializer for &mut Serializer {'''))
R("ser-match-level", (SER, '''        if self.level > TOP_LEVEL {
            // a string within a nested value is a JSON string
            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
        } else {
            self.output += &utf8_percent_encode(v, CONTENT).to_string();
        }
        Ok(())''', '''        let text = match self.level {
            0 | TOP_LEVEL => v.to_owned(),
            _ => serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?,
        };
        self.output.extend(utf8_percent_encode(&text, CONTENT));
        Ok(())'''))
R("ser-new", (SER, '''    let mut serializer = Serializer {
        output: String::new(),
        level: 0,
    };
    value.serialize(&mut serializer)?;

    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
    Ok(encoded)''', '''    let mut serializer = Serializer::default();
    value.serialize(&mut serializer)?;
    let Serializer { output, .. } = serializer;
    Ok(utf8_percent_encode(&output, UNRESERVED).collect())'''), (SER, "pub struct Serializer {", "#[derive(Default)]\npub struct Serializer {"))
R("ser-write", (SER, "self.output += &v.to_string();", 'write!(self.output, "{v}").map_err(|e| Error::Message(e.to_string()))?;'), (SER, "use percent_encoding::", "use std::fmt::Write;\n\nuse percent_encoding::"))
R("ser-bool-match", (SER, 'self.output += if v { "true" } else { "false" };', 'self.output.push_str(match v {\n            true => "true",\n            false => "false",\n        });'))
R("ser-newtype-format", (SER, '''        if self.level > TOP_LEVEL {
            self.output += "{";
            variant.serialize(&mut *self)?;
            self.output += ":";
            value.serialize(&mut *self)?;
            self.output += "}";
        } else {
            variant.serialize(&mut *self)?;
            self.output += "=";
            value.serialize(&mut *self)?;
        }
''', '''        let nested = self.level > TOP_LEVEL;
        let (open, sep, close) = if nested { ("{", ":", "}") } else { ("", "=", "") };
        self.output += open;
        variant.serialize(&mut *self)?;
        self.output += sep;
        value.serialize(&mut *self)?;
        self.output += close;
'''))
R("ser-seq-bytes", (SER, '''        use serde::ser::SerializeSeq;
        let mut seq = self.serialize_seq(Some(v.len()))?;
        for byte in v {
            seq.serialize_element(byte)?;
        }
        seq.end()''', '''        use serde::ser::SerializeSeq;
        let mut seq = self.serialize_seq(Some(v.len()))?;
        v.iter().try_for_each(|byte| seq.serialize_element(byte))?;
        seq.end()'''))
R("url-helper", (URL, '''        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
''', '''        let (key, value) = (decode(key), decode(value));
'''), (URL, "#[cfg(test)]", "fn decode(s: &str) -> String {\n    percent_decode_str(s).decode_utf8_lossy().to_string()\n}\n\n#[cfg(test)]"))
R("url-parse-helper", (URL, '''        let field = if value.starts_with(['{', '[']) {
            serde_json::from_str(&value).unwrap_or(Value::String(value))
        } else {
            Value::String(value)
        };
''', '''        let field = parse_value(value);
'''), (URL, "#[cfg(test)]", '''fn parse_value(value: String) -> Value {
    if value.starts_with('{') || value.starts_with('[') {
        if let Ok(nested) = serde_json::from_str::<Value>(&value) {
            return nested;
        }
    }
    Value::String(value)
}

#[cfg(test)]'''))
R("url-contains", (URL, '''        if fields.insert(key, field).is_some() {
            return Err(Error::Message("duplicate field".to_string()));
        }
''', '''        if fields.contains_key(&key) {
            return Err(Error::Message("duplicate field".to_string()));
        }
        fields.insert(key, field);
'''))
R("url-try-fold", (URL, '''    let mut fields = Map::new();
''', ""), (URL, '''    for pair in s.split('&') {
        let Some((key, value)) = pair.split_once('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
''', '''    let fields = s.split('&').try_fold(Map::new(), |mut fields, pair| {
        let (key, value) = pair
            .split_once('=')
            .ok_or_else(|| Error::Message(format!("expected `key=value`, found `{pair}`")))?;
'''), (URL, '''            return Err(Error::Message("duplicate field".to_string()));
        }
    }
''', '''            return Err(Error::Message("duplicate field".to_string()));
        }
        Ok(fields)
    })?;
'''))
R("url-entry", (URL, '''        if fields.insert(key, field).is_some() {
            return Err(Error::Message("duplicate field".to_string()));
        }
''', '''        match fields.entry(key) {
            serde_json::map::Entry::Vacant(slot) => {
                slot.insert(field);
            }
            serde_json::map::Entry::Occupied(_) => {
                return Err(Error::Message("duplicate field".to_string()));
            }
        }
'''))
R("url-find", (URL, '''        let Some((key, value)) = pair.split_once('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
''', '''        let mut parts = pair.splitn(2, '=');
        let (Some(key), Some(value)) = (parts.next(), parts.next()) else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
'''))
R("url-match", (URL, '''        let field = if value.starts_with(['{', '[']) {
            serde_json::from_str(&value).unwrap_or(Value::String(value))
        } else {
            Value::String(value)
        };
''', '''        let field = match value.chars().next() {
            Some('{' | '[') => match serde_json::from_str(&value) {
                Ok(nested) => nested,
                Err(_) => Value::String(value),
            },
            _ => Value::String(value),
        };
'''))
# --- matcher
R("mat-any-all", (MAT, '''        // EVERY field must match
        for field in fields {
            // if no match AND the field is not optional, constraints are not satisfied
            // (when the field is present, its value must match even if optional)
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
        }

        // all fields match
        Ok(true)
''', '''        // EVERY field must match
        fields.iter().try_fold(true, |all, field| {
            if !all {
                return Ok(false);
            }
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            Ok(field.matched(&vc_val)? || optional)
        })
'''))
R("mat-field-helper", (MAT, '''            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
''', '''            if !field.satisfied(&vc_val)? {
                return Ok(false);
            }
'''), (MAT, "impl Field {\n", '''impl Field {
    fn satisfied(&self, vc: &Value) -> Result<bool> {
        if self.matched(vc)? {
            return Ok(true);
        }
        Ok(self.optional == Some(true) && !self.present(vc))
    }

'''))
R("mat-map-err", (MAT, '''        let Ok(vc_val) = claims.to_json() else {
            return Err(anyhow!("error serializing credential"));
        };
''', '''        let vc_val = claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;
'''), (MAT, '''            let Ok(jpath) = JsonPath::parse(path) else {
                return Err(anyhow!("Invalid JSONPath: {path}"));
            };
            let nodes = jpath.query(vc).all();
''', '''            let jpath = JsonPath::parse(path).map_err(|_| anyhow!("Invalid JSONPath: {path}"))?;
            let nodes = jpath.query(vc);
'''), (MAT, "nodes.into_iter().next()", "nodes.iter().next()"))
R("mat-first", (MAT, '''            // no matches: try next path
            if nodes.is_empty() {
                continue;
            }
''', '''            // no matches: try next path
            let Some(node) = nodes.first() else {
                continue;
            };
'''), (MAT, '''            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            if filter.value.matched(node)? {
                return Ok(true);
            }
'''))
R("mat-filter-split", (MAT, '''            Self::Const(_) => match_const(self, vc_node),
            Self::Pattern(_) => match_pattern(self, vc_node),
            Self::Format(_) => match_format(self, vc_node),
''', '''            Self::Const(value) => match_const(value, vc_node),
            Self::Pattern(pattern) => match_pattern(pattern, vc_node),
            Self::Format(format) => match_format(format, vc_node),
'''), (MAT, '''fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
    let FilterValue::Const(const_str) = filter_val else {
        return Err(anyhow!("unexpected filter"));
    };
    let Ok(const_val) = serde_json::to_value(const_str) else {
        return Err(anyhow!("issue serializing match criteria"));
    };
''', '''fn match_const(const_str: &str, vc_node: &Value) -> Result<bool> {
    let const_val = Value::String(const_str.to_string());
'''), (MAT, '''fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
    let FilterValue::Pattern(pattern) = filter_val else {
        return Err(anyhow!("unexpected filter"));
    };
''', '''fn match_pattern(pattern: &str, vc_node: &Value) -> Result<bool> {
'''), (MAT, '''fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
    let FilterValue::Format(format) = filter_val else {
        return Err(anyhow!("unexpected filter"));
    };

    match format.as_str() {''', '''fn match_format(format: &str, vc_node: &Value) -> Result<bool> {
    match format {'''))
R("mat-const-any", (MAT, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", "Value::Array(arr_node) => Ok(arr_node.iter().any(|item| *item == const_val)),"),
  (MAT, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", 'Value::Number(num_node) => Ok(format!("{num_node}") == *const_str),'))
R("mat-format-let", (MAT, '''        "date" => match vc_node {
            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
            _ => Ok(false),
        },
        "date-time" => match vc_node {
            Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
            _ => Ok(false),
        },
''', '''        "date" => Ok(vc_node.as_str().is_some_and(|s| NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok())),
        "date-time" => {
            let Some(text) = vc_node.as_str() else {
                return Ok(false);
            };
            Ok(DateTime::parse_from_rfc3339(text).is_ok())
        }
'''))
R("mat-pattern-helper", (MAT, '''    match vc_node {
        Value::Array(arr_node) => {
            Ok(arr_node.iter().filter_map(Value::as_str).any(|str_node| re.is_match(str_node)))
        }
        Value::String(str_node) => Ok(re.is_match(str_node)),
        Value::Number(num_node) => Ok(re.is_match(&num_node.to_string())),
        Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),
    }
''', '''    let hit = |text: &str| re.find(text).is_some();
    let matched = match vc_node {
        Value::String(text) => hit(text),
        Value::Number(number) => hit(&number.to_string()),
        Value::Array(items) => {
            let mut found = false;
            for item in items {
                if let Value::String(text) = item {
                    if hit(text) {
                        found = true;
                        break;
                    }
                }
            }
            found
        }
        _ => false,
    };
    Ok(matched)
'''))
R("mat-present-loop", (MAT, '''        self.path
            .iter()
            .filter_map(|path| JsonPath::parse(path).ok())
            .any(|jpath| !jpath.query(vc).all().is_empty())
''', '''        for path in &self.path {
            if let Ok(jpath) = JsonPath::parse(path) {
                if jpath.query(vc).len() > 0 {
                    return true;
                }
            }
        }
        false
'''))
R("mat-query-helper", (MAT, '''            let Ok(jpath) = JsonPath::parse(path) else {
                return Err(anyhow!("Invalid JSONPath: {path}"));
            };
            let nodes = jpath.query(vc).all();
''', '''            let nodes = select(path, vc)?;
'''), (MAT, "impl FilterValue {\n", '''fn select<'a>(path: &str, vc: &'a Value) -> Result<Vec<&'a Value>> {
    match JsonPath::parse(path) {
        Ok(jpath) => Ok(jpath.query(vc).all()),
        Err(_) => Err(anyhow!("Invalid JSONPath: {path}")),
    }
}

impl FilterValue {
'''))
# --- wire types
R("dif-helper-fromstr", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)", "        let submission: Self = serde_json::from_str(s).map_err(anyhow::Error::from)?;\n        Ok(submission)"))
R("dif-default-attr", (DIF, '''    #[serde(skip_serializing_if = "Option::is_none")]''', '''    #[serde(default, skip_serializing_if = "Option::is_none")]'''))
R("dif-rename", (DIF, '''#[serde(rename_all = "snake_case")]
pub enum FilterValue {''', "pub enum FilterValue {"), (DIF, "    Const(String),", '    #[serde(rename = "const")]\n    Const(String),'), (DIF, "    Pattern(String),", '    #[serde(rename = "pattern")]\n    Pattern(String),'), (DIF, "    Format(String),", '    #[serde(rename = "format")]\n    Format(String),'))
R("dif-reorder", (DIF, '''    pub limit_disclosure: Option<String>,''', '''    pub limit_disclosure: Option<String>, // moved'''))
# --- macros
R("mac-get-closure", (MA, '''    let authorization_details = if let Some(details) = input.get("authorization_details") {
        let authorization_details = authorization_details(&details)?;
        quote! {Some(#authorization_details)}
    } else {
        quote! {None}
    };
''', '''    let authorization_details = match input.get("authorization_details") {
        Some(details) => {
            let details = authorization_details(&details)?;
            quote! {Some(#details)}
        }
        None => quote! {None},
    };
'''))
R("mac-details-collect", (MT, '''    let mut tokens = TokenStream::new();

    for detail in details {
''', '''    let tokens = details.iter().map(|detail| {
'''), (MT, '''        tokens.extend(quote! {
            #path::AuthorizationDetail {
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #configuration,
                locations: None
            },
        });
    }

    Ok(quote! {vec![#tokens]})
''', '''        Ok(quote! {
            #path::AuthorizationDetail {
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #configuration,
                locations: None
            }
        })
    }).collect::<Result<Vec<_>>>()?;

    Ok(quote! {vec![#(#tokens),*]})
'''))
R("mac-expect-ok-or", (MP, '''        let Some(v) = self.fields.remove(key) else {
            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
        };
        Ok(Value::Tokens(quote! {Into::into(#v)}))
''', '''        let v = self
            .get(key)
            .ok_or_else(|| Error::new(Span::call_site(), format!("`{key}` is not set")))?;
        Ok(Value::Tokens(quote! {#v.into()}))
'''))
R("mac-consumed", (MP, '''        if !self.fields.is_empty() {
            let keys = self.fields.keys().map(|k| format!("`{k}`")).collect::<Vec<_>>().join(", ");
            return Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")));
        }
        Ok(())
''', '''        if self.fields.is_empty() {
            return Ok(());
        }
        let mut keys: Vec<_> = self.fields.keys().map(|k| format!("`{k}`")).collect();
        keys.sort();
        Err(Error::new(Span::call_site(), format!("unexpected field(s): {}", keys.join(", "))))
'''))
R("mac-field-parse", (MP, '''        let lhs = input.parse::<syn::LitStr>()?;
        // chomp colon
        input.parse::<token::Colon>()?;

        Ok(Self {
            lhs: lhs.value(),
            rhs: input.parse::<Value>()?,
        })
''', '''        let lhs: syn::LitStr = input.parse()?;
        let _: syn::Token![:] = input.parse()?;
        let rhs = Value::parse(input)?;

        Ok(Self { lhs: lhs.value(), rhs })
'''))
R("mac-object-helper", (MP, '''        let mut json = Self::default();

        // content should be wrapped in braces
        if !input.peek(token::Brace) {
            return Err(input.error("expected JSON object"));
        }

        let content;
        braced!(content in input);

        // parse key-value pairs into fields
        let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
        for field in fields.into_pairs() {
            let field = field.into_value();
            if json.fields.insert(field.lhs, field.rhs).is_some() {
                return Err(content.error("duplicate field"));
            }
        }

        Ok(json)
''', '''        if !input.peek(token::Brace) {
            return Err(input.error("expected JSON object"));
        }
        Ok(Self { fields: object(input)? })
'''), (MP, '''            // parse object
            let mut data = HashMap::new();
            let content;
            braced!(content in input);
            let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
            for field in fields.into_pairs() {
                let field = field.into_value();
                if data.insert(field.lhs, field.rhs).is_some() {
                    return Err(content.error("duplicate field"));
                }
            }
            Self::Object(data)
''', '''            Self::Object(object(input)?)
'''), (MP, "impl Parse for Field {", '''fn object(input: ParseStream) -> Result<HashMap<String, Value>> {
    let mut data = HashMap::new();
    let content;
    braced!(content in input);
    for Field { lhs, rhs } in content.parse_terminated(Field::parse, token::Comma)? {
        if data.insert(lhs, rhs).is_some() {
            return Err(content.error("duplicate field"));
        }
    }
    Ok(data)
}

impl Parse for Field {'''))
R("mac-array-collect", (MP, "            let values = items.into_pairs().map(Pair::into_value).collect();\n", "            let values = items.into_iter().collect::<Vec<_>>();\n"), (MP, "use syn::punctuated::{Pair, Punctuated};", "use syn::punctuated::Punctuated;"))
R("mac-totokens", (MP, '''                let values = a.iter().map(|v| {
                    let mut tokens = TokenStream::new();
                    v.to_tokens(&mut tokens);
                    tokens
                });
                tokens.extend(quote! { vec![#(#values),*] });
''', '''                tokens.extend(quote! { vec![#(#a),*] });
'''), (MP, "Self::String(s) => tokens.extend(quote! { #s.to_string() }),", "Self::String(s) => quote! { #s.to_string() }.to_tokens(tokens),"))
R("mac-grant-match", (MT, '''    let grant_type =
        if grant_type.as_str() == Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") {
            pre_authorized_code(&mut input)?
        } else if grant_type.as_str() == Some("authorization_code") {
            authorization_code(&mut input)?
        } else {
            return Err(Error::new(Span::call_site(), "unknown `grant_type`"));
        };
''', '''    let grant_type = match grant_type.as_str() {
        Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") => pre_authorized_code(&mut input)?,
        Some("authorization_code") => authorization_code(&mut input)?,
        _ => return Err(Error::new(Span::call_site(), "unknown `grant_type`")),
    };
'''))
R("mac-grants-map", (MO, '''        let mut tokens = TokenStream::new();

        let Some(gts)''', '''        let Some(gts)'''), (MO, '''        for gt in gts {
            let Some(gt) = gt.as_str() else {
                return Err(Error::new(span, "`grant_types` must be strings"));
            };
            match gt {
                "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                }
                "authorization_code" => {
                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                }
                _ => {
                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                }
            }
        }
        Ok(quote! {Some(vec![#tokens])})
''', '''        let grants = gts
            .iter()
            .map(|gt| match gt.as_str() {
                Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") => {
                    Ok(quote! {#path::GrantType::PreAuthorizedCode})
                }
                Some("authorization_code") => Ok(quote! {#path::GrantType::AuthorizationCode}),
                Some(gt) => Err(Error::new(span, format!("unsupported grant type: {gt}"))),
                None => Err(Error::new(span, "`grant_types` must be strings")),
            })
            .collect::<Result<Vec<TokenStream>>>()?;
        Ok(quote! {Some(vec![#(#grants),*])})
'''))
R("mac-claims-loop", (MA, '''    let claims = claimset.iter().map(|(k, v)| {
        if let Some(nested) = v.as_object()
            && !nested.is_empty()
        {
            let claims = claims(nested);
            quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
        } else {
            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
        }
    });
''', '''    let mut entries = Vec::with_capacity(claimset.len());
    for (k, v) in claimset {
        let entry = match v.as_object() {
            Some(nested) if !nested.is_empty() => {
                let claims = claims(nested);
                quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
            }
            _ => quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))},
        };
        entries.push(entry);
    }
    let claims = entries;
'''))
R("mac-proof-early", (MC, '''    if let Some(p) = input.get("proof") {
        let Some(proof) = p.as_object() else {
            return Err(Error::new(span, "`proof` must be an object"));
        };

        if let Some(proof_type) = proof.get("proof_type") {
            if proof_type.as_str() != Some("jwt") {
                return Err(Error::new(span, "`proof_type` must be `jwt`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }

        let Some(jwt) = proof.get("jwt") else {
            return Err(Error::new(span, "`jwt` is not set"));
        };

        return Ok(quote! {
            Some(#path::Proof::Single{
                proof_type: #path::SingleProof::Jwt{
                    jwt: #jwt.into(),
                },
            })
        });
    }

    Ok(quote! {None})
''', '''    let Some(p) = input.get("proof") else {
        return Ok(quote! {None});
    };
    let proof = p.as_object().ok_or_else(|| Error::new(span, "`proof` must be an object"))?;

    match proof.get("proof_type").map(Value::as_str) {
        Some(Some("jwt")) => {}
        Some(_) => return Err(Error::new(span, "`proof_type` must be `jwt`")),
        None => return Err(Error::new(span, "`type` is not set")),
    }
    let jwt = proof.get("jwt").ok_or_else(|| Error::new(span, "`jwt` is not set"))?;

    Ok(quote! {
        Some(#path::Proof::Single { proof_type: #path::SingleProof::Jwt { jwt: #jwt.into() } })
    })
'''))
R("mac-reorder", (MA, '''    let credential_issuer = input.expect("credential_issuer")?;
    let response_type = input.expect("response_type")?;
    let client_id = input.expect("client_id")?;
''', '''    let client_id = input.expect("client_id")?;
    let response_type = input.expect("response_type")?;
    let credential_issuer = input.expect("credential_issuer")?;
'''), (MA, "            state: #state,\n", ""), (MA, "            issuer_state: #issuer_state,\n", "            issuer_state: #issuer_state,\n            state: #state,\n"))
R("mac-option-match", (MP, '''        self.fields.remove(key).map_or_else(
            || Value::Tokens(quote! {None}),
            |v: Value| Value::Tokens(quote! {Some(#v.into())}),
        )
''', '''        let tokens = match self.get(key) {
            Some(v) => quote! {Some(#v.into())},
            None => quote! {None},
        };
        Value::Tokens(tokens)
'''))
R("mac-ids-match", (MO, '''    let Some(credential_configuration_ids) = input.get("credential_configuration_ids") else {
        return Err(Error::new(span, "`credential_configuration_ids` is not set"));
    };
    let Some(ids) = &credential_configuration_ids.as_array() else {
        return Err(Error::new(span, "`credential_configuration_ids` must be an array"));
    };
    if ids.is_empty() {
        return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
    }
''', '''    let credential_configuration_ids = match input.get("credential_configuration_ids") {
        Some(Value::Array(ids)) if ids.is_empty() => {
            return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
        }
        Some(ids @ Value::Array(_)) => ids,
        Some(_) => return Err(Error::new(span, "`credential_configuration_ids` must be an array")),
        None => return Err(Error::new(span, "`credential_configuration_ids` is not set")),
    };
'''))
R("mac-lib-helper", (ML, '''    create_offer::request(&parse_macro_input!(input as Json))
        .unwrap_or_else(Error::into_compile_error)
        .into()
''', '''    match create_offer::request(&parse_macro_input!(input as Json)) {
        Ok(tokens) => tokens.into(),
        Err(e) => e.to_compile_error().into(),
    }
'''), (ML, '''    token::request(&parse_macro_input!(input as Json))
        .unwrap_or_else(Error::into_compile_error)
        .into()
''', '''    let json = parse_macro_input!(input as Json);
    expand(token::request(&json))
'''), (ML, "use parse::Json;", "use parse::Json;\nfn expand(result: syn::Result<proc_macro2::TokenStream>) -> TokenStream {\n    result.unwrap_or_else(|e| e.to_compile_error()).into()\n}"))
R("mac-by-value", (MT, "pub fn request(input: &Json) -> Result<TokenStream> {\n", "pub fn request(mut input: Json) -> Result<TokenStream> {\n"), (MT, "    let mut input = input.clone();\n", ""), (ML, "token::request(&parse_macro_input!(input as Json))", "token::request(parse_macro_input!(input as Json))"))
R("mac-btreemap", (MP, "use std::collections::HashMap;", "use std::collections::BTreeMap;"), (MP, "HashMap", "BTreeMap"), (MA, "use std::collections::HashMap;", "use std::collections::BTreeMap;"), (MA, "&HashMap<", "&BTreeMap<"), (MT, "use std::collections::HashMap;", "use std::collections::BTreeMap;"), (MT, "&HashMap<", "&BTreeMap<"))
R("mac-type-check-fn", (MA, '''        if let Some(type_) = detail.get("type") {
            if let Some(t) = type_.as_str()
                && t != "openid_credential"
            {
                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''        check_type(detail)?;
'''), (MA, "fn credential_authorization(", '''fn check_type(detail: &HashMap<String, Value>) -> Result<()> {
    let span = Span::call_site();
    let type_ = detail.get("type").ok_or_else(|| Error::new(span, "`type` is not set"))?;
    match type_.as_str() {
        Some(t) if t != "openid_credential" => {
            Err(Error::new(span, "`type` must be `openid_credential`"))
        }
        _ => Ok(()),
    }
}

fn credential_authorization('''))

R("gen-digit", (GEN, "    random_string(PIN_LEN, PIN_CHARS)\n", "    (0..PIN_LEN).map(|_| fastrand::digit(10)).collect()\n"), (GEN, 'const PIN_CHARS: &str = "0123456789";\n', ""))
R("gen-vec-collect", (GEN, "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n", "    let mut picked: Vec<char> = Vec::with_capacity(len);\n    picked.resize_with(len, || chars[fastrand::usize(..chars.len())]);\n    picked.into_iter().collect()\n"))
R("gen-from-utf8", (GEN, """    let chars: Vec<char> = charset.chars().collect();
    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
""", """    let bytes = charset.as_bytes();
    let picked: Vec<u8> = (0..len).map(|_| bytes[fastrand::usize(..bytes.len())]).collect();
    String::from_utf8_lossy(&picked).into_owned()
"""))

# ------------------------------------------------------------------ second batch
RS = '''    let chars: Vec<char> = charset.chars().collect();
    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
'''
R("gen2-macro", (GEN, '''#[must_use]
pub fn auth_code() -> String {
    let rnd = random_string(STATE_LEN, SAFE_CHARS);
    Base64UrlUnpadded::encode_string(rnd.as_bytes())
}
''', '''#[must_use]
pub fn auth_code() -> String {
    encoded(STATE_LEN)
}

fn encoded(len: usize) -> String {
    let text = random_string(len, SAFE_CHARS);
    let bytes: &[u8] = text.as_ref();
    Base64UrlUnpadded::encode_string(bytes)
}
'''))
R("gen2-iter-fold-str", (GEN, RS, '''    let chars = charset.chars().collect::<Vec<_>>();
    let count = chars.len();
    let pick = || chars[fastrand::usize(0..count)];
    let mut text = String::with_capacity(len);
    for _ in 0..len {
        text.push(pick());
    }
    text
'''))
R("gen2-extend", (GEN, RS, '''    let chars: Vec<char> = charset.chars().collect();
    let mut text = String::new();
    text.extend((0..len).map(|_| chars[fastrand::usize(..chars.len())]));
    text
'''))
R("gen2-choice-fn", (GEN, RS, '''    let chars: Vec<char> = charset.chars().collect();
    std::iter::from_fn(|| Some(pick(&chars))).take(len).collect()
}

fn pick(chars: &[char]) -> char {
    let index = fastrand::usize(..chars.len());
    chars[index]
'''))
R("gen2-bytes-u8", (GEN, RS, '''    let alphabet = charset.as_bytes();
    (0..len).map(|_| alphabet[fastrand::usize(..alphabet.len())] as char).collect()
'''))
R("gen2-push-format", (GEN, RS, '''    let chars: Vec<char> = charset.chars().collect();
    let mut text = String::new();
    while text.len() < len {
        text.push(chars[fastrand::usize(..chars.len())]);
    }
    text
'''))
R("gen2-rec", (GEN, "    random_string(PIN_LEN, PIN_CHARS)\n", '''    let pin = random_string(PIN_LEN, PIN_CHARS);
    debug_assert_eq!(pin.len(), PIN_LEN);
    pin
'''))
R("gen2-const-inline", (GEN, "random_string(PIN_LEN, PIN_CHARS)", 'random_string(6, "0123456789")'))
R("pk2-fold", (PK, '''    let hash = Sha256::digest(verifier.as_bytes());
    Base64UrlUnpadded::encode_string(&hash)
''', '''    let digest: [u8; 32] = Sha256::digest(verifier).into();
    Base64UrlUnpadded::encode_string(&digest[..])
'''))
R("pk2-helper", (PK, '''    let hash = Sha256::digest(verifier.as_bytes());
    Base64UrlUnpadded::encode_string(&hash)
''', '''    encode(&sha256(verifier))
}

fn sha256(text: &str) -> Vec<u8> {
    Sha256::digest(text.as_bytes()).to_vec()
}

fn encode(bytes: &[u8]) -> String {
    Base64UrlUnpadded::encode_string(bytes)
'''))
R("pk2-range", (PK, "    let len = fastrand::usize(MIN_LEN..=MAX_LEN);\n", "    let len = MIN_LEN + fastrand::usize(..=MAX_LEN - MIN_LEN);\n"))
R("core2-add-replace", (CORE, '''        match self {
            Self::One(one) => {
                *self = Self::Many(vec![one.clone(), item]);
            }
            Self::Many(many) => {
                many.push(item);
            }
        }
''', '''        let existing = std::mem::take(self);
        *self = match existing {
            Self::One(one) => Self::Many(vec![one, item]),
            Self::Many(mut many) => {
                many.push(item);
                Self::Many(many)
            }
        };
'''))
R("core2-add-into-vec", (CORE, '''        match self {
            Self::One(one) => {
                *self = Self::Many(vec![one.clone(), item]);
            }
            Self::Many(many) => {
                many.push(item);
            }
        }
''', '''        let mut all = match self {
            Self::One(one) => vec![one.clone()],
            Self::Many(many) => many.clone(),
        };
        all.push(item);
        *self = Self::Many(all);
'''))
R("core2-not", (CORE, '''    pub const fn is_many(&self) -> bool {
        match self {
            Self::One(_) => false,
            Self::Many(_) => true,
        }
    }
''', '''    pub const fn is_many(&self) -> bool {
        !self.is_one()
    }
'''))
R("core2-iflet", (CORE, '''        match self {
            Self::One(_) => 1,
            Self::Many(many) => many.len(),
        }
''', '''        if let Self::Many(items) = self {
            return items.len();
        }
        1
'''), (CORE, '''        match self {
            Self::One(_) => false,
            Self::Many(many) => many.is_empty(),
        }
''', '''        matches!(self, Self::Many(items) if items.is_empty())
'''))
R("core2-extend", (CORE, "                many.push(item);\n", "                many.extend([item]);\n"))
R("core2-insert", (CORE, "                many.push(item);\n", "                let end = many.len();\n                many.insert(end, item);\n"))
# --- serializer
R("ser2-separator-helper", (SER, '''        if self.level > TOP_LEVEL {
            if !self.output.ends_with('{') {
                self.output += ",";
            }
        } else if !self.output.is_empty() {
            self.output += "&";
        }
''', '''        self.separate();
'''), (SER, "impl ser::Serializer for &mut Serializer {", '''impl Serializer {
    fn separate(&mut self) {
        let separator = match (self.level > TOP_LEVEL, self.output.is_empty()) {
            (true, _) if self.output.ends_with('{') => "",
            (true, _) => ",",
            (false, true) => "",
            (false, false) => "&",
        };
        self.output.push_str(separator);
    }
}

impl ser::Serializer for &mut Serializer {'''))
R("ser2-const-str", (SER, '''        if self.level > TOP_LEVEL {
            // a string within a nested value is a JSON string
            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
        } else {
            self.output += &utf8_percent_encode(v, CONTENT).to_string();
        }
        Ok(())
''', '''        let text = if self.level > TOP_LEVEL {
            serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?
        } else {
            v.to_owned()
        };
        let escaped = utf8_percent_encode(&text, CONTENT);
        self.output.push_str(&escaped.to_string());
        Ok(())
'''))
R("ser2-escape-fn", (SER, '''            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
        } else {
            self.output += &utf8_percent_encode(v, CONTENT).to_string();
        }
''', '''            self.output += &escape(&json);
        } else {
            self.output += &escape(v);
        }
'''), (SER, "/// A serializer for url encoding.", '''fn escape(text: &str) -> String {
    utf8_percent_encode(text, CONTENT).collect()
}

/// A serializer for url encoding.'''))
R("ser2-finish", (SER, '''    value.serialize(&mut serializer)?;

    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
    Ok(encoded)
''', '''    value.serialize(&mut serializer)?;
    let Serializer { output, .. } = serializer;
    Ok(format!("{}", utf8_percent_encode(&output, UNRESERVED)))
'''))
R("ser2-finish-map", (SER, '''    value.serialize(&mut serializer)?;

    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
    Ok(encoded)
''', '''    value
        .serialize(&mut serializer)
        .map(|()| utf8_percent_encode(&serializer.output, UNRESERVED).to_string())
'''))
R("ser2-order-sets", (SER, '''    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~')
''', '''    &NON_ALPHANUMERIC.remove(b'~').remove(b'-').remove(b'_').remove(b'.').remove(b'=').remove(b'&')
'''), (SER, "&CONTROLS.add(b'%').add(b'&').add(b'=')", "&CONTROLS.add(b'=').add(b'&').add(b'%')"))
R("ser2-levelconst", (SER, "self.level > TOP_LEVEL", "self.level >= NESTED"), (SER, "const TOP_LEVEL: usize = 1;", "const NESTED: usize = 2;"))
R("ser2-tuple-delegate", (SER, '''        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= 1;
        Ok(())
    }
}

impl ser::SerializeTupleStruct''', '''        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        ser::SerializeSeq::end(self)
    }
}

impl ser::SerializeTupleStruct'''))
R("ser2-int-macro", (SER, '''    fn serialize_u64(self, v: u64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }
''', '''    fn serialize_u64(self, v: u64) -> Result<()> {
        self.output.push_str(&format!("{v}"));
        Ok(())
    }
'''), (SER, '''    fn serialize_i64(self, v: i64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }
''', '''    fn serialize_i64(self, v: i64) -> Result<()> {
        use std::fmt::Write;
        write!(self.output, "{v}").map_err(|e| Error::Message(e.to_string()))
    }
'''))
R("ser2-variant-helper", (SER, '''        if self.level > TOP_LEVEL {
            self.output += "{";
            variant.serialize(&mut *self)?;
            self.output += ":[";
        } else {
            variant.serialize(&mut *self)?;
            self.output += "=[";
        }

        Ok(self)
''', '''        self.tag(variant)?;
        self.output.push('[');
        Ok(self)
'''), (SER, '''        if self.level > TOP_LEVEL {
            self.output += "{";
            variant.serialize(&mut *self)?;
            self.output += ":{";
        } else {
            variant.serialize(&mut *self)?;
            self.output += "={";
        }
        Ok(self)
''', '''        self.tag(variant)?;
        self.output.push('{');
        Ok(self)
'''), (SER, "impl ser::Serializer for &mut Serializer {", '''impl Serializer {
    fn tag(&mut self, variant: &'static str) -> Result<()> {
        let nested = self.level > TOP_LEVEL;
        if nested {
            self.output.push('{');
        }
        variant.serialize(&mut *self)?;
        self.output.push(if nested { ':' } else { '=' });
        Ok(())
    }
}

impl ser::Serializer for &mut Serializer {'''))
R("ser2-ends-chars", (SER, "if !self.output.ends_with('[') {", "if self.output.chars().last() != Some('[') {"))
R("ser2-ends-str", (SER, "if !self.output.ends_with('[') {", 'if !self.output.ends_with("[") {'))
R("ser2-bytes-foreach", (SER, '''        for byte in v {
            seq.serialize_element(byte)?;
        }
        seq.end()
''', '''        v.iter().try_for_each(|byte| seq.serialize_element(byte))?;
        seq.end()
'''))
R("ser2-first-flag-no", (SER, '''        self.output += if v { "true" } else { "false" };
        Ok(())
''', '''        self.output += &v.to_string();
        Ok(())
'''))
R("ser2-char-buf", (SER, "        self.serialize_str(&v.to_string())\n", "        let mut buf = [0; 4];\n        self.serialize_str(v.encode_utf8(&mut buf))\n"))
# --- decoder
LOOP = '''    for pair in s.split('&') {
        let Some((key, value)) = pair.split_once('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
'''
R("url2-fn-decode", (URL, LOOP, '''    let decode = |text: &str| percent_decode_str(text).decode_utf8_lossy().into_owned();
    for pair in s.split('&') {
        let (key, value) = pair
            .split_once('=')
            .map(|(key, value)| (decode(key), decode(value)))
            .ok_or_else(|| Error::Message(format!("expected `key=value`, found `{pair}`")))?;
'''))
R("url2-collect-pairs", (URL, LOOP, '''    let pairs: Vec<&str> = s.split('&').collect();
    for pair in pairs {
        let Some(at) = pair.find('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
        let (key, value) = (&pair[..at], &pair[at + 1..]);
        let key = percent_decode_str(key).decode_utf8_lossy().to_string();
        let value = percent_decode_str(value).decode_utf8_lossy().to_string();
'''))
R("url2-nested-fn", (URL, '''        let field = if value.starts_with(['{', '[']) {
            serde_json::from_str(&value).unwrap_or(Value::String(value))
        } else {
            Value::String(value)
        };
''', '''        let field = to_value(value);
'''), (URL, "#[cfg(test)]\nmod tests", '''fn to_value(text: String) -> Value {
    if text.starts_with('{') || text.starts_with('[') {
        if let Ok(nested) = serde_json::from_str::<Value>(&text) {
            return nested;
        }
    }
    Value::String(text)
}

#[cfg(test)]
mod tests'''))
R("url2-prefix", (URL, "if value.starts_with(['{', '[']) {", "if matches!(value.as_bytes().first(), Some(b'{' | b'[')) {"))
R("url2-prefix-closure", (URL, "if value.starts_with(['{', '[']) {", "if value.starts_with(|c| c == '{' || c == '[') {"))
R("url2-dup-contains", (URL, '''        if fields.insert(key, field).is_some() {
            return Err(Error::Message("duplicate field".to_string()));
        }
''', '''        let previous = fields.insert(key, field);
        if let Some(_) = previous {
            return Err(Error::Message("duplicate field".into()));
        }
'''))
R("url2-from-value", (URL, "    serde_json::from_value(Value::Object(fields)).map_err(|e| Error::Message(e.to_string()))\n", '''    match serde_json::from_value(fields.into()) {
        Ok(value) => Ok(value),
        Err(e) => Err(Error::Message(e.to_string())),
    }
'''))
R("url2-while", (URL, "    for pair in s.split('&') {\n", "    let mut pairs = s.split('&');\n    while let Some(pair) = pairs.next() {\n"))
R("url2-deserialize", (URL, "    serde_json::from_value(Value::Object(fields)).map_err(|e| Error::Message(e.to_string()))\n", "    T::deserialize(Value::Object(fields)).map_err(|e| Error::Message(e.to_string()))\n"))
# --- matcher
R("mat2-satisfied-iter", (MAT, '''        let Some(fields) = &self.fields else {
            return Ok(true);
        };
        let Ok(vc_val) = claims.to_json() else {
            return Err(anyhow!("error serializing credential"));
        };
''', '''        let fields = match self.fields.as_ref() {
            Some(fields) => fields,
            None => return Ok(true),
        };
        let vc_val = claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;
'''))
R("mat2-nested-if", (MAT, '''            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
''', '''            if field.matched(&vc_val)? {
                continue;
            }
            let optional = matches!(field.optional, Some(true));
            if !optional || field.present(&vc_val) {
                return Ok(false);
            }
'''))
R("mat2-count", (MAT, '''        for field in fields {
            // if no match AND the field is not optional, constraints are not satisfied
            // (when the field is present, its value must match even if optional)
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
        }

        // all fields match
        Ok(true)
''', '''        for field in fields {
            if !field.accepts(&vc_val)? {
                return Ok(false);
            }
        }
        Ok(true)
'''), (MAT, "impl Field {\n", '''impl Field {
    fn accepts(&self, vc: &Value) -> Result<bool> {
        let matched = self.matched(vc)?;
        let excused = self.optional == Some(true) && !self.present(vc);
        Ok(matched || excused)
    }

'''))
R("mat2-first-node", (MAT, '''            let nodes = jpath.query(vc).all();

            // no matches: try next path
            if nodes.is_empty() {
                continue;
            }
''', '''            let nodes = jpath.query(vc).all();
            let Some(first) = nodes.first() else {
                continue;
            };
'''), (MAT, '''            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            if filter.value.matched(first)? {
                return Ok(true);
            }
'''))
R("mat2-node-index", (MAT, '''            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            if filter.value.matched(nodes[0])? {
                return Ok(true);
            }
'''))
R("mat2-is-none-or", (MAT, '''            // no filter == match(?)
            let Some(filter) = &self.filter else {
                return Ok(true);
            };

            // find FIRST node matching filter (in practice, there should only be one node)
            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            let node = nodes.into_iter().next();
            let hit = match (&self.filter, node) {
                (None, _) => true,
                (Some(filter), Some(node)) => filter.value.matched(node)?,
                (Some(_), None) => false,
            };
            if hit {
                return Ok(true);
            }
'''))
R("mat2-values-direct", (MAT, '''        match self {
            Self::Const(_) => match_const(self, vc_node),
            Self::Pattern(_) => match_pattern(self, vc_node),
            Self::Format(_) => match_format(self, vc_node),
        }
''', '''        let check = match self {
            Self::Const(_) => match_const,
            Self::Pattern(_) => match_pattern,
            Self::Format(_) => match_format,
        };
        check(self, vc_node)
'''))
R("mat2-const-eqs", (MAT, '''        Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
        Value::String(str_node) => Ok(str_node == const_str),
        Value::Number(num_node) => Ok(num_node.to_string() == const_val),
        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
        Value::Null => Ok(false),
        Value::Object(_) => Ok(false),
''', '''        Value::Array(items) => Ok(items.iter().any(|item| item.as_str() == Some(const_str.as_str()))),
        Value::Number(number) => Ok(number.to_string() == *const_str),
        Value::String(_) => Ok(*vc_node == const_val),
        Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),
'''))
R("mat2-pattern-texts", (MAT, '''    match vc_node {
        Value::Array(arr_node) => {
            Ok(arr_node.iter().filter_map(Value::as_str).any(|str_node| re.is_match(str_node)))
        }
        Value::String(str_node) => Ok(re.is_match(str_node)),
        Value::Number(num_node) => Ok(re.is_match(&num_node.to_string())),
        Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),
    }
''', '''    let texts: Vec<String> = match vc_node {
        Value::Array(items) => items.iter().filter_map(|i| i.as_str().map(ToString::to_string)).collect(),
        Value::String(text) => vec![text.clone()],
        Value::Number(number) => vec![number.to_string()],
        _ => vec![],
    };
    Ok(texts.iter().any(|text| re.is_match(text)))
'''))
R("mat2-format-if", (MAT, '''    match format.as_str() {
        "date" => match vc_node {
            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
            _ => Ok(false),
        },
        "date-time" => match vc_node {
            Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
            _ => Ok(false),
        },
        _ => Err(anyhow!("unsupported format: {format}")),
    }
''', '''    let text = vc_node.as_str();
    if format == "date" {
        return Ok(text.is_some_and(|t| NaiveDate::parse_from_str(t, "%Y-%m-%d").is_ok()));
    }
    if format == "date-time" {
        return Ok(text.map_or(false, |t| t.parse::<DateTime<chrono::FixedOffset>>().is_ok()));
    }
    Err(anyhow!("unsupported format: {format}"))
'''.replace('t.parse::<DateTime<chrono::FixedOffset>>().is_ok()', 'DateTime::parse_from_rfc3339(t).is_ok()')))
R("mat2-present-fold", (MAT, '''        self.path
            .iter()
            .filter_map(|path| JsonPath::parse(path).ok())
            .any(|jpath| !jpath.query(vc).all().is_empty())
''', '''        self.path.iter().any(|path| {
            JsonPath::parse(path).is_ok_and(|jpath| jpath.query(vc).first().is_some())
        })
'''))
R("mat2-parse-all", (MAT, '''            let Ok(jpath) = JsonPath::parse(path) else {
                return Err(anyhow!("Invalid JSONPath: {path}"));
            };
''', '''            let jpath = match JsonPath::parse(path) {
                Ok(jpath) => jpath,
                Err(e) => return Err(anyhow!("Invalid JSONPath: {path}: {e}")),
            };
'''))
R("mat2-regex-cache", (MAT, '''    let Ok(re) = Regex::new(pattern) else {
        return Err(anyhow!("invalid regex pattern: {pattern}"));
    };
''', '''    let re = Regex::new(pattern.as_str()).map_err(|e| anyhow!("invalid regex pattern: {pattern}: {e}"))?;
'''))
# --- dif types
R("dif2-fromstr-match", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)\n", '''        match serde_json::from_str(s) {
            Ok(submission) => Ok(submission),
            Err(e) => Err(e.into()),
        }
'''))
R("dif2-rename-variants", (DIF, '''#[serde(rename_all = "snake_case")]
pub enum FilterValue {''', '''#[serde(rename_all = "lowercase")]
pub enum FilterValue {'''))
R("dif2-skip-fn", (DIF, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub optional: Option<bool>,''', '''    #[serde(default, skip_serializing_if = "absent")]
    pub optional: Option<bool>,'''), (DIF, "impl Default for FilterValue {", '''const fn absent(value: &Option<bool>) -> bool {
    value.is_none()
}

impl Default for FilterValue {'''))
# --- macros, second batch
R("mac2-detail-type-match", (MA, '''        if let Some(type_) = detail.get("type") {
            if let Some(t) = type_.as_str()
                && t != "openid_credential"
            {
                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''        match detail.get("type").map(Value::as_str) {
            None => return Err(Error::new(span, "`type` is not set")),
            Some(Some(t)) if t != "openid_credential" => {
                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
            Some(_) => {}
        }
'''))
R("mac2-detail-fn", (MA, '''    let mut tokens = TokenStream::new();

    for detail in details {
        let Some(detail) = detail.as_object() else {
            return Err(Error::new(span, "`authorization_detail` must be an object"));
        };
''', '''    let mut tokens = TokenStream::new();

    let objects = details
        .iter()
        .map(|d| d.as_object().ok_or_else(|| Error::new(span, "`authorization_detail` must be an object")))
        .collect::<Result<Vec<_>>>()?;
    for detail in objects {
'''))
R("mac2-details-vec", (MA, '''        tokens.extend(quote! {
            #path::AuthorizationDetail {
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #credential,
                locations: None
            },
        });
    }

    Ok(quote! {vec![#tokens]})
''', '''        tokens.push(quote! {
            #path::AuthorizationDetail {
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #credential,
                locations: None,
            }
        });
    }

    Ok(quote! {vec![#(#tokens),*]})
'''), (MA, "let mut tokens = TokenStream::new();", "let mut tokens = Vec::<TokenStream>::new();"))
R("mac2-some-details", (MA, '''    let authorization_details = if let Some(details) = input.get("authorization_details") {
        let authorization_details = authorization_details(&details)?;
        quote! {Some(#authorization_details)}
    } else {
        quote! {None}
    };
''', '''    let authorization_details = match input.get("authorization_details") {
        Some(details) => {
            let list = authorization_details(&details)?;
            quote! {Some(#list)}
        }
        None => quote! {None},
    };
'''))
R("mac2-transpose", (MT, '''    let authorization_details = if let Some(details) = input.get("authorization_details") {
        let authorization_details = authorization_details(&details)?;
        quote! {Some(#authorization_details)}
    } else {
        quote! {None}
    };
''', '''    let authorization_details = input
        .get("authorization_details")
        .map(|details| authorization_details(&details))
        .transpose()?
        .map_or_else(|| quote! {None}, |list| quote! {Some(#list)});
'''))
R("mac2-grant-match", (MT, '''    let grant_type =
        if grant_type.as_str() == Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") {
            pre_authorized_code(&mut input)?
        } else if grant_type.as_str() == Some("authorization_code") {
            authorization_code(&mut input)?
        } else {
            return Err(Error::new(Span::call_site(), "unknown `grant_type`"));
        };
''', '''    let grant_type = grant(&grant_type, &mut input)?;
'''), (MT, "fn pre_authorized_code(", '''const PRE_AUTH: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

fn grant(grant_type: &Value, input: &mut Json) -> Result<TokenStream> {
    match grant_type {
        Value::String(s) if s == PRE_AUTH => pre_authorized_code(input),
        Value::String(s) if s == "authorization_code" => authorization_code(input),
        _ => Err(Error::new(Span::call_site(), "unknown `grant_type`")),
    }
}

fn pre_authorized_code('''))
R("mac2-grant-table", (MO, '''            match gt {
                "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                }
                "authorization_code" => {
                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                }
                _ => {
                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                }
            }
''', '''            let variant = if gt == "authorization_code" {
                quote! {AuthorizationCode}
            } else if gt == "urn:ietf:params:oauth:grant-type:pre-authorized_code" {
                quote! {PreAuthorizedCode}
            } else {
                return Err(Error::new(span, format!("unsupported grant type: {gt}")));
            };
            tokens.extend(quote! {#path::GrantType::#variant,});
'''))
R("mac2-offer-expect", (MO, '''    let Some(credential_configuration_ids) = input.get("credential_configuration_ids") else {
        return Err(Error::new(span, "`credential_configuration_ids` is not set"));
    };
    let Some(ids) = &credential_configuration_ids.as_array() else {
        return Err(Error::new(span, "`credential_configuration_ids` must be an array"));
    };
    if ids.is_empty() {
        return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
    }
''', '''    let credential_configuration_ids = input
        .get("credential_configuration_ids")
        .ok_or_else(|| Error::new(span, "`credential_configuration_ids` is not set"))?;
    match credential_configuration_ids.as_array().map(|ids| ids.len()) {
        None => return Err(Error::new(span, "`credential_configuration_ids` must be an array")),
        Some(0) => return Err(Error::new(span, "`credential_configuration_ids` cannot be empty")),
        Some(_) => {}
    }
'''))
R("mac2-offer-slice", (MO, '''    let Some(ids) = &credential_configuration_ids.as_array() else {
        return Err(Error::new(span, "`credential_configuration_ids` must be an array"));
    };
    if ids.is_empty() {
        return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
    }
''', '''    match &credential_configuration_ids {
        Value::Array(ids) => match ids.as_slice() {
            [] => return Err(Error::new(span, "`credential_configuration_ids` cannot be empty")),
            [_, ..] => (),
        },
        _ => return Err(Error::new(span, "`credential_configuration_ids` must be an array")),
    }
'''))
R("mac2-defaults", (MO, '''    let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
    let send_type =
        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
''', '''    let tx_code_required = match input.get("tx_code_required") {
        Some(required) => required,
        None => Value::Bool(false),
    };
    let send_type = if let Some(send_type) = input.get("send_type") {
        quote! {#send_type.into()}
    } else {
        quote! {#path::SendType::ByVal}
    };
'''))
R("mac2-false-tokens", (MO, '''    let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
''', '''    let tx_code_required = input.get("tx_code_required").map_or_else(|| quote! {false}, |v| quote! {#v});
'''))
R("mac2-proof-match", (MC, '''        if let Some(proof_type) = proof.get("proof_type") {
            if proof_type.as_str() != Some("jwt") {
                return Err(Error::new(span, "`proof_type` must be `jwt`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''        match proof.get("proof_type") {
            Some(Value::String(proof_type)) if proof_type == "jwt" => {}
            Some(_) => return Err(Error::new(span, "`proof_type` must be `jwt`")),
            None => return Err(Error::new(span, "`type` is not set")),
        }
'''))
R("mac2-proof-helper", (MC, '''    let proof = proof(&mut input)?;
''', '''    let proof = match input.get("proof") {
        Some(value) => {
            let single = proof(&value)?;
            quote! {Some(#single)}
        }
        None => quote! {None},
    };
'''), (MC, '''fn proof(input: &mut Json) -> Result<TokenStream> {
    let path = quote! {vercre_issuer};
    let span = Span::call_site();

    if let Some(p) = input.get("proof") {
        let Some(proof) = p.as_object() else {
            return Err(Error::new(span, "`proof` must be an object"));
        };

        if let Some(proof_type) = proof.get("proof_type") {
            if proof_type.as_str() != Some("jwt") {
                return Err(Error::new(span, "`proof_type` must be `jwt`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }

        let Some(jwt) = proof.get("jwt") else {
            return Err(Error::new(span, "`jwt` is not set"));
        };

        return Ok(quote! {
            Some(#path::Proof::Single{
                proof_type: #path::SingleProof::Jwt{
                    jwt: #jwt.into(),
                },
            })
        });
    }

    Ok(quote! {None})
}
''', '''fn proof(value: &Value) -> Result<TokenStream> {
    let path = quote! {vercre_issuer};
    let fail = |message: &str| Error::new(Span::call_site(), message);

    let proof = value.as_object().ok_or_else(|| fail("`proof` must be an object"))?;
    let proof_type = proof.get("proof_type").ok_or_else(|| fail("`type` is not set"))?;
    if proof_type.as_str() != Some("jwt") {
        return Err(fail("`proof_type` must be `jwt`"));
    }
    let jwt = proof.get("jwt").ok_or_else(|| fail("`jwt` is not set"))?;

    Ok(quote! {
        #path::Proof::Single {
            proof_type: #path::SingleProof::Jwt { jwt: #jwt.into() },
        }
    })
}
'''))
R("mac2-issuance-match", (MC, '''        match format.as_str() {
            Some("jwt_vc_json") => Ok(quote! {
                #path::CredentialIssuance::Format(
                    #path::Format::JwtVcJson(#path::ProfileW3c {
                        credential_definition: #credential_definition,
                    }),
                )
            }),
            _ => return Err(Error::new(span, "unsupported format")),
        }
''', '''        let Value::String(format) = &format else {
            return Err(Error::new(span, "unsupported format"));
        };
        if format != "jwt_vc_json" {
            return Err(Error::new(span, "unsupported format"));
        }
        let profile = quote! {#path::ProfileW3c { credential_definition: #credential_definition }};
        Ok(quote! {#path::CredentialIssuance::Format(#path::Format::JwtVcJson(#profile))})
'''))
R("mac2-option-iflet", (MP, '''        self.fields.remove(key).map_or_else(
            || Value::Tokens(quote! {None}),
            |v: Value| Value::Tokens(quote! {Some(#v.into())}),
        )
''', '''        let tokens = if let Some(value) = self.fields.remove(key) {
            quote! {Some(#value.into())}
        } else {
            quote! {None}
        };
        Value::Tokens(tokens)
'''))
R("mac2-expect-get", (MP, '''        let Some(v) = self.fields.remove(key) else {
            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
        };
        Ok(Value::Tokens(quote! {Into::into(#v)}))
''', '''        match self.get(key) {
            Some(value) => Ok(Value::Tokens(quote! {Into::into(#value)})),
            None => {
                let message = ["`", key, "` is not set"].concat();
                Err(Error::new(Span::call_site(), message))
            }
        }
'''))
R("mac2-consumed-loop", (MP, '''        if !self.fields.is_empty() {
            let keys = self.fields.keys().map(|k| format!("`{k}`")).collect::<Vec<_>>().join(", ");
            return Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")));
        }
        Ok(())
''', '''        let mut keys = String::new();
        for key in self.fields.keys() {
            if !keys.is_empty() {
                keys.push_str(", ");
            }
            keys.push('`');
            keys.push_str(key);
            keys.push('`');
        }
        if self.fields.is_empty() {
            Ok(())
        } else {
            Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")))
        }
'''))
R("mac2-consumed-next", (MP, '''        if !self.fields.is_empty() {
            let keys = self.fields.keys().map(|k| format!("`{k}`")).collect::<Vec<_>>().join(", ");
            return Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")));
        }
        Ok(())
''', '''        match self.fields.keys().next() {
            None => Ok(()),
            Some(key) => Err(Error::new(Span::call_site(), format!("unexpected field: `{key}`"))),
        }
'''))
R("mac2-parse-entry", (MP, '''            let field = field.into_value();
            if json.fields.insert(field.lhs, field.rhs).is_some() {
                return Err(content.error("duplicate field"));
            }
''', '''            let Field { lhs, rhs } = field.into_value();
            if json.fields.contains_key(&lhs) {
                return Err(content.error("duplicate field"));
            }
            json.fields.insert(lhs, rhs);
'''))
R("mac2-parse-iter", (MP, '''        for field in fields.into_pairs() {
            let field = field.into_value();
            if json.fields.insert(field.lhs, field.rhs).is_some() {
''', '''        for field in fields {
            if json.fields.insert(field.lhs, field.rhs).is_some() {
'''))
R("mac2-parse-manual", (MP, '''            let items = Punctuated::<Self, token::Comma>::parse_terminated(&contents)?;
            let values = items.into_pairs().map(Pair::into_value).collect();
            Self::Array(values)
''', '''            let mut values = Vec::new();
            while !contents.is_empty() {
                values.push(contents.parse::<Self>()?);
                if contents.is_empty() {
                    break;
                }
                contents.parse::<token::Comma>()?;
            }
            Self::Array(values)
'''), (MP, "use syn::punctuated::{Pair, Punctuated};", "use syn::punctuated::Punctuated;"))
R("mac2-values-split", (MP, '''            let string = input.parse::<syn::LitStr>()?.value();
            Self::String(string)
''', '''            let literal: syn::LitStr = input.parse()?;
            Self::String(literal.value())
'''), (MP, '''            Self::Bool(input.parse::<syn::LitBool>()?.value())
''', '''            Self::Bool(input.parse::<syn::LitBool>()?.value)
'''))
R("mac2-totokens-quote", (MP, '''                let values = a.iter().map(|v| {
                    let mut tokens = TokenStream::new();
                    v.to_tokens(&mut tokens);
                    tokens
                });
                tokens.extend(quote! { vec![#(#values),*] });
''', '''                tokens.extend(quote! { vec![#(#a),*] });
'''))
R("mac2-totokens-one", (MP, '''            Self::Null => tokens.extend(quote! { None }),
            Self::Bool(b) => tokens.extend(quote! { #b }),
            Self::String(s) => tokens.extend(quote! { #s.to_string() }),
            Self::Number(n) => tokens.extend(quote! { #n }),
            Self::Ident(i) => tokens.extend(quote! { #i }),
            Self::Tokens(t) => tokens.extend(t.clone()),
''', '''            Self::Null => quote! { None }.to_tokens(tokens),
            Self::Bool(b) => b.to_tokens(tokens),
            Self::String(s) => quote! { #s.to_string() }.to_tokens(tokens),
            Self::Number(n) => n.to_tokens(tokens),
            Self::Ident(i) => i.to_tokens(tokens),
            Self::Tokens(t) => t.to_tokens(tokens),
'''))
R("mac2-as-iflet", (MP, '''        match self {
            Self::String(s) => Some(s),
            _ => None,
        }
''', '''        if let Self::String(s) = self { Some(s.as_str()) } else { None }
'''))
R("mac2-claims-for", (MA, '''    let claims = claimset.iter().map(|(k, v)| {
        if let Some(nested) = v.as_object()
            && !nested.is_empty()
        {
            let claims = claims(nested);
            quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
        } else {
            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
        }
    });
''', '''    let mut entries = Vec::with_capacity(claimset.len());
    for (k, v) in claimset {
        let claim = match v.as_object() {
            Some(nested) if !nested.is_empty() => {
                let nested = claims(nested);
                quote! {#path::Claim::Set(#nested.unwrap())}
            }
            _ => quote! {#path::Claim::Entry(#path::ClaimDefinition::default())},
        };
        entries.push(quote! {(#k.to_string(), #claim)});
    }
'''), (MA, "Some(std::collections::HashMap::from([#(#claims),*]))", "Some(std::collections::HashMap::from([#(#entries),*]))"))
R("mac2-subject-keys", (MT, '''        let claims = credential_subject.iter().map(|(k, _)| {
            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
        });
''', '''        let claims: Vec<_> = credential_subject
            .keys()
            .map(|name| {
                quote! {(#name.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
            })
            .collect();
'''))
R("mac2-lib-match", (ML, '''    token::request(&parse_macro_input!(input as Json))
        .unwrap_or_else(Error::into_compile_error)
        .into()
''', '''    let json = parse_macro_input!(input as Json);
    match token::request(&json) {
        Ok(tokens) => tokens.into(),
        Err(e) => e.to_compile_error().into(),
    }
'''))
R("mac2-defn-helper", (MC, '''    let Some(type_array) = credential_definition.get("type") else {
        return Err(Error::new(span, "`type` is not set"));
    };
''', '''    let type_array = required(credential_definition, "type")?;
'''), (MC, "fn proof(", '''fn required<'a>(
    object: &'a std::collections::HashMap<String, Value>, key: &str,
) -> Result<&'a Value> {
    object.get(key).ok_or_else(|| Error::new(Span::call_site(), format!("`{key}` is not set")))
}

fn proof('''))
R("mac2-authz-struct", (MA, '''        #path::AuthorizationRequest::Object(#path::RequestObject {
            credential_issuer: #credential_issuer,
            response_type: #response_type,
            client_id: #client_id,
''', '''        #path::AuthorizationRequest::Object(#path::RequestObject {
            client_id: #client_id,
            credential_issuer: #credential_issuer,
            response_type: #response_type,
'''))
R("mac2-shared-path", (MA, "    let path = quote! {vercre_issuer};\n", "    let path = issuer();\n"), (MA, "fn authorization_details(", '''fn issuer() -> TokenStream {
    quote! {vercre_issuer}
}

fn authorization_details('''))

# ------------------------------------------------------------------ issuer and verifier endpoints
TOK, AUT, CRE, OFF, STA, PAR, DEF, NOT, REG, COF = ("vercre-issuer/src/" + x + ".rs" for x in ("token", "authorize", "credential", "create_offer", "state", "par", "deferred", "notification", "register", "credential_offer"))
VRE, VCR, VST = ("vercre-verifier/src/" + x + ".rs" for x in ("response", "create_request", "state"))
IS = [f"C{n}" for n in range(16, 28)]; VE = ["C28", "C29"]
def RI(name, *edits): R(name, *edits, checks=IS)
def RV(name, *edits): R(name, *edits, checks=VE)
RI("tok-verify-reorder", (TOK, """        if self.state.is_expired() {
            return Err(Error::InvalidRequest("authorization state expired".into()));
        }

        // TODO: support optional authorization issuers
        let Ok(server) = Metadata::server(provider, &request.credential_issuer, None).await else {
            return Err(Error::InvalidRequest("unknown authorization server".into()));
        };
""", """        // TODO: support optional authorization issuers
        let server = match Metadata::server(provider, &request.credential_issuer, None).await {
            Ok(server) => server,
            Err(_) => return Err(Error::InvalidRequest("unknown authorization server".into())),
        };
        let expired = self.state.is_expired();
        if expired {
            return Err(Error::InvalidRequest("authorization state expired".into()));
        }
"""))
RI("tok-scope-helper", (TOK, """            // Client and server must support the same scopes.
            if let Some(client_scope) = &client.oauth.scope {
                if let Some(server_scopes) = &server.oauth.scopes_supported {
                    let scopes: Vec<&str> = client_scope.split_whitespace().collect();
                    if !scopes.iter().all(|s| server_scopes.contains(&(*s).to_string())) {
                        return Err(Error::InvalidRequest("client scope not supported".into()));
                    }
                } else {
                    return Err(Error::InvalidRequest("server supported scopes not set".into()));
                }
            } else {
                return Err(Error::InvalidRequest("client scope not set".into()));
            }
""", """            check_scope(client.oauth.scope.as_deref(), server.oauth.scopes_supported.as_deref())?;
"""), (TOK, "// Filter previously authorized DetailItems by requested\n", """// Client and server must support the same scopes.
fn check_scope(client: Option<&str>, server: Option<&[String]>) -> Result<()> {
    let client = client.ok_or_else(|| Error::InvalidRequest("client scope not set".into()))?;
    let server =
        server.ok_or_else(|| Error::InvalidRequest("server supported scopes not set".into()))?;
    for scope in client.split_whitespace() {
        if !server.iter().any(|s| s == scope) {
            return Err(Error::InvalidRequest("client scope not supported".into()));
        }
    }
    Ok(())
}

// Filter previously authorized DetailItems by requested
"""))
RI("tok-client-match", (TOK, """                if request.client_id.is_none() {
                    return Err(Error::InvalidRequest("`client_id` is missing".into()));
                }
                if request.client_id.as_ref() != Some(&auth_state.client_id) {
                    return Err(Error::InvalidClient(
                        "`client_id` differs from authorized one".into(),
                    ));
                }
""", """                match &request.client_id {
                    Some(client_id) if *client_id == auth_state.client_id => {}
                    Some(_) => {
                        return Err(Error::InvalidClient(
                            "`client_id` differs from authorized one".into(),
                        ))
                    }
                    None => return Err(Error::InvalidRequest("`client_id` is missing".into())),
                }
"""))
RI("tok-pkce-inline", (TOK, """                // code_verifier matches code_challenge
                let challenge = pkce::code_challenge(verifier);

                if challenge != auth_state.code_challenge {
                    return Err(""", """                // code_verifier matches code_challenge
                let matches = auth_state.code_challenge == pkce::code_challenge(verifier);
                if !matches {
                    return Err("""))
RI("tok-state-literal", (TOK, """        // update state
        let mut state = self.state.clone();
        state.expires_at = Utc::now() + Expire::Access.duration();
        state.stage = Stage::Validated(Token {
            access_token: access_token.clone(),
            credentials: authorized,
            c_nonce: c_nonce.clone(),
            c_nonce_expires_at: Utc::now() + Expire::Nonce.duration(),
        });
""", """        // update state
        let now = Utc::now();
        let token = Token {
            c_nonce: c_nonce.clone(),
            c_nonce_expires_at: now + Expire::Nonce.duration(),
            access_token: access_token.clone(),
            credentials: authorized,
        };
        let state = State {
            stage: Stage::Validated(token),
            subject_id: self.state.subject_id.clone(),
            expires_at: now + Expire::Access.duration(),
        };
"""))
RI("tok-retain-find", (TOK, """        // check requested `authorization_detail` has been previously authorized
        let mut found = false;
        for item in items {
            if let ItemType::AuthorizationDetail(ad) = &item.item {
                if ad.credential == auth_det.credential {
                    verify_claims(&issuer, &auth_det.credential)?;
                    retained.push(item.clone());
                    found = true;
                    break;
                }
            }
        }

        if !found {
            // we're here if requested `authorization_detail` has not been authorized
            return Err(Error::AccessDenied("requested credential has not been authorized".into()));
        }
""", """        // check requested `authorization_detail` has been previously authorized
        let matching = items.iter().find(|item| match &item.item {
            ItemType::AuthorizationDetail(ad) => ad.credential == auth_det.credential,
            ItemType::Scope(_) => false,
        });
        let Some(item) = matching else {
            return Err(Error::AccessDenied("requested credential has not been authorized".into()));
        };
        verify_claims(&issuer, &auth_det.credential)?;
        retained.push(item.clone());
"""))
RI("tok-creds-flatmap", (TOK, """        for identifier in &item.credential_identifiers {
            authorized.insert(
                identifier.clone(),
                Authorized {
                    credential_identifier: identifier.clone(),
                    credential_configuration_id: item.credential_configuration_id.clone(),
                    claim_ids: claim_ids.clone(),
                },
            );
        }
""", """        authorized.extend(item.credential_identifiers.iter().map(|identifier| {
            let credential = Authorized {
                claim_ids: claim_ids.clone(),
                credential_identifier: identifier.to_string(),
                credential_configuration_id: item.credential_configuration_id.clone(),
            };
            (identifier.to_string(), credential)
        }));
"""))
RI("tok-details-filter", (TOK, """    let mut authorization_details = vec![];

    for item in items {
        if let ItemType::AuthorizationDetail(ad) = &item.item {
            authorization_details.push(AuthorizedDetail {
                authorization_detail: ad.clone(),
                credential_identifiers: item.credential_identifiers.clone(),
            });
        }
    }

    if authorization_details.is_empty() {
        return None;
    }
    Some(authorization_details)
""", """    let details: Vec<_> = items
        .iter()
        .filter_map(|item| match &item.item {
            ItemType::AuthorizationDetail(ad) => Some(AuthorizedDetail {
                authorization_detail: ad.clone(),
                credential_identifiers: item.credential_identifiers.clone(),
            }),
            ItemType::Scope(_) => None,
        })
        .collect();
    (!details.is_empty()).then_some(details)
"""))
RI("aut-checks-reordered", (AUT, """        // is holder identified (authenticated)?
        if request.subject_id.is_empty() {
            return Err(Error::InvalidRequest("missing holder subject".into()));
        }

""", ""), (AUT, """        // client and server metadata
        let Ok(client)""", """        if request.subject_id.is_empty() {
            return Err(Error::InvalidRequest("missing holder subject".into()));
        }

        // client and server metadata
        let Ok(client)"""))
RI("aut-par-matches", (AUT, """        if let Some(must_be_par) = server.oauth.require_pushed_authorization_requests {
            if must_be_par && !self.is_par {
                return Err(Error::InvalidRequest(
                    "pushed authorization request is required".into(),
                ));
            }
        }
""", """        let must_be_par = server.oauth.require_pushed_authorization_requests.unwrap_or(false);
        if !self.is_par && must_be_par {
            return Err(Error::InvalidRequest("pushed authorization request is required".into()));
        }
"""))
RI("aut-grants-any", (AUT, """        let client_grant_types = client.oauth.grant_types.unwrap_or_default();
        if !client_grant_types.contains(&GrantType::AuthorizationCode) {
""", """        let allowed = client
            .oauth
            .grant_types
            .as_ref()
            .is_some_and(|types| types.iter().any(|t| *t == GrantType::AuthorizationCode));
        if !allowed {
"""))
RI("aut-challenge-range", (AUT, """        if request.code_challenge.len() < 43 || request.code_challenge.len() > 128 {
""", """        let challenge_len = request.code_challenge.len();
        if !(43..=128).contains(&challenge_len) {
"""))
RI("aut-redirect-match", (AUT, """        let Some(redirect_uri) = &request.redirect_uri else {
            return Err(Error::InvalidRequest("no `redirect_uri` specified".into()));
        };
        let Some(redirect_uris) = client.oauth.redirect_uris else {
            return Err(Error::ServerError("`redirect_uri`s not set for client".into()));
        };
        if !redirect_uris.contains(redirect_uri) {
            return Err(Error::InvalidRequest("`redirect_uri` is not registered".into()));
        }
""", """        match (&request.redirect_uri, &client.oauth.redirect_uris) {
            (None, _) => {
                return Err(Error::InvalidRequest("no `redirect_uri` specified".into()));
            }
            (_, None) => {
                return Err(Error::ServerError("`redirect_uri`s not set for client".into()));
            }
            (Some(uri), Some(registered)) => {
                if registered.iter().all(|r| r != uri) {
                    return Err(Error::InvalidRequest("`redirect_uri` is not registered".into()));
                }
            }
        }
"""))
RI("aut-items-helper", (AUT, """            let identifiers = Subject::authorize(provider, &request.subject_id, config_id)
                .await
                .map_err(|e| Error::AccessDenied(format!("issue authorizing subject: {e}")))?;

            authorized_items.push(AuthorizedItem {
                item: ItemType::AuthorizationDetail(auth_det.clone()),
                credential_configuration_id: config_id.clone(),
                credential_identifiers: identifiers.clone(),
            });
""", """            let item = ItemType::AuthorizationDetail(auth_det.clone());
            authorized_items.push(authorized_item(provider, &request.subject_id, config_id, item).await?);
"""), (AUT, """            let identifiers = Subject::authorize(provider, &request.subject_id, config_id)
                .await
                .map_err(|e| Error::AccessDenied(format!("issue authorizing holder: {e}")))?;

            authorized_items.push(AuthorizedItem {
                item: ItemType::Scope(scope_item.clone()),
                credential_configuration_id: config_id.clone(),
                credential_identifiers: identifiers.clone(),
            });
""", """            let item = ItemType::Scope(scope_item.clone());
            authorized_items.push(authorized_item(provider, &request.subject_id, config_id, item).await?);
"""), (AUT, "#[cfg(test)]\nmod tests", """async fn authorized_item(
    provider: &impl Provider, subject_id: &str, config_id: &str, item: ItemType,
) -> Result<AuthorizedItem> {
    let credential_identifiers = Subject::authorize(provider, subject_id, config_id)
        .await
        .map_err(|e| Error::AccessDenied(format!("issue authorizing subject: {e}")))?;
    Ok(AuthorizedItem {
        item,
        credential_configuration_id: config_id.to_string(),
        credential_identifiers,
    })
}

#[cfg(test)]
mod tests"""))
RI("cre-proof-fn", (CRE, """            // extract proof JWT(s) from request
            let proof_jwts = match proof {
                Proof::Single { proof_type } => match proof_type {
                    SingleProof::Jwt { jwt } => &vec![jwt.clone()],
                },
                Proof::Multiple(proofs_type) => match proofs_type {
                    MultipleProofs::Jwt(proof_jwts) => proof_jwts,
                },
            };

            if proof_jwts.is_empty() {
                return Err(self.invalid_proof(provider, "proof not set").await?);
            }

            for proof_jwt in proof_jwts {
""", """            // extract proof JWT(s) from request
            let proof_jwts = proof_tokens(proof);
            if proof_jwts.is_empty() {
                return Err(self.invalid_proof(provider, "proof not set").await?);
            }

            for proof_jwt in proof_jwts {
"""), (CRE, "// Extract language object name and description from a `CredentialDisplay`", """fn proof_tokens(proof: &Proof) -> Vec<&str> {
    match proof {
        Proof::Single {
            proof_type: SingleProof::Jwt { jwt },
        } => vec![jwt.as_str()],
        Proof::Multiple(MultipleProofs::Jwt(jwts)) => jwts.iter().map(String::as_str).collect(),
    }
}

// Extract language object name and description from a `CredentialDisplay`"""))
RI("cre-nonce-match", (CRE, """                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                    return Err(self
""", """                let expected = jwt.claims.nonce.as_deref() == Some(token_state.c_nonce.as_str());
                if !expected {
                    return Err(self
"""))
RI("cre-did-splitonce", (CRE, """                let Some(did) = kid.split('#').next() else {
                    return Err(self.invalid_proof(provider, "Proof JWT DID is invalid").await?);
                };
""", """                let did = kid.split_once('#').map_or(kid.as_str(), |(did, _)| did);
"""))
RI("cre-authorized-loop", (CRE, """                token.credentials.values().find(|c| &c.credential_configuration_id == config_id)
            }
        }
        .ok_or_else(|| Error::InvalidCredentialRequest("unauthorized credential requested".into()))
        .cloned()
""", """                let mut found = None;
                for credential in token.credentials.values() {
                    if credential.credential_configuration_id == *config_id {
                        found = Some(credential);
                        break;
                    }
                }
                found
            }
        }
        .cloned()
        .ok_or_else(|| Error::InvalidCredentialRequest("unauthorized credential requested".into()))
"""))
RI("cre-dataset-filter", (CRE, """        if let Some(claim_ids) = &self.authorized.claim_ids {
            dataset.claims.retain(|k, _| claim_ids.contains(k));
        }
""", """        if let Some(claim_ids) = &self.authorized.claim_ids {
            dataset.claims = std::mem::take(&mut dataset.claims)
                .into_iter()
                .filter(|(k, _)| claim_ids.iter().any(|c| c == k))
                .collect();
        }
"""))
RI("cre-renew-helper", (CRE, """        // update token state with new `c_nonce`
        let mut state = self.state.clone();
        state.expires_at = Utc::now() + Expire::Access.duration();

        let Stage::Validated(mut token_state) = state.stage else {
            return Err(Error::AccessDenied("invalid access token state".into()));
        };
        token_state.c_nonce = gen::nonce();
        token_state.c_nonce_expires_at = Utc::now() + Expire::Nonce.duration();
        state.stage = Stage::Validated(token_state.clone());

        StateStore::put(provider, &token_state.access_token, &state, state.expires_at)
            .await
            .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
""", """        // update token state with new `c_nonce`
        let (mut state, token_state) = self.renew(provider).await?;
"""), (CRE, """        // generate nonce and update token state
        let c_nonce = gen::nonce();
        let mut state = self.state.clone();
        state.expires_at = Utc::now() + Expire::Access.duration();

        let Stage::Validated(mut token_state) = state.stage else {
            return Err(Error::AccessDenied("invalid access token state".into()));
        };
        token_state.c_nonce.clone_from(&c_nonce);
        token_state.c_nonce_expires_at = Utc::now() + Expire::Nonce.duration();
        state.stage = Stage::Validated(token_state.clone());

        StateStore::put(provider, &token_state.access_token, &state, state.expires_at)
            .await
            .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;

        Ok(Error::InvalidProof {
            hint: hint.into(),
            c_nonce,
""", """        // generate nonce and update token state
        let (_, token_state) = self.renew(provider).await?;

        Ok(Error::InvalidProof {
            hint: hint.into(),
            c_nonce: token_state.c_nonce,
"""), (CRE, """    // Creates, stores, and returns new `c_nonce` and""", """    async fn renew(&self, provider: &impl Provider) -> Result<(State, crate::state::Token)> {
        let Stage::Validated(token) = &self.state.stage else {
            return Err(Error::AccessDenied("invalid access token state".into()));
        };
        let token = crate::state::Token {
            c_nonce: gen::nonce(),
            c_nonce_expires_at: Utc::now() + Expire::Nonce.duration(),
            ..token.clone()
        };
        let state = State {
            stage: Stage::Validated(token.clone()),
            expires_at: Utc::now() + Expire::Access.duration(),
            ..self.state.clone()
        };
        StateStore::put(provider, &token.access_token, &state, state.expires_at)
            .await
            .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
        Ok((state, token))
    }

    // Creates, stores, and returns new `c_nonce` and"""))
RI("off-supported-all", (OFF, """        for cred_id in &request.credential_configuration_ids {
            if !self.issuer.credential_configurations_supported.contains_key(cred_id) {
                return Err(Error::UnsupportedCredentialType(
                    "requested credential is unsupported".into(),
                ));
            };
        }
""", """        let supported = &self.issuer.credential_configurations_supported;
        if request.credential_configuration_ids.iter().any(|id| supported.get(id).is_none()) {
            return Err(Error::UnsupportedCredentialType(
                "requested credential is unsupported".into(),
            ));
        }
"""))
RI("off-send-match", (OFF, """        let tx_code =
            if request.tx_code_required && grant_types.contains(&GrantType::PreAuthorizedCode) {
                Some(gen::tx_code())
            } else {
                None
            };
""", """        let pre_authorized = grant_types.contains(&GrantType::PreAuthorizedCode);
        let tx_code = (pre_authorized && request.tx_code_required).then(gen::tx_code);
"""))
RI("sta-expire-consts", (STA, """            Self::Authorized => TimeDelta::try_minutes(5).unwrap_or_default(),
            Self::Access => TimeDelta::try_minutes(15).unwrap_or_default(),
            Self::Nonce => TimeDelta::try_minutes(10).unwrap_or_default(),
""", """            Self::Authorized => TimeDelta::seconds(5 * 60),
            Self::Access => TimeDelta::minutes(15),
            Self::Nonce => TimeDelta::try_seconds(600).unwrap_or_default(),
"""))
RI("sta-nonce-cmp", (STA, """        self.c_nonce_expires_in() < 0
""", """        let remaining = self.c_nonce_expires_at.signed_duration_since(Utc::now());
        remaining.num_seconds() < 0
"""))
RI("par-expiry-local", (PAR, "Utc::now()", "chrono::Utc::now()"))
RV("vre-state-expired-inline", (VRE, """    let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
        return Err(Error::InvalidRequest("state not found".into()));
    };
    if state.is_expired() {
        return Err(Error::InvalidRequest("state expired".into()));
    }
""", """    let state: State = StateStore::get(&provider, state_key)
        .await
        .map_err(|_| Error::InvalidRequest("state not found".into()))?;
    if chrono::Utc::now() > state.expires_at {
        return Err(Error::InvalidRequest("state expired".into()));
    }
"""))
RV("vre-vp-helper", (VRE, """        let (vp, client_id, nonce) =
            match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
                Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
                Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
                Err(e) => {
                    return Err(Error::ServerError(format!("issue verifying VP proof: {e}")))
                }
            };
""", """        let payload = vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider)
            .await
            .map_err(|e| Error::ServerError(format!("issue verifying VP proof: {e}")))?;
        let Payload::Vp { vp, client_id, nonce } = payload else {
            return Err(Error::InvalidRequest("proof payload is invalid".into()));
        };
"""))
RV("vre-mapping-loop", (VRE, """        let Some(mapping) = desc_map.iter().find(|idmo| idmo.id == input.id) else {
            return Err(""", """        let mut mapping = None;
        for candidate in desc_map {
            if candidate.id == input.id {
                mapping = Some(candidate);
                break;
            }
        }
        let Some(mapping) = mapping else {
            return Err("""))
RV("vre-format-match", (VRE, """        if let Some(fmt) = input.format.as_ref() {
            if !fmt.contains_key(&mapping.path_nested.format) {
                return""", """        {
            let format = &mapping.path_nested.format;
            if input.format.as_ref().is_some_and(|accepted| !accepted.contains_key(format)) {
                return"""))
RV("vre-satisfied-match", (VRE, """        if !input
            .constraints
            .satisfied(&vc)
            .map_err(|e| Error::ServerError(format!("issue matching constraints: {e}")))?
        {
            return Err(Error::InvalidRequest("input constraints not satisfied".into()));
        }
""", """        match input.constraints.satisfied(&vc) {
            Ok(true) => {}
            Ok(false) => {
                return Err(Error::InvalidRequest("input constraints not satisfied".into()));
            }
            Err(e) => return Err(Error::ServerError(format!("issue matching constraints: {e}"))),
        }
"""))
RV("vre-expiry-iflet", (VRE, """        if vc.valid_until.is_some_and(|exp| exp < chrono::Utc::now()) {
            return Err(Error::InvalidRequest("credential has expired".into()));
        }
""", """        if let Some(valid_until) = vc.valid_until {
            let now = chrono::Utc::now();
            if now > valid_until {
                return Err(Error::InvalidRequest("credential has expired".into()));
            }
        }
"""))
RV("vre-vps-slice", (VRE, """    let vp_val: Value = match vps.len() {
        1 => serde_json::to_value(vps[0].clone())
            .map_err(|e| Error::ServerError(format!("issue converting VP to Value: {e}")))?,
        _ => serde_json::to_value(vps)
            .map_err(|e| Error::ServerError(format!("issue aggregating vp values: {e}")))?,
    };
""", """    let vp_val: Value = if let [vp] = vps.as_slice() {
        serde_json::to_value(vp)
    } else {
        serde_json::to_value(&vps)
    }
    .map_err(|e| Error::ServerError(format!("issue converting VP to Value: {e}")))?;
"""))
RV("vre-process-inline", (VRE, """    verify(provider.clone(), request).await?;
    process(provider, request).await
}
""", """    verify(provider.clone(), request).await?;
    let response = process(provider, request).await?;
    Ok(response)
}
"""))
RV("vcr-literal", (VCR, """    if request.input_descriptors.is_empty() {
        return Err(Error::InvalidRequest("no credentials specified".into()));
    }
    Ok(())
""", """    match request.input_descriptors.len() {
        0 => Err(Error::InvalidRequest("no credentials specified".into())),
        _ => Ok(()),
    }
"""))
# ---- panics, claims, errors
def RC(name, checks, *edits): R(name, *edits, checks=checks.split())
_OII = "crates/openid/src/issuer.rs"; _OE = "crates/openid/src/error.rs"
_SUPLOOP = """        for (key, entry) in claimset {
            if !supported.contains_key(key) {
                return Err(anyhow!("{key} claim is not supported"));
            }

            // check nested claims
            if let Claim::Set(req_nested) = &entry {
                if let Claim::Set(sup_nested) = &supported[key] {
                    Self::claims_supported(req_nested, sup_nested)?;
                } else {
                    return Err(anyhow!("{key} claimset is not supported "));
                }
            };
        }

        Ok(())
"""
RC("clm-get", "C30 C31", (_OII, _SUPLOOP, """        for (key, entry) in claimset {
            let Some(found) = supported.get(key) else {
                return Err(anyhow!("{key} claim is not supported"));
            };
            match (entry, found) {
                (Claim::Set(req_nested), Claim::Set(sup_nested)) => {
                    Self::claims_supported(req_nested, sup_nested)?;
                }
                (Claim::Set(_), Claim::Entry(_)) => {
                    return Err(anyhow!("{key} claimset is not supported "));
                }
                (Claim::Entry(_), _) => {}
            }
        }

        Ok(())
"""))
RC("clm-tryforeach", "C30 C31", (_OII, _SUPLOOP, """        claimset.iter().try_for_each(|(key, entry)| {
            let found =
                supported.get(key).ok_or_else(|| anyhow!("{key} claim is not supported"))?;
            if let Claim::Set(req_nested) = entry {
                if let Claim::Set(sup_nested) = found {
                    return Self::claims_supported(req_nested, sup_nested);
                }
                return Err(anyhow!("{key} claimset is not supported "));
            }
            Ok(())
        })
"""))
RC("clm-any", "C30 C31", (_OII, _SUPLOOP, """        if let Some(key) = claimset.keys().find(|k| !supported.contains_key(*k)) {
            return Err(anyhow!("{key} claim is not supported"));
        }
        for (key, entry) in claimset {
            if let Claim::Set(req_nested) = entry {
                let Claim::Set(sup_nested) = &supported[key] else {
                    return Err(anyhow!("{key} claimset is not supported "));
                };
                Self::claims_supported(req_nested, sup_nested)?;
            }
        }

        Ok(())
"""))
RC("clm-verify-once", "C30 C31", (_OII, """        if !claimset.is_empty() {
            if let Some(claims) = &self.format.claims() {
                Self::claims_supported(claimset, claims)?;
            }
        }

        // ensure all mandatory claims are present
        if let Some(claims) = &self.format.claims() {
            return Self::claims_required(claimset, claims);
        }

        Ok(())
""", """        let Some(claims) = self.format.claims() else {
            return Ok(());
        };
        Self::claims_supported(claimset, &claims)?;
        Self::claims_required(claimset, &claims)
"""))
RC("clm-required-match", "C30 C31", (_OII, """                    #[allow(clippy::or_fun_call)]
                    if let Claim::Set(req_nested) =
                        requested.get(key).unwrap_or(&Claim::Set(HashMap::new()))
                    {
                        Self::claims_required(req_nested, sup_nested)?;
                    } else {
                        return Err(anyhow!("{key} claim is not supported"));
                    }
""", """                    match requested.get(key) {
                        None => Self::claims_required(&HashMap::new(), sup_nested)?,
                        Some(Claim::Set(req_nested)) => {
                            Self::claims_required(req_nested, sup_nested)?;
                        }
                        Some(Claim::Entry(_)) => {
                            return Err(anyhow!("{key} claim is not supported"));
                        }
                    }
"""), (_OII, """                    if def.mandatory.unwrap_or_default() && requested.get(key).is_none() {""", """                    if def.mandatory == Some(true) && !requested.contains_key(key) {"""))
RC("err-helper", "C30 C32", (_OE, """        let Ok(error) = serde_json::from_str::<OidError>(&self.to_string()) else {
            return Err(SerdeError::custom("issue deserializing Err"));
        };
        error.serialize(serializer)
""", """        match serde_json::from_str::<OidError>(&self.to_string()) {
            Ok(error) => error.serialize(serializer),
            Err(_) => Err(SerdeError::custom("issue deserializing Err")),
        }
"""))
RC("err-json-tostring", "C30 C32", (_OE, """fn json(text: &str) -> serde_json::Value {
    serde_json::Value::from(text)
}""", """fn json(text: &str) -> serde_json::Value {
    serde_json::Value::String(text.to_string())
}"""))
RC("err-json-text", "C30 C32", (_OE, """fn json(text: &str) -> serde_json::Value {
    serde_json::Value::from(text)
}""", """fn json(text: &str) -> String {
    serde_json::Value::String(text.to_owned()).to_string()
}"""))
RC("err-tojson-value", "C30 C32", (_OE, """        serde_json::from_str(&self.to_string()).unwrap_or_default()
""", """        serde_json::to_value(&self).unwrap_or_default()
"""))
RC("err-query-match", "C30 C32", (_OE, """        urlencode::to_string(&self).unwrap_or_default()
""", """        match urlencode::to_string(&self) {
            Ok(s) => s,
            Err(_) => String::new(),
        }
"""))
RC("pan-subject-match", "C30", ("crates/w3c-vc/src/proof/jose.rs", "Quota::Many(subs) => subs.first(),", "Quota::Many(subs) => {\n                if subs.is_empty() {\n                    None\n                } else {\n                    Some(&subs[0])\n                }\n            }"))
RC("pan-vp-chars", "C30", ("crates/w3c-vc/src/model/vp.rs", "if !s.starts_with('{') {", "if s.chars().next() != Some('{') {"))
RC("pan-first-helper", "C30", ("vercre-holder/src/issuance/credentials.rs", "display.first().and_then(|d| d.logo.as_ref())", "(if display.is_empty() { None } else { display[0].logo.as_ref() })"))
RC("pan-display-slice", "C30", ("vercre-holder/src/issuance/credentials.rs", "        if let Some(logo_info) = display.first().and_then(|d| d.logo.as_ref()) {\n            if let Some(uri) = &logo_info.uri {", "        if let [first, ..] = display.as_slice() {\n            if let Some(uri) = first.logo.as_ref().and_then(|l| l.uri.as_ref()) {"))
# ---- wallet
HI = "vercre-holder/src/issuance/"; HP = "vercre-holder/src/presentation/"; W4 = "C30 C33 C34 C35 C36"
RC("wal-status-match", W4, (HI + "accept.rs", "if issuance.status != Status::Ready {", "if !matches!(issuance.status, Status::Ready) {"))
RC("wal-pin-chain", W4, (HI + "accept.rs", """    if let Some(grants) = &issuance.offer.grants {
        if let Some(pre_auth_code) = &grants.pre_authorized_code {
            if pre_auth_code.tx_code.is_some() {
                issuance.status = Status::PendingPin;
            }
        }
    }
""", """    let needs_pin = issuance
        .offer
        .grants
        .as_ref()
        .and_then(|g| g.pre_authorized_code.as_ref())
        .is_some_and(|p| p.tx_code.is_some());
    if needs_pin {
        issuance.status = Status::PendingPin;
    }
"""))
RC("wal-narrow-iter", W4, (HI + "accept.rs", "    let mut auth_details = Vec::new();\n    for auth_spec in accept {", "    let mut auth_details = Vec::with_capacity(accept.len());\n    for auth_spec in accept.iter() {"))
RC("wal-offered-loop", W4, (HI + "accept.rs", """        if accepted.iter().any(|spec| !offered.contains(&spec.credential_configuration_id)) {
            let e = anyhow!("credential configuration accepted not found in offer");
            tracing::error!(target: "Endpoint::accept", ?e);
            return Err(e);
        }
""", """        for spec in accepted {
            if !offered.iter().any(|id| id == &spec.credential_configuration_id) {
                bail!("credential configuration accepted not found in offer");
            }
        }
"""))
RC("wal-token-preauth", W4, (HI + "token.rs", """    let pre_authed = if let Some(grants) = issuance.offer.grants.clone() {
        grants.pre_authorized_code.is_some()
    } else {
        false
    };
""", """    let pre_authed =
        issuance.offer.grants.as_ref().is_some_and(|grants| grants.pre_authorized_code.is_some());
"""))
RC("wal-token-match", W4, (HI + "token.rs", """    issuance.token = Issuer::token(&provider, token_request).await.map_err(|e| {
        tracing::error!(target: "Endpoint::token", ?e);
        e
    })?;
""", """    let response = match Issuer::token(&provider, token_request).await {
        Ok(response) => response,
        Err(e) => {
            tracing::error!(target: "Endpoint::token", ?e);
            return Err(e);
        }
    };
    issuance.token = response;
"""))
RC("wal-authz-collect", W4, (HI + "token.rs", """    let mut authorized = HashMap::new();
    for auth in details {
        let cfg_id = match &auth.authorization_detail.credential {
            CredentialAuthorization::ConfigurationId {
                credential_configuration_id,
                ..
            } => credential_configuration_id,
            CredentialAuthorization::Format(cfmt) => {
                issuance.issuer.credential_configuration_id(cfmt)?
            }
        };
        authorized.insert(cfg_id.into(), auth.credential_identifiers.clone());
    }
    Ok(authorized)
""", """    details
        .iter()
        .map(|auth| {
            let cfg_id = match &auth.authorization_detail.credential {
                CredentialAuthorization::ConfigurationId {
                    credential_configuration_id,
                    ..
                } => credential_configuration_id,
                CredentialAuthorization::Format(cfmt) => {
                    issuance.issuer.credential_configuration_id(cfmt)?
                }
            };
            Ok((cfg_id.clone(), auth.credential_identifiers.clone()))
        })
        .collect()
"""))
RC("wal-authz-details", W4, (HI + "authorize.rs", """    if issuance.accepted.is_some() {
        return Ok(issuance.accepted.clone().unwrap());
    }
""", """    if let Some(accepted) = &issuance.accepted {
        return Ok(accepted.clone());
    }
"""))
RC("wal-state-check", W4, (HI + "authorize.rs", "if auth_response.state.as_ref() != Some(&issuance.id) {", "if !auth_response.state.as_ref().is_some_and(|state| *state == issuance.id) {"))
RC("wal-issuer-state", W4, (HI + "authorize.rs", """            if let Some(grants) = issuance.offer.grants.clone() {
                grants
                    .authorization_code
                    .as_ref()
                    .and_then(|auth_code| auth_code.issuer_state.clone())
            } else {
                None
            }
""", """            match &issuance.offer.grants {
                Some(grants) => match &grants.authorization_code {
                    Some(auth_code) => auth_code.issuer_state.clone(),
                    None => None,
                },
                None => None,
            }
"""))
RC("wal-ids-filter", W4, (HI + "credentials.rs", """            if let Some(ref ids) = request.credential_identifiers {
                if !ids.contains(cred_id) {
                    continue;
                }
            }
""", """            let selected =
                request.credential_identifiers.as_ref().map_or(true, |ids| ids.contains(cred_id));
            if !selected {
                continue;
            }
"""))
RC("wal-process-helper", W4, (HI + "credentials.rs", """            for vc_kind in creds {
                let credential = credential(&provider, config, vc_kind).await?;
                credentials.push(credential);
            }
            Ok((Some(credentials), None))
""", """            let mut i = 0;
            while i < creds.len() {
                credentials.push(credential(&provider, config, &creds[i]).await?);
                i += 1;
            }
            Ok((Some(credentials), None))
"""))
RC("wal-nonce-if-let", W4, (HI + "credentials.rs", """            if cred_res.c_nonce.is_some() {
                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
            }
""", """            if let Some(nonce) = &cred_res.c_nonce {
                issuance.token.c_nonce = Some(nonce.clone());
            }
"""))
RC("wal-save-early", W4, (HI + "save.rs", """        match CredentialStorer::save(&provider, credential).await {
            Ok(()) => {}
            Err(e) => {""", """        let saved = CredentialStorer::save(&provider, credential).await;
        match saved {
            Ok(()) => continue,
            Err(e) => {"""))
RC("wal-descriptors-iter", W4, (HP + "present.rs", """    for n in 0..pd.input_descriptors.len() {
        let in_desc = &pd.input_descriptors[n];
""", """    for in_desc in &pd.input_descriptors {
"""))
RC("wal-holder-split-once", W4, (HP + "present.rs", "kid.split('#').collect::<Vec<&str>>()[0]", "kid.split_once('#').map_or(kid.as_str(), |(did, _)| did)"))
RC("wal-holder-next", W4, (HP + "present.rs", "kid.split('#').collect::<Vec<&str>>()[0]", "kid.split('#').next().unwrap_or_default()"))
RC("wal-request-match", W4, (HP + "request.rs", """    let RequestObjectType::Jwt(token) = &res.request_object else {
        bail!("no serialized JWT found in response");
    };
""", """    let token = match &res.request_object {
        RequestObjectType::Jwt(token) => token,
        RequestObjectType::Object(_) => bail!("no serialized JWT found in response"),
    };
"""))
RC("wal-filter-first", W4, (HP + "request.rs", """    if pd.input_descriptors.is_empty() {
        bail!("no input descriptors found");
    }
    let constraints = pd.input_descriptors[0].constraints.clone();

    Ok(constraints)
""", """    let Some(first) = pd.input_descriptors.first() else {
        bail!("no input descriptors found");
    };
    Ok(first.constraints.clone())
"""))

SERF = "crates/core/src/urlencode/ser.rs"
RC("ser-bytes-tryeach", "C03 C04", (SERF, """        for byte in v {
            seq.serialize_element(byte)?;
        }
        seq.end()""", """        v.iter().try_for_each(|byte| seq.serialize_element(byte))?;
        seq.end()"""))
RC("ser-bytes-collect", "C03 C04", (SERF, """        use serde::ser::SerializeSeq;
        let mut seq = self.serialize_seq(Some(v.len()))?;
        for byte in v {
            seq.serialize_element(byte)?;
        }
        seq.end()""", """        self.collect_seq(v)"""))
RC("ser-bytes-while", "C03 C04", (SERF, """        for byte in v {
            seq.serialize_element(byte)?;
        }""", """        let mut i = 0;
        while i < v.len() {
            seq.serialize_element(&v[i])?;
            i += 1;
        }"""))
RC("ser-variant-head", "C03 C04", (SERF, """        if self.level > TOP_LEVEL {
            self.output += "{";
            variant.serialize(&mut *self)?;
            self.output += ":[";
        } else {
            variant.serialize(&mut *self)?;
            self.output += "=[";
        }

        Ok(self)""", """        let top = self.level <= TOP_LEVEL;
        if !top {
            self.output.push('{');
        }
        self.serialize_str(variant)?;
        self.output.push_str(if top { "=[" } else { ":[" });

        Ok(self)"""))
RC("ser-variant-end", "C03 C04", (SERF, """        if self.level > TOP_LEVEL {
            self.output += "}}";
        } else {
            self.output += "}";
        }
        self.level -= 1;
        Ok(())""", """        self.output += "}";
        if self.level > TOP_LEVEL {
            self.output += "}";
        }
        self.level -= 1;
        Ok(())"""))

import pathlib as _pl
def SECT(name, file, start, end, body, checks=None, extra=()):
    """Whole-section rewrite: everything from `start` up to `end` is replaced by tools/rewrites/<body>."""
    t = (_pl.Path("/repo") / file).read_text()
    i = t.index(start); j = t.index(end, i) if end else len(t)
    R(name, (file, t[i:j], (_pl.Path(__file__).parent / "rewrites" / body).read_text()), *extra, checks=checks)
for _x in "abc": SECT("rw-matcher-" + _x, MAT, "impl Constraints {", "#[cfg(test)]", f"matcher_{_x}.rs", "C07 C08 C09 C10 C30".split())
SECT("rw-matcher-f", MAT, "impl Constraints {", "#[cfg(test)]", "matcher_f.rs", "C07 C08 C09 C10 C30".split())
_MC = "C12 C13 C14 C15".split()
SECT("rw-token-a", MT, "pub fn request", None, "token_a.rs", _MC, [(MT, "use quote::quote;", "use quote::{quote, ToTokens};")])
SECT("rw-credential-a", MC, "pub fn request", None, "credential_a.rs", _MC)
SECT("rw-offer-a", MO, "pub fn request", None, "create_offer_a.rs", _MC)
SECT("rw-authz-a", MA, "pub fn request", None, "authorization_a.rs", _MC, [(MA, "use proc_macro2::{Span, TokenStream};", "use proc_macro2::{Ident, Span, TokenStream};")])
SECT("rw-parse-a", MP, "impl Json {", "// Dump out", "parse_a.rs", _MC, [(MP, "use syn::punctuated::{Pair, Punctuated};", "use syn::punctuated::Punctuated;")])
for _x in "ab":
    SECT("rw-ser-" + _x, SER, "pub struct Serializer {", None, f"ser_{_x}.rs", "C03 C04 C30".split(), [(SER, "        level: 0,\n", "        open: Vec::new(),\n")] if _x == "b" else ())
    SECT("rw-url-" + _x, URL, "pub fn from_str<T>", "#[cfg(test)]", f"url_{_x}.rs", ["C05"], [(URL, "use serde_json::{Map, Value};", "use serde_json::map::Entry;\nuse serde_json::{Map, Value};")] if _x == "a" else ())
SECT("rw-gen-a", GEN, "/// Generates a base64 encoded random string for authorization code.", "// ///\n", "gen_a.rs", ["C01", "C02"])
SECT("rw-core-a", CORE, "impl<T: Default> Default for Quota<T>", None, "core_a.rs", ["C06"])
_FI = ("use quote::quote;", "use quote::{format_ident, quote, quote_spanned};")
SECT("rw-credential-b", MC, "pub fn request", None, "credential_b.rs", _MC, [(MC,) + _FI])
SECT("rw-offer-b", MO, "pub fn request", None, "create_offer_b.rs", _MC, [(MO, "use quote::quote;", "use quote::{format_ident, quote};")])
SECT("rw-token-b", MT, "pub fn request", None, "token_b.rs", _MC)
SECT("rw-parse-b", MP, "#[derive(Default, Clone)]", "// Dump out", "parse_b.rs", _MC)
for _x in "de": SECT("rw-matcher-" + _x, MAT, "impl Constraints {", "#[cfg(test)]", f"matcher_{_x}.rs", "C07 C08 C09 C10 C30".split())
SECT("rw-url-c", URL, "pub fn from_str<T>", "#[cfg(test)]", "url_c.rs", ["C05"])
SECT("rw-gen-b", GEN, "/// Generates a base64 encoded random string for authorization code.", "// ///\n", "gen_b.rs", ["C01", "C02"])
SECT("rw-authz-b", MA, "pub fn request", None, "authorization_b.rs", _MC, [(MA, "use quote::quote;", "use quote::{format_ident, quote};")])

_QD = "#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Quota<T> {"
def QEQ(body): return (CORE, "impl<T: Default> Default for Quota<T> {", "impl<T: PartialEq> PartialEq for Quota<T> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n" + body + "        }\n    }\n}\n\nimpl<T: Default> Default for Quota<T> {")
_QN = (CORE, _QD, _QD.replace(", PartialEq, Eq", ""))
R("quota-eq-zip", _QN, QEQ("            (Self::One(a), Self::One(b)) => a == b,\n            (Self::Many(a), Self::Many(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y),\n            _ => false,\n"))
R("quota-eq-iter", _QN, QEQ("            (Self::One(a), Self::One(b)) => a == b,\n            (Self::Many(a), Self::Many(b)) => a.iter().eq(b.iter()),\n            (Self::One(_), Self::Many(_)) | (Self::Many(_), Self::One(_)) => false,\n"))
R("quota-clone", (CORE, _QD, _QD.replace("Clone, ", "")), (CORE, "impl<T: Default> Default for Quota<T> {", "impl<T: Clone> Clone for Quota<T> {\n    fn clone(&self) -> Self {\n        match self {\n            Self::One(one) => Self::One(one.clone()),\n            Self::Many(many) => Self::Many(many.iter().cloned().collect()),\n        }\n    }\n}\n\nimpl<T: Default> Default for Quota<T> {"))
for _x in "cd": SECT("rw-ser-" + _x, SER, "pub struct Serializer {", None, f"ser_{_x}.rs", "C03 C04 C30".split())
R("gen-pin-u32", (GEN, "    random_string(PIN_LEN, PIN_CHARS)\n", "    format!(\"{:06}\", fastrand::u32(..1_000_000))\n"), checks=["C01", "C02"])
R("gen-pin-width", (GEN, "    random_string(PIN_LEN, PIN_CHARS)\n", "    let max = 10_u32.pow(u32::try_from(PIN_LEN).unwrap_or(6));\n    format!(\"{:0PIN_LEN$}\", fastrand::u32(0..max))\n"), checks=["C01", "C02"])
R("gen-pin-digit", (GEN, "    random_string(PIN_LEN, PIN_CHARS)\n", "    (0..PIN_LEN).map(|_| fastrand::digit(10)).collect()\n"), checks=["C01", "C02"])
R("pkce-excl", (PK, "fastrand::usize(MIN_LEN..=MAX_LEN)", "fastrand::usize(MIN_LEN..MAX_LEN)"))
R("gen-take-cycle", (GEN, "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n", "    let pick = |_| chars[fastrand::usize(..chars.len())];\n    (0..len).map(pick).collect::<String>()\n"))
R("gen-last", (GEN, "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n", "    let last = chars.len() - 1;\n    let mut text = String::new();\n    while text.chars().count() < len {\n        text.push(chars[fastrand::usize(..=last)]);\n    }\n    text\n"))
R("dif-num-ref", (MAT, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(num_node.to_string() == *const_str),"))
R("dif-find", (MAT, "Value::String(str_node) => Ok(re.is_match(str_node)),", "Value::String(str_node) => Ok(re.find(str_node).is_some()),"))
R("dif-date-F", (MAT, '"%Y-%m-%d"', '"%F"'))
R("dif-arr-some", (MAT, "Ok(arr_node.contains(&const_val))", "Ok(arr_node.iter().any(|v| v.as_str() == Some(const_str.as_str())))"))
R("dif-str-cmp", (MAT, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node.as_bytes() == const_str.as_bytes()),"))
R("dif-satisfied-fold", (MAT, '''        for field in fields {
            // if no match AND the field is not optional, constraints are not satisfied
            // (when the field is present, its value must match even if optional)
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
        }

        // all fields match
        Ok(true)
''', '''        fields.iter().try_fold(true, |satisfied, field| {
            if !satisfied {
                return Ok(false);
            }
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            Ok(field.matched(&vc_val)? || optional)
        })
'''))
R("dif-first", (MAT, '''            let nodes = jpath.query(vc).all();

            // no matches: try next path
            if nodes.is_empty() {
                continue;
            }
''', '''            let Some(node) = jpath.query(vc).first() else {
                continue;
            };
'''), (MAT, '''            // find FIRST node matching filter (in practice, there should only be one node)
            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            if filter.value.matched(node)? {
                return Ok(true);
            }
'''))
# --- batch 3
R("mac3-lit", (MP, '''        let rhs = if l.peek(syn::LitStr) {
            let string = input.parse::<syn::LitStr>()?.value();
            Self::String(string)
        } else if l.peek(syn::LitInt) {
            Self::Number(input.parse::<syn::LitInt>()?.base10_parse::<i64>()?)
        } else if l.peek(syn::LitBool) {
            Self::Bool(input.parse::<syn::LitBool>()?.value())
        } else if l.peek(token::Brace) {''', '''        let rhs = if l.peek(syn::Lit) {
            match input.parse::<syn::Lit>()? {
                syn::Lit::Str(s) => Self::String(s.value()),
                syn::Lit::Int(i) => Self::Number(i.base10_parse()?),
                syn::Lit::Bool(b) => Self::Bool(b.value()),
                other => return Err(Error::new(other.span(), "unexpected token")),
            }
        } else if l.peek(token::Brace) {'''))
R("mac3-parse-terminated", (MP, "Punctuated::<Field, token::Comma>::parse_terminated(&content)?", "content.parse_terminated(Field::parse, syn::Token![,])?"), (MP, "Punctuated::<Self, token::Comma>::parse_terminated(&contents)?", "contents.parse_terminated(Self::parse, syn::Token![,])?"), (MP, "use syn::punctuated::{Pair, Punctuated};", "use syn::punctuated::Pair;"))
R("mac3-manual-loop", (MP, '''            let items = Punctuated::<Self, token::Comma>::parse_terminated(&contents)?;
            let values = items.into_pairs().map(Pair::into_value).collect();
''', '''            let mut values = Vec::new();
            while !contents.is_empty() {
                values.push(contents.parse::<Self>()?);
                if contents.is_empty() {
                    break;
                }
                contents.parse::<token::Comma>()?;
            }
'''), (MP, "use syn::punctuated::{Pair, Punctuated};", "use syn::punctuated::Punctuated;"))
R("mac3-or-err", (MP, "struct Field {", '''pub trait OrErr<T> {
    fn or_err(self, message: &str) -> Result<T>;
}

impl<T> OrErr<T> for Option<T> {
    fn or_err(self, message: &str) -> Result<T> {
        self.ok_or_else(|| Error::new(Span::call_site(), message))
    }
}

struct Field {'''), (MC, "use crate::parse::{Json, Value};", "use crate::parse::{Json, OrErr, Value};"),
  (MC, '''        let Some(jwt) = proof.get("jwt") else {
            return Err(Error::new(span, "`jwt` is not set"));
        };''', '''        let jwt = proof.get("jwt").or_err("`jwt` is not set")?;'''),
  (MC, '''    let span = Span::call_site();
    let path = quote! {vercre_issuer};
    let Some(credential_definition) = defn_value.as_object() else {
        return Err(Error::new(span, "`credential_definition` must be an object"));
    };
    let Some(type_array) = credential_definition.get("type") else {
        return Err(Error::new(span, "`type` is not set"));
    };
''', '''    let path = quote! {vercre_issuer};
    let type_array = defn_value
        .as_object()
        .or_err("`credential_definition` must be an object")?
        .get("type")
        .or_err("`type` is not set")?;
''') if False else (MC, '''        let Some(proof) = p.as_object() else {
            return Err(Error::new(span, "`proof` must be an object"));
        };''', '''        let proof = p.as_object().or_err("`proof` must be an object")?;'''))
R("mac3-fields-vec", (MT, '''    Ok(quote! {
        #path::TokenGrantType::AuthorizationCode {
            code: #code,
            redirect_uri: #redirect_uri,
            code_verifier: Some(#code_verifier),
        }
    })
''', '''    let members =
        [quote! {code: #code}, quote! {redirect_uri: #redirect_uri}, quote! {code_verifier: Some(#code_verifier)}];
    Ok(quote! {#path::TokenGrantType::AuthorizationCode { #(#members),* }})
'''))
R("mac3-finish", (MP, '''    pub fn check_consumed(&self) -> Result<()> {
        if !self.fields.is_empty() {
            let keys = self.fields.keys().map(|k| format!("`{k}`")).collect::<Vec<_>>().join(", ");
            return Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")));
        }
        Ok(())
    }
''', '''    pub fn check_consumed(&self) -> Result<()> {
        let mut keys: Vec<_> = self.fields.keys().map(|k| format!("`{k}`")).collect();
        if keys.is_empty() {
            return Ok(());
        }
        keys.sort();
        Err(Error::new(Span::call_site(), format!("unexpected field(s): {}", keys.join(", "))))
    }
'''))
R("mac3-bail", (MP, "use std::collections::HashMap;\n", '''use std::collections::HashMap;

macro_rules! bail {
    ($($arg:tt)*) => { return Err(syn::Error::new(proc_macro2::Span::call_site(), format!($($arg)*))) };
}
pub(crate) use bail;
'''), (MO, "use crate::parse::{Json, Value};", "use crate::parse::{bail, Json, Value};"),
  (MO, 'return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));', 'bail!("`credential_configuration_ids` cannot be empty");'),
  (MO, 'return Err(Error::new(span, format!("unsupported grant type: {gt}")));', 'bail!("unsupported grant type: {gt}");'))
R("mac3-shared-type", (MP, "struct Field {", '''/// Checks the `type` of an authorization detail.
pub fn check_type(detail: &HashMap<String, Value>) -> Result<()> {
    let message = match detail.get("type").map(Value::as_str) {
        None => "`type` is not set",
        Some(Some("openid_credential") | None) => return Ok(()),
        Some(Some(_)) => "`type` must be `openid_credential`",
    };
    Err(Error::new(Span::call_site(), message))
}

struct Field {'''), *[(f, '''        if let Some(type_) = detail.get("type") {
            if let Some(t) = type_.as_str()
                && t != "openid_credential"
            {
                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''        crate::parse::check_type(detail)?;
''') for f in (MA, MT)])
R("mat3-anyhow-context", (MAT, '''            let Ok(jpath) = JsonPath::parse(path) else {
                return Err(anyhow!("Invalid JSONPath: {path}"));
            };
''', '''            let jpath = JsonPath::parse(path).map_err(|e| anyhow!("Invalid JSONPath: {path}: {e}"))?;
'''))
R("mat3-take-one", (MAT, '''            if let Some(node) = nodes.into_iter().next() {
                match filter.value.matched(node) {
                    Ok(true) => return Ok(true),
                    // not a match: try next path
                    Ok(false) => {}
                    Err(e) => return Err(e),
                }
            }
''', '''            for node in nodes.iter().take(1) {
                if filter.value.matched(node)? {
                    return Ok(true);
                }
            }
'''))
R("mat3-bail", (MAT, "use anyhow::{anyhow, Result};", "use anyhow::{anyhow, bail, ensure, Result};"), (MAT, '''        let Ok(vc_val) = claims.to_json() else {
            return Err(anyhow!("error serializing credential"));
        };
''', '''        let vc_val = claims.to_json();
        ensure!(vc_val.is_ok(), "error serializing credential");
        let vc_val = vc_val?;
'''), (MAT, '''        return Err(anyhow!("invalid regex pattern: {pattern}"));''', '''        bail!("invalid regex pattern: {pattern}");'''))
R("mat3-method", (MAT, '''            Self::Const(_) => match_const(self, vc_node),
            Self::Pattern(_) => match_pattern(self, vc_node),
            Self::Format(_) => match_format(self, vc_node),
''', '''            Self::Const(_) => match_const,
            Self::Pattern(_) => match_pattern,
            Self::Format(_) => match_format,
'''), (MAT, "    fn matched(&self, vc_node: &Value) -> Result<bool> {\n        match self {", "    fn matched(&self, vc_node: &Value) -> Result<bool> {\n        let check: fn(&Self, &Value) -> Result<bool> = match self {"), (MAT, "            Self::Format(_) => match_format,\n        }\n", "            Self::Format(_) => match_format,\n        };\n        check(self, vc_node)\n"))
R("ser3-macro", (SER, '''impl ser::SerializeTuple for &mut Serializer {
    type Error = Error;
    type Ok = ();

    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if !self.output.ends_with('[') {
            self.output += ",";
        }
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= 1;
        Ok(())
    }
}
''', '''macro_rules! as_seq {
    ($trait:ident, $method:ident) => {
        impl ser::$trait for &mut Serializer {
            type Error = Error;
            type Ok = ();

            fn $method<T>(&mut self, value: &T) -> Result<()>
            where
                T: ?Sized + Serialize,
            {
                ser::SerializeSeq::serialize_element(self, value)
            }

            fn end(self) -> Result<()> {
                ser::SerializeSeq::end(self)
            }
        }
    };
}
as_seq!(SerializeTuple, serialize_element);
'''))
R("ser3-nested", (SER, "pub struct Serializer {\n    output: String,\n    level: usize,\n}\n", "pub struct Serializer {\n    output: String,\n    level: usize,\n}\n\nimpl Serializer {\n    const fn nested(&self) -> bool {\n        self.level > TOP_LEVEL\n    }\n}\n"), (SER, "if self.level > TOP_LEVEL {", "if self.nested() {"))
R("ser3-extend", (SER, '''            self.output += "{";
            variant.serialize(&mut *self)?;
            self.output += ":";
            value.serialize(&mut *self)?;
            self.output += "}";
''', '''            self.output.push('{');
            self.serialize_str(variant)?;
            self.output.extend([':']);
            value.serialize(&mut *self)?;
            self.output.insert(self.output.len(), '}');
'''.replace("self.serialize_str(variant)", "ser::Serializer::serialize_str(&mut *self, variant)").replace("self.output.insert(self.output.len(), '}');", "let end = self.output.len();\n            self.output.insert(end, '}');")))
# --- batch 4
_PAIR = '''        let Some((key, value)) = pair.split_once('=') else {
            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));
        };
'''
_BADP = '            return Err(Error::Message(format!("expected `key=value`, found `{pair}`")));\n        };\n'
R("url4-position", (URL, _PAIR, "        let Some(at) = pair.bytes().position(|b| b == b'=') else {\n" + _BADP + "        let (key, value) = (&pair[..at], &pair[at + 1..]);\n"))
R("url4-char-indices", (URL, _PAIR, "        let Some((at, _)) = pair.char_indices().find(|(_, c)| *c == '=') else {\n" + _BADP + "        let key = &pair[..at];\n        let value = &pair[at + 1..];\n"))
R("url4-splitn", (URL, _PAIR, "        let mut sides = pair.splitn(2, '=');\n        let (Some(key), Some(value)) = (sides.next(), sides.next()) else {\n" + _BADP))
R("url4-split-at", (URL, _PAIR, "        let Some(at) = pair.find('=') else {\n" + _BADP + "        let (key, value) = pair.split_at(at);\n        let value = &value[1..];\n"))
_DEC = '''        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
'''
R("url4-map-array", (URL, _DEC, "        let [key, value] = [key, value].map(|s| percent_decode_str(s).decode_utf8_lossy().into_owned());\n"))
R("url4-to-string", (URL, _DEC, "        let key = percent_decode_str(key).decode_utf8_lossy().to_string();\n        let value = String::from(percent_decode_str(value).decode_utf8_lossy());\n"))
_JS = '''        let field = if value.starts_with(['{', '[']) {
            serde_json::from_str(&value).unwrap_or(Value::String(value))
        } else {
            Value::String(value)
        };
'''
R("url4-first-byte", (URL, _JS, "        let field = match value.as_bytes().first() {\n            Some(b'{' | b'[') => serde_json::from_str(&value).unwrap_or(Value::String(value)),\n            _ => Value::from(value),\n        };\n"))
R("url4-chars-next", (URL, _JS, "        let nested = matches!(value.chars().next(), Some('{' | '['));\n        let json = if nested { serde_json::from_str::<Value>(&value).ok() } else { None };\n        let field = json.unwrap_or_else(|| Value::String(value));\n"))
R("url4-then", (URL, _JS, "        let nested = value.starts_with('{') || value.starts_with('[');\n        let field = nested.then(|| serde_json::from_str(&value).ok()).flatten().unwrap_or(Value::String(value));\n"))
R("url4-iflet", (URL, '''        if fields.insert(key, field).is_some() {
            return Err(Error::Message("duplicate field".to_string()));
        }
''', '''        if let Some(_previous) = fields.insert(key, field) {
            return Err(Error::Message(String::from("duplicate field")));
        }
'''))
R("url4-collect-string", (URL, "for pair in s.split('&') {", "let pairs: Vec<&str> = s.split('&').collect();\n    for pair in pairs.iter().copied() {"))
# serializer
R("ser4-format", (SER, '''            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
        } else {
            self.output += &utf8_percent_encode(v, CONTENT).to_string();
        }
''', '''            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
            self.output.extend(utf8_percent_encode(&json, CONTENT));
        } else {
            self.output.extend(utf8_percent_encode(v, CONTENT));
        }
'''))
R("ser4-collect", (SER, "    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();\n    Ok(encoded)", "    Ok(utf8_percent_encode(&serializer.output, UNRESERVED).collect())"))
R("ser4-cow", (SER, "    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();\n    Ok(encoded)", "    let encoded: std::borrow::Cow<'_, str> = utf8_percent_encode(&serializer.output, UNRESERVED).into();\n    Ok(encoded.into_owned())"))
R("ser4-json-value", (SER, "let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;", "let json = serde_json::Value::from(v).to_string();"))
R("ser4-json-display", (SER, "let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;", "let json = serde_json::Value::String(v.to_owned()).to_string();"))
R("ser4-format-str", (SER, "            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;\n            self.output += &utf8_percent_encode(&json, CONTENT).to_string();", "            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;\n            self.output += &format!(\"{}\", utf8_percent_encode(&json, CONTENT));"))
R("ser4-level-check", (SER, "        self.level += 1;\n        self.output += \"[\";", "        self.level = self.level.saturating_add(1);\n        self.output.push('[');"))
R("ser4-checked", (SER, "        self.level += 1;\n        self.output += \"[\";", "        let Some(level) = self.level.checked_add(1) else {\n            return Err(Error::Message(\"too deep\".to_string()));\n        };\n        self.level = level;\n        self.output.push_str(\"[\");"))
R("ser4-last-char", (SER, "if !self.output.ends_with('[') {", "if self.output.chars().last() != Some('[') {"))
R("ser4-next-back", (SER, "if !self.output.ends_with('[') {", "if self.output.chars().next_back() != Some('[') {"))
R("ser4-bytes-last", (SER, "if !self.output.ends_with('[') {", "if self.output.as_bytes().last() != Some(&b'[') {"))
# matcher
R("mat4-array-str", (MAT, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", "Value::Array(arr_node) => {\n            let found = arr_node.iter().find(|v| **v == const_val);\n            Ok(found.is_some())\n        }"))
R("mat4-array-pos", (MAT, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", "Value::Array(arr_node) => Ok(arr_node.iter().position(|v| v == const_str).is_some()),"))
R("mat4-eq-value", (MAT, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(_) => Ok(*vc_node == const_val),"))
R("mat4-as-str", (MAT, "        Value::String(str_node) => Ok(re.is_match(str_node)),\n        Value::Number(num_node) => Ok(re.is_match(&num_node.to_string())),\n        Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),", "        Value::Number(num_node) => Ok(re.is_match(&num_node.to_string())),\n        other => Ok(other.as_str().is_some_and(|s| re.is_match(s))),"))
R("mat4-count", (MAT, "Ok(arr_node.iter().filter_map(Value::as_str).any(|str_node| re.is_match(str_node)))", "Ok(arr_node.iter().filter(|v| v.as_str().map_or(false, |s| re.is_match(s))).count() > 0)"))
R("mat4-format-tuple", (MAT, '''    match format.as_str() {
        "date" => match vc_node {
            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
            _ => Ok(false),
        },
        "date-time" => match vc_node {
            Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
            _ => Ok(false),
        },
        _ => Err(anyhow!("unsupported format: {format}")),
    }
''', '''    let is_format: fn(&str) -> bool = match format.as_str() {
        "date" => |s| NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok(),
        "date-time" => |s| DateTime::parse_from_rfc3339(s).is_ok(),
        other => return Err(anyhow!("unsupported format: {other}")),
    };
    Ok(vc_node.as_str().is_some_and(is_format))
'''))
R("mat4-optional", (MAT, "field.optional.unwrap_or_default() && !field.present(&vc_val)", "field.optional == Some(true) && !field.present(&vc_val)"))
R("mat4-optional2", (MAT, "field.optional.unwrap_or_default() && !field.present(&vc_val)", "matches!(field.optional, Some(true)) && !field.present(&vc_val)"))
R("mat4-find-map", (MAT, '''        self.path
            .iter()
            .filter_map(|path| JsonPath::parse(path).ok())
            .any(|jpath| !jpath.query(vc).all().is_empty())
''', '''        self.path
            .iter()
            .flat_map(|path| JsonPath::parse(path))
            .find_map(|jpath| jpath.query(vc).first())
            .is_some()
'''))
# --- batch 5: hand-written wire formats
_Q5 = "#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Quota<T> {"
_Q5I = "impl<T: Default> Default for Quota<T> {"
def QSER(body): return ((CORE, _Q5, _Q5.replace(", Serialize", "")), (CORE, _Q5I, "impl<T: Serialize> Serialize for Quota<T> {\n    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {\n        match self {\n" + body + "        }\n    }\n}\n\n" + _Q5I))
R("quota5-ser", *QSER("            Self::One(one) => one.serialize(serializer),\n            Self::Many(many) => many.serialize(serializer),\n"))
R("quota5-ser-collect", *QSER("            Self::One(one) => one.serialize(serializer),\n            Self::Many(many) => serializer.collect_seq(many),\n"))
R("quota5-de", (CORE, _Q5, _Q5.replace("Deserialize, ", "")), (CORE, _Q5I, "impl<'de, T: Deserialize<'de>> Deserialize<'de> for Quota<T> {\n    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {\n        #[derive(Deserialize)]\n        #[serde(untagged)]\n        enum Repr<T> {\n            One(T),\n            Many(Vec<T>),\n        }\n        Ok(match Repr::deserialize(deserializer)? {\n            Repr::One(one) => Self::One(one),\n            Repr::Many(many) => Self::Many(many),\n        })\n    }\n}\n\n" + _Q5I))
R("dif5-fromstr", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)", "        serde_json::from_slice(s.as_bytes()).map_err(Into::into)"))
R("dif5-fromstr-q", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)", "        let submission: Self = serde_json::from_str(s)?;\n        Ok(submission)"))
R("dif5-fromstr-ctx", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)", "        use anyhow::Context;\n        serde_json::from_str(s).context(\"issue parsing submission\")"))
R("dif5-fromstr-match", (DIF, "        Ok(serde_json::from_str::<Self>(s)?)", "        match serde_json::from_str::<Self>(s) {\n            Ok(submission) => Ok(submission),\n            Err(e) => Err(anyhow::anyhow!(\"issue parsing submission: {e}\")),\n        }"))
# --- batch 6
R("mac6-json-take", (MP, '''    pub fn option(&mut self, key: &str) -> Value {
        self.fields.remove(key).map_or_else(
            || Value::Tokens(quote! {None}),
            |v: Value| Value::Tokens(quote! {Some(#v.into())}),
        )
    }
''', '''    pub fn option(&mut self, key: &str) -> Value {
        let tokens = match self.get(key) {
            None => quote! {None},
            Some(v) => {
                let v = v.to_token_stream();
                quote! {Some((#v).into())}
            }
        };
        Value::Tokens(tokens)
    }
'''))
R("mac6-into-method", (MP, "Ok(Value::Tokens(quote! {Into::into(#v)}))", "Ok(Value::Tokens(quote! {(#v).into()}))"))
R("mac6-from", (MP, "Ok(Value::Tokens(quote! {Into::into(#v)}))", "Ok(Value::Tokens(quote! {::core::convert::Into::into(#v)}))"))
R("mac6-string-from", (MP, "tokens.extend(quote! { #s.to_string() })", "tokens.extend(quote! { String::from(#s) })"))
R("mac6-string-owned", (MP, "tokens.extend(quote! { #s.to_string() })", "tokens.extend(quote! { #s.to_owned() })"))
R("mac6-none-path", (MP, "|| Value::Tokens(quote! {None}),", "|| Value::Tokens(quote! {::core::option::Option::None}),"))
R("mac6-claims-insert", (MA, '''    quote! {
        Some(std::collections::HashMap::from([#(#claims),*]))
    }
''', '''    quote! {
        Some([#(#claims),*].into_iter().collect::<std::collections::HashMap<_, _>>())
    }
'''))
R("mac6-claims-sorted", (MA, "    let claims = claimset.iter().map(|(k, v)| {", "    let mut claimset: Vec<_> = claimset.iter().collect();\n    claimset.sort_by(|a, b| a.0.cmp(b.0));\n    let claims = claimset.into_iter().map(|(k, v)| {"))
R("mac6-span", (MO, '''    let span = Span::call_site();
    let path = quote! {vercre_issuer};

    let mut input = input.clone();
''', '''    let mut input = input.clone();
    let span = Span::call_site();
    let path = quote! {vercre_issuer};
'''))
R("mac6-vec-elements", (MT, '''        tokens.extend(quote! {
            #path::AuthorizationDetail {
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #configuration,
                locations: None
            },
        });
    }

    Ok(quote! {vec![#tokens]})
''', '''        elements.push(quote! {
            #path::AuthorizationDetail {
                locations: None,
                type_: #path::AuthorizationDetailType::OpenIdCredential,
                credential: #configuration,
            }
        });
    }

    Ok(quote! {vec![#(#elements,)*]})
'''), (MT, "    let mut tokens = TokenStream::new();\n", "    let mut elements = Vec::with_capacity(details.len());\n"))
R("mac6-to-vec", (MP, "tokens.extend(quote! { vec![#(#values),*] });", "tokens.extend(quote! { Vec::from([#(#values),*]) });"))
R("mac6-append", (MP, "            Self::Tokens(t) => tokens.extend(t.clone()),", "            Self::Tokens(t) => t.to_tokens(tokens),"))
R("mac6-is-some-and", (MC, '''        if let Some(proof_type) = proof.get("proof_type") {
            if proof_type.as_str() != Some("jwt") {
                return Err(Error::new(span, "`proof_type` must be `jwt`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''        let Some(proof_type) = proof.get("proof_type") else {
            return Err(Error::new(span, "`type` is not set"));
        };
        if !proof_type.as_str().is_some_and(|t| t == "jwt") {
            return Err(Error::new(span, "`proof_type` must be `jwt`"));
        }
'''))
R("mac6-filter-ids", (MO, '''    if ids.is_empty() {
        return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
    }
''', '''    if ids.first().is_none() {
        return Err(Error::new(span, "`credential_configuration_ids` cannot be empty"));
    }
'''))
R("mac6-gt-iter", (MO, '''        for gt in gts {
            let Some(gt) = gt.as_str() else {
                return Err(Error::new(span, "`grant_types` must be strings"));
            };
            match gt {
                "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                }
                "authorization_code" => {
                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                }
                _ => {
                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                }
            }
        }
''', '''        for gt in gts {
            let name = match gt.as_str() {
                Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") => "PreAuthorizedCode",
                Some("authorization_code") => "AuthorizationCode",
                Some(gt) => return Err(Error::new(span, format!("unsupported grant type: {gt}"))),
                None => return Err(Error::new(span, "`grant_types` must be strings")),
            };
            let variant = proc_macro2::Ident::new(name, span);
            tokens.extend(quote! {#path::GrantType::#variant,});
        }
'''))
R("mac6-let-else", (MT, '''    let grant_type =
        if grant_type.as_str() == Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") {
            pre_authorized_code(&mut input)?
        } else if grant_type.as_str() == Some("authorization_code") {
            authorization_code(&mut input)?
        } else {
            return Err(Error::new(Span::call_site(), "unknown `grant_type`"));
        };
''', '''    const BUILDERS: [(&str, fn(&mut Json) -> Result<TokenStream>); 2] = [
        ("urn:ietf:params:oauth:grant-type:pre-authorized_code", pre_authorized_code),
        ("authorization_code", authorization_code),
    ];
    let Some((_, build)) = BUILDERS.iter().find(|(name, _)| grant_type.as_str() == Some(*name)) else {
        return Err(Error::new(Span::call_site(), "unknown `grant_type`"));
    };
    let grant_type = build(&mut input)?;
'''))
# ---- batch 7: services, further styles
IT = "vercre-issuer/src/token.rs"; IC = "vercre-issuer/src/credential.rs"; IA = "vercre-issuer/src/authorize.rs"; VR = "vercre-verifier/src/response.rs"
W5 = "C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32".split()
R("svc7-token-verify-split", (IT, '''                // code_verifier
                let Some(verifier) = &code_verifier else {
                    return Err(Error::AccessDenied("`code_verifier` is missing".into()));
                };

                // code_verifier matches code_challenge
                let challenge = pkce::code_challenge(verifier);

                if challenge != auth_state.code_challenge {
                    return Err(Error::AccessDenied("`code_verifier` is invalid".into()));
                }
''', '''                verify_pkce(code_verifier.as_deref(), &auth_state.code_challenge)?;
'''), (IT, '''// Verify requested claims exist as supported claims and all mandatory claims
''', '''// Verify the PKCE code verifier against the challenge.
fn verify_pkce(code_verifier: Option<&str>, code_challenge: &str) -> Result<()> {
    match code_verifier.map(|v| pkce::code_challenge(&v.to_string())) {
        None => Err(Error::AccessDenied("`code_verifier` is missing".into())),
        Some(challenge) if challenge == code_challenge => Ok(()),
        Some(_) => Err(Error::AccessDenied("`code_verifier` is invalid".into())),
    }
}

// Verify requested claims exist as supported claims and all mandatory claims
'''), checks=W5)
R("svc7-token-retain-find", (IT, '''        // check requested `authorization_detail` has been previously authorized
        let mut found = false;
        for item in items {
            if let ItemType::AuthorizationDetail(ad) = &item.item {
                if ad.credential == auth_det.credential {
                    verify_claims(&issuer, &auth_det.credential)?;
                    retained.push(item.clone());
                    found = true;
                    break;
                }
            }
        }

        if !found {
            // we're here if requested `authorization_detail` has not been authorized
            return Err(Error::AccessDenied("requested credential has not been authorized".into()));
        }
''', '''        let Some(item) = items.iter().find(|item| {
            matches!(&item.item, ItemType::AuthorizationDetail(ad) if ad.credential == auth_det.credential)
        }) else {
            return Err(Error::AccessDenied("requested credential has not been authorized".into()));
        };
        verify_claims(&issuer, &auth_det.credential)?;
        retained.push(item.clone());
'''), checks=W5)
R("svc7-token-details-filter", (IT, '''    let mut authorization_details = vec![];

    for item in items {
        if let ItemType::AuthorizationDetail(ad) = &item.item {
            authorization_details.push(AuthorizedDetail {
                authorization_detail: ad.clone(),
                credential_identifiers: item.credential_identifiers.clone(),
            });
        }
    }

    if authorization_details.is_empty() {
        return None;
    }
    Some(authorization_details)
''', '''    let authorization_details: Vec<AuthorizedDetail> = items
        .iter()
        .filter_map(|item| match &item.item {
            ItemType::AuthorizationDetail(ad) => Some(AuthorizedDetail {
                authorization_detail: ad.clone(),
                credential_identifiers: item.credential_identifiers.clone(),
            }),
            ItemType::Scope(_) => None,
        })
        .collect();
    (!authorization_details.is_empty()).then_some(authorization_details)
'''), checks=W5)
R("svc7-token-now", (IT, '''        // update state
        let mut state = self.state.clone();
        state.expires_at = Utc::now() + Expire::Access.duration();
        state.stage = Stage::Validated(Token {
            access_token: access_token.clone(),
            credentials: authorized,
            c_nonce: c_nonce.clone(),
            c_nonce_expires_at: Utc::now() + Expire::Nonce.duration(),
        });
''', '''        // update state
        let now = Utc::now();
        let token = Token {
            access_token: access_token.clone(),
            credentials: authorized,
            c_nonce: c_nonce.clone(),
            c_nonce_expires_at: now + Expire::Nonce.duration(),
        };
        let state = State {
            expires_at: now + Expire::Access.duration(),
            stage: Stage::Validated(token),
            ..self.state.clone()
        };
'''), checks=W5)
R("svc7-token-scope-helper", (IT, '''            if let Some(client_scope) = &client.oauth.scope {
                if let Some(server_scopes) = &server.oauth.scopes_supported {
                    let scopes: Vec<&str> = client_scope.split_whitespace().collect();
                    if !scopes.iter().all(|s| server_scopes.contains(&(*s).to_string())) {
                        return Err(Error::InvalidRequest("client scope not supported".into()));
                    }
                } else {
                    return Err(Error::InvalidRequest("server supported scopes not set".into()));
                }
            } else {
                return Err(Error::InvalidRequest("client scope not set".into()));
            }
''', '''            let Some(client_scope) = &client.oauth.scope else {
                return Err(Error::InvalidRequest("client scope not set".into()));
            };
            let Some(server_scopes) = &server.oauth.scopes_supported else {
                return Err(Error::InvalidRequest("server supported scopes not set".into()));
            };
            if client_scope.split_whitespace().any(|s| !server_scopes.iter().any(|t| t == s)) {
                return Err(Error::InvalidRequest("client scope not supported".into()));
            }
'''), checks=W5)
R("svc7-token-anon", (IT, '''                if request.client_id.as_ref().map_or(true, String::is_empty)
                    && !server.pre_authorized_grant_anonymous_access_supported
                {
''', '''                let anonymous = match &request.client_id {
                    Some(id) => id.is_empty(),
                    None => true,
                };
                if anonymous && !server.pre_authorized_grant_anonymous_access_supported {
'''), checks=W5)
R("svc7-token-client", (IT, '''                if request.client_id.is_none() {
                    return Err(Error::InvalidRequest("`client_id` is missing".into()));
                }
                if request.client_id.as_ref() != Some(&auth_state.client_id) {
                    return Err(Error::InvalidClient(
                        "`client_id` differs from authorized one".into(),
                    ));
                }
''', '''                let Some(client_id) = &request.client_id else {
                    return Err(Error::InvalidRequest("`client_id` is missing".into()));
                };
                if *client_id != auth_state.client_id {
                    return Err(Error::InvalidClient(
                        "`client_id` differs from authorized one".into(),
                    ));
                }
'''), checks=W5)
R("svc7-cred-proofs-slice", (IC, '''            let proof_jwts = match proof {
                Proof::Single { proof_type } => match proof_type {
                    SingleProof::Jwt { jwt } => &vec![jwt.clone()],
                },
                Proof::Multiple(proofs_type) => match proofs_type {
                    MultipleProofs::Jwt(proof_jwts) => proof_jwts,
                },
            };
''', '''            let proof_jwts: &[String] = match proof {
                Proof::Single { proof_type: SingleProof::Jwt { jwt } } => std::slice::from_ref(jwt),
                Proof::Multiple(MultipleProofs::Jwt(proof_jwts)) => proof_jwts.as_slice(),
            };
'''), checks=W5)
R("svc7-cred-proof-claims", (IC, '''                // previously issued c_nonce
                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                    return Err(self
                        .invalid_proof(provider, "Proof JWT nonce claim is invalid")
                        .await?);
                }

                // proof is intended for this issuer
                if jwt.claims.aud != request.credential_issuer {
                    return Err(self
                        .invalid_proof(provider, "Proof JWT 'aud' is not the credential issuer")
                        .await?);
                }
''', '''                let fault = if jwt.claims.nonce.as_deref() != Some(token_state.c_nonce.as_str()) {
                    Some("Proof JWT nonce claim is invalid")
                } else if jwt.claims.aud != request.credential_issuer {
                    Some("Proof JWT 'aud' is not the credential issuer")
                } else {
                    None
                };
                if let Some(fault) = fault {
                    return Err(self.invalid_proof(provider, fault).await?);
                }
'''), checks=W5)
R("svc7-cred-did", (IC, '''                let Some(did) = kid.split('#').next() else {
                    return Err(self.invalid_proof(provider, "Proof JWT DID is invalid").await?);
                };

                // TODO: support multiple DID bindings
                self.holder_did = did.into();
''', '''                let did = kid.split_once('#').map_or(kid.as_str(), |(did, _)| did);

                // TODO: support multiple DID bindings
                self.holder_did = did.to_string();
'''), checks=W5)
R("svc7-cred-state", (IC, '''        let mut state = self.state.clone();
        state.expires_at = Utc::now() + Expire::Access.duration();

        let Stage::Validated(mut token_state) = state.stage else {
            return Err(Error::AccessDenied("invalid access token state".into()));
        };
        token_state.c_nonce = gen::nonce();
        token_state.c_nonce_expires_at = Utc::now() + Expire::Nonce.duration();
        state.stage = Stage::Validated(token_state.clone());
''', '''        let Stage::Validated(mut token_state) = self.state.stage.clone() else {
            return Err(Error::AccessDenied("invalid access token state".into()));
        };
        let c_nonce = gen::nonce();
        token_state.c_nonce.clone_from(&c_nonce);
        token_state.c_nonce_expires_at = Utc::now() + Expire::Nonce.duration();
        let mut state = State {
            stage: Stage::Validated(token_state.clone()),
            expires_at: Utc::now() + Expire::Access.duration(),
            ..self.state.clone()
        };
''', ), checks=W5)
R("svc7-cred-format-early", (IC, '''        let (response, credential) = match &self.configuration.format {
            Format::JwtVcJson(w3c) => {
                let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
            }
''', '''        let (response, credential) = match &self.configuration.format {
            Format::JwtVcJson(w3c) => {
                let definition = &w3c.credential_definition;
                let credential = self.w3c_vc(provider, definition, dataset).await?;
                let response = self.jwt_vc_json(credential.clone(), signer, issuance_date).await?;
                (response, credential)
            }
'''), checks=W5)
R("svc7-cred-jwt-inline", (IC, '''        let jwt = proof::create(
            W3cFormat::JwtVcJson,
            Payload::Vc {
                vc: vc.clone(),
                issued_at: issuance_date.timestamp(),
            },
            signer,
        )
        .await
        .map_err(|e| {
            Error::ServerError(format!("issue generating `jwt_vc_json` credential: {e}"))
        })?;
        Ok(CredentialResponseType::Credential(Kind::String(jwt)))
''', '''        let payload = Payload::Vc {
            vc,
            issued_at: issuance_date.timestamp(),
        };
        match proof::create(W3cFormat::JwtVcJson, payload, signer).await {
            Ok(jwt) => Ok(CredentialResponseType::Credential(Kind::String(jwt))),
            Err(e) => Err(Error::ServerError(format!(
                "issue generating `jwt_vc_json` credential: {e}"
            ))),
        }
'''), checks=W5)
R("svc7-auth-par-match", (IA, '''            let Stage::PushedAuthorization(par) = &state.stage else {
                return Err(Error::InvalidRequest("invalid state".into()));
            };

            if par.expires_at < Utc::now() {
                return Err(Error::InvalidRequest("`request_uri` has expired".into()));
            }
            par.request.clone()
''', '''            match state.stage {
                Stage::PushedAuthorization(par) if Utc::now() <= par.expires_at => par.request,
                Stage::PushedAuthorization(_) => {
                    return Err(Error::InvalidRequest("`request_uri` has expired".into()));
                }
                _ => return Err(Error::InvalidRequest("invalid state".into())),
            }
'''), checks=W5)
R("svc7-auth-par-required", (IA, '''        if let Some(must_be_par) = server.oauth.require_pushed_authorization_requests {
            if must_be_par && !self.is_par {
                return Err(Error::InvalidRequest(
                    "pushed authorization request is required".into(),
                ));
            }
        }
''', '''        let par_required = server.oauth.require_pushed_authorization_requests.unwrap_or(false);
        if par_required && !self.is_par {
            return Err(Error::InvalidRequest("pushed authorization request is required".into()));
        }
'''), checks=W5)
R("svc7-auth-subject", (IA, '''            if state.is_expired() {
                return Err(Error::InvalidRequest("issuer state expired".into()));
            }

            if state.subject_id.as_ref() != Some(&request.subject_id) {
                return Err(Error::InvalidRequest(
                    "request `subject_id` does not match offer".into(),
                ));
            }
''', '''            if state.is_expired() {
                return Err(Error::InvalidRequest("issuer state expired".into()));
            }
            match &state.subject_id {
                Some(subject_id) if *subject_id == request.subject_id => {}
                _ => {
                    return Err(Error::InvalidRequest(
                        "request `subject_id` does not match offer".into(),
                    ));
                }
            }
'''), checks=W5)
R("svc7-auth-challenge", (IA, '''        if request.code_challenge.len() < 43 || request.code_challenge.len() > 128 {
''', '''        let len = request.code_challenge.len();
        if !(43..=128).contains(&len) {
'''), checks=W5)
R("svc7-ver-nonce-first", (VR, '''        // check presentation is intended for this Verifier
        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
            return Err(Error::InvalidRequest("client_id does not match".into()));
        }

        // else {
        //     return Err(Error::InvalidRequest("invalid vp_token".into()));
        // };
        if nonce != saved_req.nonce {
            return Err(Error::InvalidRequest("nonce does not match".into()));
        }
''', '''        if nonce != saved_req.nonce {
            return Err(Error::InvalidRequest("nonce does not match".into()));
        }
        // check presentation is intended for this Verifier
        if let Kind::String(_) = vp_val {
            if saved_req.client_id != client_id {
                return Err(Error::InvalidRequest("client_id does not match".into()));
            }
        }
'''), checks=W5)
R("svc7-ver-mapping-helper", (VR, '''        let Some(mapping) = desc_map.iter().find(|idmo| idmo.id == input.id) else {
            return Err(Error::InvalidRequest(format!(
                "input descriptor mapping req_obj not found for {}",
                input.id
            )));
        };
''', '''        let mapping = desc_map.iter().find(|idmo| idmo.id == input.id).ok_or_else(|| {
            Error::InvalidRequest(format!(
                "input descriptor mapping req_obj not found for {}",
                input.id
            ))
        })?;
'''), (VR, '''        if let Some(fmt) = input.format.as_ref() {
            if !fmt.contains_key(&mapping.path_nested.format) {
                return''', '''        if let Some(fmt) = input.format.as_ref() {
            if fmt.get(&mapping.path_nested.format).is_none() {
                return'''), checks=W5)
R("svc7-ver-satisfied", (VR, '''        if !input
            .constraints
            .satisfied(&vc)
            .map_err(|e| Error::ServerError(format!("issue matching constraints: {e}")))?
        {
            return Err(Error::InvalidRequest("input constraints not satisfied".into()));
        }

        // check VC is valid (hasn't expired, been revoked, etc)
        if vc.valid_until.is_some_and(|exp| exp < chrono::Utc::now()) {
            return Err(Error::InvalidRequest("credential has expired".into()));
        }
''', '''        match input.constraints.satisfied(&vc) {
            Ok(true) => {}
            Ok(false) => {
                return Err(Error::InvalidRequest("input constraints not satisfied".into()))
            }
            Err(e) => return Err(Error::ServerError(format!("issue matching constraints: {e}"))),
        }

        // check VC is valid (hasn't expired, been revoked, etc)
        if let Some(exp) = vc.valid_until {
            if chrono::Utc::now() > exp {
                return Err(Error::InvalidRequest("credential has expired".into()));
            }
        }
'''), checks=W5)
R("svc7-ver-one", (VR, '''    let vp_val: Value = match vps.len() {
        1 => serde_json::to_value(vps[0].clone())
            .map_err(|e| Error::ServerError(format!("issue converting VP to Value: {e}")))?,
        _ => serde_json::to_value(vps)
            .map_err(|e| Error::ServerError(format!("issue aggregating vp values: {e}")))?,
    };
''', '''    let vp_val: Value = if let [vp] = vps.as_slice() {
        serde_json::to_value(vp)
            .map_err(|e| Error::ServerError(format!("issue converting VP to Value: {e}")))?
    } else {
        serde_json::to_value(&vps)
            .map_err(|e| Error::ServerError(format!("issue aggregating vp values: {e}")))?
    };
'''), checks=W5)
# ---- batch 8: loops and control flow written unusually
SATLOOP = '''        for field in fields {
            // if no match AND the field is not optional, constraints are not satisfied
            // (when the field is present, its value must match even if optional)
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
        }
'''
R("pex8-loop-next", (MAT, SATLOOP, '''        let mut remaining = fields.iter();
        loop {
            let Some(field) = remaining.next() else { break };
            if field.matched(&vc_val)? {
                continue;
            }
            if field.optional != Some(true) || field.present(&vc_val) {
                return Ok(false);
            }
        }
'''))
R("pex8-while-index", (MAT, SATLOOP, '''        let mut i = 0;
        while i < fields.len() {
            let field = &fields[i];
            i += 1;
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
        }
'''))
R("pex8-split-first", (MAT, SATLOOP, '''        let mut rest = fields.as_slice();
        while let [field, tail @ ..] = rest {
            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
            rest = tail;
        }
'''))
R("pex8-ok-flag", (MAT, SATLOOP + '''
        // all fields match
        Ok(true)
''', '''        let mut all = true;
        for field in fields {
            let matched = field.matched(&vc_val)?;
            let absent = || field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !(matched || absent()) {
                all = false;
                break;
            }
        }
        Ok(all)
'''))
R("pex8-field-method", (MAT, '''            let optional = field.optional.unwrap_or_default() && !field.present(&vc_val);
            if !field.matched(&vc_val)? && !optional {
                return Ok(false);
            }
''', '''            if !field.satisfied(&vc_val)? {
                return Ok(false);
            }
'''), (MAT, '''impl Field {
''', '''impl Field {
    fn satisfied(&self, vc: &Value) -> Result<bool> {
        Ok(self.matched(vc)? || self.optional.is_some_and(|o| o) && !self.present(vc))
    }

'''))
R("pex8-trait-filter", (MAT, '''impl FilterValue {
    /// Check whether the result of a `JSONPath` query can be matched to the
    /// specified `FilterValue`.
    fn matched(&self, vc_node: &Value) -> Result<bool> {
''', '''trait Matches {
    fn matched(&self, vc_node: &Value) -> Result<bool>;
}

impl Matches for FilterValue {
    fn matched(&self, vc_node: &Value) -> Result<bool> {
'''))
R("pex8-const-json", (MAT, '''    let Ok(const_val) = serde_json::to_value(const_str) else {
        return Err(anyhow!("issue serializing match criteria"));
    };
''', '''    let const_val = Value::from(const_str.as_str());
'''))
R("pex8-dispatch-dyn", (MAT, '''        match self {
            Self::Const(_) => match_const(self, vc_node),
            Self::Pattern(_) => match_pattern(self, vc_node),
            Self::Format(_) => match_format(self, vc_node),
        }
''', '''        let matcher: fn(&Self, &Value) -> Result<bool> = match self {
            Self::Const(_) => match_const,
            Self::Pattern(_) => match_pattern,
            Self::Format(_) => match_format,
        };
        matcher(self, vc_node)
'''))
R("url8-loop-iter", (URL, "    for pair in s.split('&') {\n", "    let mut pairs = s.split('&');\n    while let Some(pair) = pairs.next() {\n"))
R("url8-labelled", (URL, "    for pair in s.split('&') {\n", "    'pairs: for pair in s.split('&') {\n"), (URL, '''        if fields.insert(key, field).is_some() {
            return Err(Error::Message("duplicate field".to_string()));
        }
''', '''        if fields.insert(key, field).is_none() {
            continue 'pairs;
        }
        return Err(Error::Message("duplicate field".to_string()));
'''))
R("url8-decode-closure", (URL, '''        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
''', '''        let decode = |raw: &str| -> String {
            let bytes: Vec<u8> = percent_decode_str(raw).collect();
            String::from_utf8_lossy(&bytes).into_owned()
        };
        let (key, value) = (decode(key), decode(value));
'''))
R("url8-nested-guard", (URL, '''        let field = if value.starts_with(['{', '[']) {
            serde_json::from_str(&value).unwrap_or(Value::String(value))
        } else {
            Value::String(value)
        };
''', '''        let field = match value.chars().next() {
            Some('{' | '[') => match serde_json::from_str::<Value>(&value) {
                Ok(nested) => nested,
                Err(_) => Value::String(value),
            },
            _ => value.into(),
        };
'''))
R("gen8-repeat-with", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    std::iter::repeat_with(|| chars[fastrand::usize(0..chars.len())]).take(len).collect()
'''))
R("gen8-while", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let mut out = String::new();
    let mut left = len;
    while left > 0 {
        out.push(chars[fastrand::usize(..chars.len())]);
        left -= 1;
    }
    out
'''))
R("gen8-vec-resize", (GEN, '''    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()
''', '''    let mut out: Vec<char> = Vec::with_capacity(len);
    out.resize_with(len, || chars[fastrand::usize(..chars.len())]);
    out.into_iter().collect()
'''))
R("core8-quota-take", (CORE, '''            Self::One(one) => {
                *self = Self::Many(vec![one.clone(), item]);
            }
''', '''            Self::One(one) => {
                let first = std::mem::take(one);
                *self = Self::Many(Vec::from([first, item]));
            }
'''))
R("core8-quota-as-slice", (CORE, '''        match self {
            Self::One(_) => 1,
            Self::Many(many) => many.len(),
        }
''', '''        self.as_slice().len()
'''), (CORE, '''        match self {
            Self::One(_) => false,
            Self::Many(many) => many.is_empty(),
        }
''', '''        self.as_slice().is_empty()
'''), (CORE, "impl<T: Clone + Default + PartialEq> Quota<T> {\n", '''impl<T> Quota<T> {
    fn as_slice(&self) -> &[T] {
        match self {
            Self::One(one) => std::slice::from_ref(one),
            Self::Many(many) => many,
        }
    }
}

impl<T: Clone + Default + PartialEq> Quota<T> {
'''))
R("core8-kind-not", (CORE, '''        match self {
            Self::String(_) => false,
            Self::Object(_) => true,
        }
''', '''        !self.is_string()
'''))
