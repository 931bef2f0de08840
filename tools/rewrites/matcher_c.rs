impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        if self.fields.is_none() {
            return Ok(true);
        }
        let vc = match claims.to_json() {
            Ok(vc) => vc,
            Err(_) => return Err(anyhow!("error serializing credential")),
        };
        let mut index = 0;
        let fields = self.fields.as_ref().map(Vec::as_slice).unwrap_or_default();
        while index < fields.len() {
            let field = &fields[index];
            if !Self::field_ok(field, &vc)? {
                return Ok(false);
            }
            index += 1;
        }
        Ok(true)
    }

    fn field_ok(field: &Field, vc: &Value) -> Result<bool> {
        let verdicts = field.verdicts(vc)?;
        if verdicts.is_empty() {
            return Ok(matches!(field.optional, Some(true)));
        }
        Ok(verdicts.contains(&true))
    }
}

impl Field {
    // the verdict on each path that selects a value, up to the first match
    fn verdicts(&self, vc: &Value) -> Result<Vec<bool>> {
        let mut verdicts = Vec::new();
        for path in &self.path {
            let nodes = query(path, vc)?;
            if let Some(node) = nodes.first() {
                let verdict = self.filter.as_ref().map_or(Ok(true), |f| f.value.matched(node))?;
                verdicts.push(verdict);
                if verdict {
                    break;
                }
            }
        }
        Ok(verdicts)
    }
}

fn query<'a>(path: &str, vc: &'a Value) -> Result<Vec<&'a Value>> {
    match JsonPath::parse(path) {
        Ok(jpath) => Ok(jpath.query(vc).all()),
        Err(_) => Err(anyhow!("Invalid JSONPath: {path}")),
    }
}

impl FilterValue {
    /// Check whether the result of a `JSONPath` query can be matched to the
    /// specified `FilterValue`.
    fn matched(&self, vc_node: &Value) -> Result<bool> {
        let outcome = match self {
            Self::Const(c) => match vc_node {
                Value::Array(arr) => arr.contains(&Value::String(c.clone())),
                Value::String(s) => s == c,
                Value::Number(n) => n.to_string() == *c,
                Value::Bool(_) | Value::Null | Value::Object(_) => false,
            },
            Self::Pattern(p) => {
                let re = Regex::new(p).map_err(|_| anyhow!("invalid regex pattern: {p}"))?;
                match vc_node {
                    Value::Array(arr) => {
                        arr.iter().any(|v| v.as_str().is_some_and(|s| re.is_match(s)))
                    }
                    Value::String(s) => re.is_match(s),
                    Value::Number(n) => re.is_match(n.to_string().as_str()),
                    Value::Bool(_) | Value::Null | Value::Object(_) => false,
                }
            }
            Self::Format(f) if f == "date" => {
                vc_node.as_str().is_some_and(|s| NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok())
            }
            Self::Format(f) if f == "date-time" => {
                vc_node.as_str().is_some_and(|s| DateTime::parse_from_rfc3339(s).is_ok())
            }
            Self::Format(f) => return Err(anyhow!("unsupported format: {f}")),
        };
        Ok(outcome)
    }
}

