impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        let Some(fields) = &self.fields else {
            return Ok(true);
        };
        let vc = claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;
        all(fields, &vc)
    }
}

fn all(fields: &[Field], vc: &Value) -> Result<bool> {
    match fields {
        [] => Ok(true),
        [field, rest @ ..] => {
            let matched = field.any(&field.path, vc)?;
            let excused = field.optional.unwrap_or_default() && absent(&field.path, vc)?;
            if matched || excused {
                all(rest, vc)
            } else {
                Ok(false)
            }
        }
    }
}

fn first(path: &str, vc: &Value) -> Result<Option<Value>> {
    let jpath = JsonPath::parse(path).map_err(|e| anyhow!("issue parsing JSONPath: {e}"))?;
    Ok(jpath.query(vc).first().cloned())
}

fn absent(paths: &[String], vc: &Value) -> Result<bool> {
    let Some((path, rest)) = paths.split_first() else {
        return Ok(true);
    };
    // paths after the match were never looked at
    Ok(first(path, vc).ok().flatten().is_none() && absent(rest, vc)?)
}

impl Field {
    fn any(&self, paths: &[String], vc: &Value) -> Result<bool> {
        if let Some((path, rest)) = paths.split_first() {
            if let Some(node) = first(path, vc)? {
                if self.accepts(&node)? {
                    return Ok(true);
                }
            }
            return self.any(rest, vc);
        }
        Ok(false)
    }

    fn accepts(&self, node: &Value) -> Result<bool> {
        let Some(filter) = &self.filter else {
            return Ok(true);
        };
        match (&filter.value, node) {
            (FilterValue::Const(text), Value::Array(items)) => {
                Ok(items.contains(&Value::from(text.as_str())))
            }
            (FilterValue::Const(text), Value::String(node)) => Ok(text == node),
            (FilterValue::Const(text), Value::Number(node)) => Ok(*text == node.to_string()),
            (FilterValue::Const(_), _) => Ok(false),
            (FilterValue::Pattern(pattern), node) => {
                let re = Regex::new(pattern)
                    .map_err(|_| anyhow!("invalid regex pattern: {pattern}"))?;
                Ok(match node {
                    Value::Array(items) => items
                        .iter()
                        .filter_map(|item| item.as_str())
                        .find(|text| re.is_match(text))
                        .is_some(),
                    Value::String(text) => re.is_match(text),
                    Value::Number(number) => re.is_match(&format!("{number}")),
                    Value::Bool(_) | Value::Null | Value::Object(_) => false,
                })
            }
            (FilterValue::Format(format), node) => {
                let text = if let Value::String(text) = node { Some(text) } else { None };
                if format == "date" {
                    Ok(text.map(|t| NaiveDate::parse_from_str(t, "%Y-%m-%d")).is_some_and(|r| r.is_ok()))
                } else if format == "date-time" {
                    Ok(text.and_then(|t| DateTime::parse_from_rfc3339(t).ok()).is_some())
                } else {
                    Err(anyhow!("unsupported format: {format}"))
                }
            }
        }
    }
}

