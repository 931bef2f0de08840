impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        let Some(fields) = &self.fields else {
            return Ok(true);
        };
        let vc = claims.to_json().or_else(|_| Err(anyhow!("error serializing credential")))?;
        fields.iter().try_fold(true, |so_far, field| {
            if so_far {
                field.holds_in(&vc)
            } else {
                Ok(false)
            }
        })
    }
}

impl Field {
    fn holds_in(&self, vc: &Value) -> Result<bool> {
        let mut selected = false;
        let mut paths = self.path.iter();
        while let Some(path) = paths.next() {
            let jpath =
                JsonPath::parse(path).map_err(|_| anyhow!("Invalid JSONPath: {path}"))?;
            let Some(node) = jpath.query(vc).all().into_iter().next() else {
                continue;
            };
            selected = true;
            let Some(filter) = &self.filter else {
                return Ok(true);
            };
            if filter.value.matched(node)? {
                return Ok(true);
            }
        }
        Ok(!selected && self.optional.unwrap_or(false))
    }
}

impl FilterValue {
    /// Check whether the result of a `JSONPath` query can be matched to the
    /// specified `FilterValue`.
    fn matched(&self, node: &Value) -> Result<bool> {
        match self {
            Self::Const(constant) => Ok(Self::constant(constant, node)),
            Self::Pattern(pattern) => match Regex::new(pattern) {
                Ok(re) => Ok(Self::pattern(&re, node)),
                Err(_) => Err(anyhow!("invalid regex pattern: {pattern}")),
            },
            Self::Format(format) => Self::format(format, node),
        }
    }

    fn constant(constant: &str, node: &Value) -> bool {
        match node {
            Value::Array(items) => {
                for item in items {
                    if let Value::String(s) = item {
                        if s == constant {
                            return true;
                        }
                    }
                }
                false
            }
            Value::String(s) => constant == s,
            Value::Number(n) => constant == n.to_string(),
            _ => false,
        }
    }

    fn pattern(re: &Regex, node: &Value) -> bool {
        let mut candidates: Vec<String> = vec![];
        match node {
            Value::String(s) => candidates.push(s.to_owned()),
            Value::Number(n) => candidates.push(format!("{n}")),
            Value::Array(items) => {
                for item in items {
                    if let Some(s) = item.as_str() {
                        candidates.push(s.to_string());
                    }
                }
            }
            Value::Bool(_) | Value::Null | Value::Object(_) => return false,
        }
        candidates.iter().any(|c| re.is_match(c))
    }

    fn format(format: &str, node: &Value) -> Result<bool> {
        let parses: fn(&str) -> bool = match format {
            "date" => |s| NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok(),
            "date-time" => |s| DateTime::parse_from_rfc3339(s).is_ok(),
            _ => return Err(anyhow!("unsupported format: {format}")),
        };
        Ok(node.as_str().map_or(false, parses))
    }
}

