impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        let Some(fields) = self.fields.as_ref() else {
            return Ok(true);
        };
        let vc = claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;

        let verdict = 'fields: {
            for field in fields {
                let satisfied = field.matched(&vc)? || field.may_be_absent(&vc);
                if !satisfied {
                    break 'fields false;
                }
            }
            true
        };
        Ok(verdict)
    }
}

type Check = Box<dyn Fn(&Value) -> bool>;

impl Field {
    fn matched(&self, vc: &Value) -> Result<bool> {
        for path in &self.path {
            let Some(node) = select(path, vc)? else {
                continue;
            };
            let accepted = match &self.filter {
                Some(filter) => filter.value.check()?(&node),
                None => true,
            };
            if accepted {
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn may_be_absent(&self, vc: &Value) -> bool {
        if !self.optional.is_some_and(|optional| optional) {
            return false;
        }
        self.path.iter().all(|path| matches!(select(path, vc), Ok(None) | Err(_)))
    }
}

// the first value a path selects
fn select(path: &str, vc: &Value) -> Result<Option<Value>> {
    let query = JsonPath::parse(path).map_err(|_| anyhow!("Invalid JSONPath: {path}"))?;
    let selected = query.query(vc).all();
    Ok(selected.first().map(|node| (*node).clone()))
}

impl FilterValue {
    // the test a filter stands for
    fn check(&self) -> Result<Check> {
        match self {
            Self::Const(text) => {
                let text = text.clone();
                Ok(Box::new(move |node| match node {
                    Value::Array(items) => items.iter().any(|item| item.as_str() == Some(&text)),
                    Value::String(s) => *s == text,
                    Value::Number(n) => n.to_string() == text,
                    _ => false,
                }))
            }
            Self::Pattern(pattern) => {
                let Ok(re) = Regex::new(pattern) else {
                    return Err(anyhow!("invalid regex pattern: {pattern}"));
                };
                Ok(Box::new(move |node| match node {
                    Value::Array(items) => {
                        items.iter().any(|item| item.as_str().map_or(false, |s| re.is_match(s)))
                    }
                    Value::String(s) => re.is_match(s),
                    Value::Number(n) => re.is_match(&n.to_string()),
                    _ => false,
                }))
            }
            Self::Format(format) => match format.as_str() {
                "date" => Ok(Box::new(|node| {
                    node.as_str().is_some_and(|s| NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok())
                })),
                "date-time" => Ok(Box::new(|node| {
                    node.as_str().is_some_and(|s| DateTime::parse_from_rfc3339(s).is_ok())
                })),
                _ => Err(anyhow!("unsupported format: {format}")),
            },
        }
    }
}

