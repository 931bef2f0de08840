impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        self.fields.as_ref().map_or(Ok(true), |fields| {
            let vc = claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;
            for field in fields {
                if !field.satisfied(&vc)? {
                    return Ok(false);
                }
            }
            Ok(true)
        })
    }
}

impl Field {
    fn satisfied(&self, vc: &Value) -> Result<bool> {
        let optional = self.optional == Some(true);
        match self.first_match(vc)? {
            Some(_) => Ok(true),
            None => Ok(optional && self.nodes(vc).next().is_none()),
        }
    }

    // the first selected value the filter accepts
    fn first_match<'a>(&self, vc: &'a Value) -> Result<Option<&'a Value>> {
        let mut found = None;
        for path in &self.path {
            let jpath = JsonPath::parse(path).map_err(|_| anyhow!("Invalid JSONPath: {path}"))?;
            found = match jpath.query(vc).all().first().copied() {
                Some(node) if self.accepts(node)? => Some(node),
                _ => None,
            };
            if found.is_some() {
                break;
            }
        }
        Ok(found)
    }

    fn nodes<'a>(&'a self, vc: &'a Value) -> impl Iterator<Item = &'a Value> + 'a {
        self.path
            .iter()
            .flat_map(|path| JsonPath::parse(path).ok())
            .flat_map(move |jpath| jpath.query(vc).all())
    }

    fn accepts(&self, node: &Value) -> Result<bool> {
        let Some(filter) = &self.filter else {
            return Ok(true);
        };
        match (&filter.value, node) {
            (FilterValue::Const(text), Value::Array(items)) => {
                Ok(items.contains(&Value::from(text.as_str())))
            }
            (FilterValue::Const(text), Value::String(node)) => Ok(text == node),
            (FilterValue::Const(text), Value::Number(node)) => Ok(*text == node.to_string()),
            (FilterValue::Const(_), _) => Ok(false),
            (FilterValue::Pattern(pattern), node) => {
                let re = Regex::new(pattern)
                    .map_err(|_| anyhow!("invalid regex pattern: {pattern}"))?;
                Ok(match node {
                    Value::Array(items) => items
                        .iter()
                        .filter_map(|item| item.as_str())
                        .find(|text| re.is_match(text))
                        .is_some(),
                    Value::String(text) => re.is_match(text),
                    Value::Number(number) => re.is_match(&format!("{number}")),
                    Value::Bool(_) | Value::Null | Value::Object(_) => false,
                })
            }
            (FilterValue::Format(format), node) => {
                let text = if let Value::String(text) = node { Some(text) } else { None };
                if format == "date" {
                    Ok(text.map(|t| NaiveDate::parse_from_str(t, "%Y-%m-%d")).is_some_and(|r| r.is_ok()))
                } else if format == "date-time" {
                    Ok(text.and_then(|t| DateTime::parse_from_rfc3339(t).ok()).is_some())
                } else {
                    Err(anyhow!("unsupported format: {format}"))
                }
            }
        }
    }
}

