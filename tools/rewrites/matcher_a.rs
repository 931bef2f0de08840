/// What evaluating a field against a credential comes to.
enum Outcome {
    Matched,
    Mismatched,
    Absent,
}

impl Constraints {
    /// Check if a `VerifiableCredential` satisfies constraints provided in the
    /// Presentation Definition.
    ///
    /// # Errors
    ///
    /// Returns an error if the `JSONPath` query is invalid.
    pub fn satisfied(&self, claims: &impl Claims) -> Result<bool> {
        match self.fields.as_deref() {
            None => Ok(true),
            Some(fields) => {
                let credential =
                    claims.to_json().map_err(|_| anyhow!("error serializing credential"))?;
                let evaluator = Evaluator { credential: &credential };
                evaluator.all(fields)
            }
        }
    }
}

struct Evaluator<'a> {
    credential: &'a Value,
}

impl<'a> Evaluator<'a> {
    fn all(&self, fields: &[Field]) -> Result<bool> {
        for field in fields {
            match self.evaluate(field)? {
                Outcome::Matched => {}
                Outcome::Absent if field.optional == Some(true) => {}
                Outcome::Absent | Outcome::Mismatched => return Ok(false),
            }
        }
        Ok(true)
    }

    fn evaluate(&self, field: &Field) -> Result<Outcome> {
        let mut outcome = Outcome::Absent;
        for path in field.path.iter() {
            if let Some(node) = self.first_node(path)? {
                let hit = match field.filter.as_ref() {
                    Some(filter) => accepts(&filter.value, node)?,
                    None => true,
                };
                if hit {
                    return Ok(Outcome::Matched);
                }
                outcome = Outcome::Mismatched;
            }
        }
        Ok(outcome)
    }

    fn first_node(&self, path: &str) -> Result<Option<&'a Value>> {
        let query = JsonPath::parse(path).map_err(|_| anyhow!("Invalid JSONPath: {path}"))?;
        Ok(query.query(self.credential).all().first().copied())
    }
}

fn accepts(filter: &FilterValue, node: &Value) -> Result<bool> {
    match filter {
        FilterValue::Const(text) => Ok(equals(text, node)),
        FilterValue::Pattern(pattern) => {
            let re = Regex::new(pattern)
                .map_err(|_| anyhow!("invalid regex pattern: {pattern}"))?;
            Ok(texts(node).iter().any(|text| re.is_match(text)))
        }
        FilterValue::Format(format) => {
            let text = node.as_str();
            match format.as_str() {
                "date" => {
                    Ok(text.is_some_and(|t| NaiveDate::parse_from_str(t, "%Y-%m-%d").is_ok()))
                }
                "date-time" => Ok(text.is_some_and(|t| DateTime::parse_from_rfc3339(t).is_ok())),
                other => Err(anyhow!("unsupported format: {other}")),
            }
        }
    }
}

fn equals(text: &str, node: &Value) -> bool {
    if let Some(items) = node.as_array() {
        return items.iter().any(|item| item.as_str() == Some(text));
    }
    if let Some(s) = node.as_str() {
        return s == text;
    }
    node.is_number() && node.to_string() == text
}

fn texts(node: &Value) -> Vec<String> {
    match node {
        Value::String(s) => vec![s.clone()],
        Value::Number(n) => vec![n.to_string()],
        Value::Array(items) => {
            items.iter().filter_map(Value::as_str).map(ToString::to_string).collect()
        }
        _ => Vec::new(),
    }
}

