impl Json {
    /// Get the value for the key, removing it from the JSON object.
    pub fn get(&mut self, key: &str) -> Option<Value> {
        let (_, value) = self.fields.remove_entry(key)?;
        Some(value)
    }

    /// Expect the key to be present and return the value or an error.
    pub fn expect(&mut self, key: &str) -> Result<Value> {
        match self.get(key) {
            Some(value) => Ok(Value::Tokens(quote! {Into::into(#value)})),
            None => Err(Error::new(Span::call_site(), format!("`{key}` is not set"))),
        }
    }

    /// Either `Some` or `None` depending on whether the key is present.
    pub fn option(&mut self, key: &str) -> Value {
        let tokens = match self.get(key) {
            Some(value) => quote! {Some(#value.into())},
            None => quote! {None},
        };
        Value::Tokens(tokens)
    }

    /// Check all parsed fields have been consumed, returning an error if any
    /// fields are left unconsumed.
    pub fn check_consumed(&self) -> Result<()> {
        let mut left: Vec<String> = Vec::new();
        for key in self.fields.keys() {
            left.push(format!("`{key}`"));
        }
        if left.is_empty() {
            Ok(())
        } else {
            let keys = left.join(", ");
            Err(Error::new(Span::call_site(), format!("unexpected field(s): {keys}")))
        }
    }
}

#[derive(Debug, Clone, Default)]
pub enum Value {
    #[default]
    Null,
    Bool(bool),
    Number(i64),
    String(String),
    Array(Vec<Self>),
    Object(HashMap<String, Self>),
    Ident(syn::Ident),
    Tokens(TokenStream),
}

// Parse the macro contents into a Data struct.
impl Parse for Json {
    fn parse(input: ParseStream<'_>) -> Result<Self> {
        // content should be wrapped in braces
        if input.peek(token::Brace) {
            Ok(Self { fields: object(input)? })
        } else {
            Err(input.error("expected JSON object"))
        }
    }
}

// Parse a braced list of key-value pairs.
fn object(input: ParseStream<'_>) -> Result<HashMap<String, Value>> {
    let content;
    braced!(content in input);

    let mut map = HashMap::new();
    let pairs = Punctuated::<Pair2, token::Comma>::parse_terminated(&content)?;
    for Pair2(key, value) in pairs {
        if map.contains_key(&key) {
            return Err(content.error("duplicate field"));
        }
        map.insert(key, value);
    }
    Ok(map)
}

struct Pair2(String, Value);

// Parse key-value pair into a Field.
impl Parse for Pair2 {
    fn parse(input: ParseStream) -> Result<Self> {
        let key = input.parse::<syn::LitStr>()?.value();
        let _colon: token::Colon = input.parse()?;
        let value: Value = input.parse()?;
        Ok(Self(key, value))
    }
}

// Parse the RHS of key-value pair into a Value.
impl Parse for Value {
    fn parse(input: ParseStream) -> Result<Self> {
        if input.peek(token::And) {
            // chomp `&` and re-parse
            let _: token::And = input.parse()?;
            return input.parse();
        }
        if input.peek(token::Brace) {
            return object(input).map(Self::Object);
        }
        if input.peek(token::Bracket) {
            let contents;
            bracketed!(contents in input);
            let items = Punctuated::<Self, token::Comma>::parse_terminated(&contents)?;
            return Ok(Self::Array(items.into_iter().collect()));
        }
        if input.peek(syn::LitStr) {
            let literal: syn::LitStr = input.parse()?;
            return Ok(Self::String(literal.value()));
        }
        if input.peek(syn::LitInt) {
            let literal: syn::LitInt = input.parse()?;
            return literal.base10_parse().map(Self::Number);
        }
        if input.peek(syn::LitBool) {
            let literal: syn::LitBool = input.parse()?;
            return Ok(Self::Bool(literal.value));
        }
        if !input.peek(syn::Ident) {
            return Err(input.error("unexpected token"));
        }
        // parse enum variant or method call; otherwise const or variable
        if input.peek2(token::PathSep) || input.peek2(token::Paren) || input.peek2(token::Dot) {
            let expr: syn::Expr = input.parse()?;
            Ok(Self::Tokens(quote! {#expr}))
        } else {
            input.parse().map(Self::Ident)
        }
    }
}

// Implement ToTokens for Value to generate the corresponding Rust code.
impl ToTokens for Value {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        let generated = match self {
            Self::Null => quote! { None },
            Self::Bool(b) => b.to_token_stream(),
            Self::String(s) => quote! { #s.to_string() },
            Self::Number(n) => n.to_token_stream(),
            Self::Ident(i) => i.to_token_stream(),
            Self::Tokens(t) => t.clone(),
            Self::Array(a) => quote! { vec![#(#a),*] },
            Self::Object(_) => unimplemented!("Value::to_tokens for Object"),
        };
        tokens.extend(generated);
    }
}

impl Value {
    pub fn as_str(&self) -> Option<&str> {
        if let Self::String(s) = self {
            Some(s.as_str())
        } else {
            None
        }
    }

    pub const fn as_array(&self) -> Option<&Vec<Self>> {
        if let Self::Array(a) = self {
            Some(a)
        } else {
            None
        }
    }

    pub const fn as_object(&self) -> Option<&HashMap<String, Self>> {
        let Self::Object(o) = self else {
            return None;
        };
        Some(o)
    }
}

