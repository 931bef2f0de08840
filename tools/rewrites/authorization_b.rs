pub fn request(input: &Json) -> Result<TokenStream> {
    let mut input = input.clone();

    let details = input
        .get("authorization_details")
        .map(|details| authorization_details(&details))
        .transpose()?
        .map_or_else(|| quote! {None}, |details| quote! {Some(#details)});

    let object = [
        required(&mut input, "credential_issuer")?,
        required(&mut input, "response_type")?,
        required(&mut input, "client_id")?,
        required(&mut input, "code_challenge")?,
        required(&mut input, "code_challenge_method")?,
        required(&mut input, "subject_id")?,
        optional(&mut input, "redirect_uri"),
        optional(&mut input, "state"),
        optional(&mut input, "scope"),
        optional(&mut input, "resource"),
        optional(&mut input, "wallet_issuer"),
        optional(&mut input, "user_hint"),
        optional(&mut input, "issuer_state"),
    ];

    // return error for any unexpected fields
    input.check_consumed()?;

    let path = path();
    Ok(quote! {
        #path::AuthorizationRequest::Object(#path::RequestObject {
            authorization_details: #details,
            #(#object),*
        })
    })
}

fn path() -> TokenStream {
    quote! {vercre_issuer}
}

fn member(key: &str, value: &Value) -> TokenStream {
    let name = format_ident!("{}", key);
    quote! {#name: #value}
}

fn required(input: &mut Json, key: &str) -> Result<TokenStream> {
    input.expect(key).map(|value| member(key, &value))
}

fn optional(input: &mut Json, key: &str) -> TokenStream {
    let value = input.option(key);
    member(key, &value)
}

macro_rules! ensure {
    ($cond:expr, $message:literal) => {
        if !$cond {
            return Err(Error::new(Span::call_site(), $message));
        }
    };
}

macro_rules! object {
    ($value:expr, $message:literal) => {
        match $value {
            Value::Object(object) => object,
            _ => return Err(Error::new(Span::call_site(), $message)),
        }
    };
}

fn authorization_details(details: &Value) -> Result<TokenStream> {
    ensure!(details.as_array().is_some(), "`authorization_details` must be an array");
    let path = path();

    let mut tokens = TokenStream::new();
    for detail in details.as_array().into_iter().flatten() {
        let detail = object!(detail, "`authorization_detail` must be an object");
        ensure!(detail.contains_key("type"), "`type` is not set");
        if let Some(Value::String(t)) = detail.get("type") {
            ensure!(t == "openid_credential", "`type` must be `openid_credential`");
        }

        let credential = credential_authorization(detail)?;
        let type_ = quote! {#path::AuthorizationDetailType::OpenIdCredential};
        let detail = quote! {
            #path::AuthorizationDetail { type_: #type_, credential: #credential, locations: None }
        };
        tokens.extend([detail, quote! {,}]);
    }
    Ok(quote! {vec![#tokens]})
}

enum Credential<'a> {
    Configuration(&'a Value, Option<&'a Value>),
    Format(&'a Value, &'a Value),
}

fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStream> {
    let span = Span::call_site();
    let path = path();

    let definition = detail.get("credential_definition");
    let credential = if let Some(id) = detail.get("credential_configuration_id") {
        Credential::Configuration(id, definition)
    } else if let Some(format) = detail.get("format") {
        let Some(definition) = definition else {
            return Err(Error::new(span, "`credential_definition` is not set"));
        };
        Credential::Format(format, definition)
    } else {
        let message = "either `credential_configuration_id` or `format` must be set";
        return Err(Error::new(span, message));
    };

    match credential {
        Credential::Configuration(id, None) => Ok(quote! {
            #path::CredentialAuthorization::ConfigurationId {
                credential_configuration_id: #id,
                claims: None,
            }
        }),
        Credential::Configuration(id, Some(definition)) => {
            let definition = object!(definition, "`credential_definition` must be an object");
            let types = definition.get("type");
            let types = match types {
                Some(types) => quote! {Some(#types)},
                None => quote! {None},
            };
            let definition = tokens(definition, &types)?;
            Ok(quote! {
                #path::CredentialAuthorization::ConfigurationId {
                    credential_configuration_id: #id,
                    claims: Some(#path::ProfileClaims::W3c(#definition)),
                }
            })
        }
        Credential::Format(format, definition) => {
            let definition = object!(definition, "`credential_definition` must be an object");
            let Some(types) = definition.get("type") else {
                return Err(Error::new(span, "`type` is not set"));
            };
            let definition = tokens(definition, &quote! {Some(#types)})?;
            ensure!(format.as_str() == Some("jwt_vc_json"), "unknown `format`");
            Ok(quote! {
                #path::CredentialAuthorization::Format(
                    #path::Format::JwtVcJson(#path::ProfileW3c { credential_definition: #definition })
                )
            })
        }
    }
}

fn tokens(definition: &HashMap<String, Value>, types: &TokenStream) -> Result<TokenStream> {
    let path = path();
    let subject = match definition.get("credentialSubject") {
        None => quote! {None},
        Some(subject) => claims(object!(subject, "`credentialSubject` must be an object")),
    };
    Ok(quote! {
        #path::CredentialDefinition {
            context: None,
            type_: #types,
            credential_subject: #subject,
        }
    })
}

fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
    let path = path();
    let (names, entries): (Vec<_>, Vec<_>) = claimset
        .iter()
        .map(|(name, value)| {
            let claim = match value.as_object().filter(|nested| !nested.is_empty()) {
                Some(nested) => {
                    let nested = claims(nested);
                    quote! {Set(#nested.unwrap())}
                }
                None => quote! {Entry(#path::ClaimDefinition::default())},
            };
            (name, claim)
        })
        .unzip();
    quote! {
        Some(std::collections::HashMap::from([#((#names.to_string(), #path::Claim::#entries)),*]))
    }
}
