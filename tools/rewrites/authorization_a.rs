pub fn request(input: &Json) -> Result<TokenStream> {
    let mut input = input.clone();
    let mut fields = TokenStream::new();

    let details = match input.get("authorization_details") {
        Some(value) => {
            let details = Details(&value).tokens()?;
            quote! {Some(#details)}
        }
        None => quote! {None},
    };
    fields.extend(quote! {authorization_details: #details,});

    for key in [
        "credential_issuer",
        "response_type",
        "client_id",
        "code_challenge",
        "code_challenge_method",
        "subject_id",
    ] {
        let name = Ident::new(key, Span::call_site());
        let value = input.expect(key)?;
        fields.extend(quote! {#name: #value,});
    }
    for key in
        ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"]
    {
        let name = Ident::new(key, Span::call_site());
        let value = input.option(key);
        fields.extend(quote! {#name: #value,});
    }

    // return error for any unexpected fields
    input.check_consumed()?;

    Ok(quote! {
        vercre_issuer::AuthorizationRequest::Object(vercre_issuer::RequestObject { #fields })
    })
}

struct Details<'a>(&'a Value);

impl Details<'_> {
    fn tokens(&self) -> Result<TokenStream> {
        let Self(Value::Array(items)) = self else {
            return Err(fault("`authorization_details` must be an array"));
        };
        let mut details = vec![];
        for item in items {
            let Value::Object(item) = item else {
                return Err(fault("`authorization_detail` must be an object"));
            };
            check_type(item)?;
            let credential = credential(item)?;
            details.push(quote! {
                vercre_issuer::AuthorizationDetail {
                    type_: vercre_issuer::AuthorizationDetailType::OpenIdCredential,
                    credential: #credential,
                    locations: None,
                }
            });
        }
        Ok(quote! {vec![#(#details),*]})
    }
}

fn fault(message: &str) -> Error {
    Error::new(Span::call_site(), message)
}

fn check_type(detail: &HashMap<String, Value>) -> Result<()> {
    let type_ = detail.get("type").ok_or_else(|| fault("`type` is not set"))?;
    if type_.as_str().is_some_and(|t| t != "openid_credential") {
        return Err(fault("`type` must be `openid_credential`"));
    }
    Ok(())
}

fn credential(detail: &HashMap<String, Value>) -> Result<TokenStream> {
    let definition = detail.get("credential_definition");

    if let Some(id) = detail.get("credential_configuration_id") {
        let mut claims = quote! {None};
        if let Some(definition) = definition {
            let definition = credential_definition(definition, true)?;
            claims = quote! {Some(vercre_issuer::ProfileClaims::W3c(#definition))};
        }
        return Ok(quote! {
            vercre_issuer::CredentialAuthorization::ConfigurationId {
                credential_configuration_id: #id,
                claims: #claims,
            }
        });
    }

    let Some(format) = detail.get("format") else {
        return Err(fault("either `credential_configuration_id` or `format` must be set"));
    };
    let definition = definition.ok_or_else(|| fault("`credential_definition` is not set"))?;
    let definition = credential_definition(definition, false)?;
    let Some("jwt_vc_json") = format.as_str() else {
        return Err(fault("unknown `format`"));
    };
    Ok(quote! {
        vercre_issuer::CredentialAuthorization::Format(
            vercre_issuer::Format::JwtVcJson(vercre_issuer::ProfileW3c {
                credential_definition: #definition
            })
        )
    })
}

fn credential_definition(value: &Value, type_optional: bool) -> Result<TokenStream> {
    let definition =
        value.as_object().ok_or_else(|| fault("`credential_definition` must be an object"))?;

    let type_ = match (definition.get("type"), type_optional) {
        (Some(types), _) => quote! {Some(#types)},
        (None, true) => quote! {None},
        (None, false) => return Err(fault("`type` is not set")),
    };
    let subject = match definition.get("credentialSubject") {
        None => quote! {None},
        Some(Value::Object(claimset)) => {
            let claims = claims(claimset);
            quote! {Some(#claims)}
        }
        Some(_) => return Err(fault("`credentialSubject` must be an object")),
    };

    Ok(quote! {
        vercre_issuer::CredentialDefinition {
            context: None,
            type_: #type_,
            credential_subject: #subject,
        }
    })
}

fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
    let mut entries = Vec::new();
    for (name, value) in claimset {
        let claim = match value {
            Value::Object(nested) if !nested.is_empty() => {
                let nested = claims(nested);
                quote! {vercre_issuer::Claim::Set(#nested)}
            }
            _ => quote! {
                vercre_issuer::Claim::Entry(vercre_issuer::ClaimDefinition::default())
            },
        };
        entries.push(quote! {(#name.to_string(), #claim)});
    }
    quote! {std::collections::HashMap::from([#(#entries),*])}
}
