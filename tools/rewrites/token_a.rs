const PRE_AUTHORIZED: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
const AUTHORIZATION: &str = "authorization_code";

fn error<T>(message: &str) -> Result<T> {
    Err(Error::new(Span::call_site(), message))
}

enum Grant {
    PreAuthorized { code: Value, tx_code: Value },
    Authorization { code: Value, redirect_uri: Value, verifier: Value },
}

impl Grant {
    fn read(input: &mut Json) -> Result<Self> {
        let Some(kind) = input.get("grant_type") else {
            return error("`grant_type` is not set");
        };
        match kind.as_str() {
            Some(PRE_AUTHORIZED) => Ok(Self::PreAuthorized {
                code: input.expect("pre-authorized_code")?,
                tx_code: input.option("tx_code"),
            }),
            Some(AUTHORIZATION) => Ok(Self::Authorization {
                code: input.expect("code")?,
                redirect_uri: input.option("redirect_uri"),
                verifier: input.expect("code_verifier")?,
            }),
            _ => error("unknown `grant_type`"),
        }
    }
}

impl ToTokens for Grant {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        let path = quote! {vercre_issuer::TokenGrantType};
        let grant = match self {
            Self::PreAuthorized { code, tx_code } => quote! {
                #path::PreAuthorizedCode { pre_authorized_code: #code, tx_code: #tx_code }
            },
            Self::Authorization { code, redirect_uri, verifier } => quote! {
                #path::AuthorizationCode {
                    code: #code,
                    redirect_uri: #redirect_uri,
                    code_verifier: Some(#verifier),
                }
            },
        };
        tokens.extend(grant);
    }
}

pub fn request(input: &Json) -> Result<TokenStream> {
    // we remove fields as we go so we can check for unexpected input
    let mut input = input.clone();

    let issuer = input.expect("credential_issuer")?;
    let client = input.option("client_id");
    let grant = Grant::read(&mut input)?;
    let details = match input.get("authorization_details") {
        Some(details) => some(authorization_details(&details)?),
        None => none(),
    };
    input.check_consumed()?;

    Ok(quote! {
        vercre_issuer::TokenRequest {
            credential_issuer: #issuer,
            client_id: #client,
            grant_type: #grant,
            authorization_details: #details,
            client_assertion: None,
        }
    })
}

fn none() -> TokenStream {
    quote! {None}
}

fn some(inner: impl ToTokens) -> TokenStream {
    quote! {Some(#inner)}
}

fn authorization_details(details: &Value) -> Result<TokenStream> {
    match details.as_array() {
        Some(items) => {
            let details = items.iter().map(detail).collect::<Result<Vec<_>>>()?;
            Ok(quote! {vec![#(#details),*]})
        }
        None => error("`authorization_details` must be an array"),
    }
}

fn detail(value: &Value) -> Result<TokenStream> {
    let Some(detail) = value.as_object() else {
        return error("`authorization_detail` must be an object");
    };
    match detail.get("type") {
        None => return error("`type` is not set"),
        Some(Value::String(t)) if t != "openid_credential" => {
            return error("`type` must be `openid_credential`");
        }
        Some(_) => {}
    }
    let credential = credential_configuration(detail)?;
    Ok(quote! {
        vercre_issuer::AuthorizationDetail {
            type_: vercre_issuer::AuthorizationDetailType::OpenIdCredential,
            credential: #credential,
            locations: None,
        }
    })
}

fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
    let path = quote! {vercre_issuer};
    let definition = detail.get("credential_definition");

    match (detail.get("credential_configuration_id"), detail.get("format")) {
        (Some(id), _) => {
            let claims = match definition {
                Some(value) => {
                    let definition = definition_tokens(value, false)?;
                    some(quote! {#path::ProfileClaims::W3c(#definition)})
                }
                None => none(),
            };
            Ok(quote! {
                #path::CredentialAuthorization::ConfigurationId {
                    credential_configuration_id: #id,
                    claims: #claims,
                }
            })
        }
        (None, Some(format)) => {
            let Some(value) = definition else {
                return error("`credential_definition` is not set");
            };
            let definition = definition_tokens(value, true)?;
            if format.as_str() != Some("jwt_vc_json") {
                return error("unknown `format`");
            }
            Ok(quote! {
                #path::CredentialAuthorization::Format(#path::Format::JwtVcJson(
                    #path::ProfileW3c { credential_definition: #definition },
                ))
            })
        }
        (None, None) => error("either `credential_configuration_id` or `format` must be set"),
    }
}

fn definition_tokens(value: &Value, by_format: bool) -> Result<TokenStream> {
    let Some(definition) = value.as_object() else {
        return error("`credential_definition` must be an object");
    };
    let type_ = match definition.get("type") {
        Some(types) => some(types),
        None if by_format => return error("`type` is not set"),
        None => none(),
    };
    let context = if by_format { None } else { definition.get("@context") };
    let context = context.map_or_else(none, some);
    let subject = subject(definition)?;
    Ok(quote! {
        vercre_issuer::CredentialDefinition {
            credential_subject: #subject,
            context: #context,
            type_: #type_,
        }
    })
}

fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
    let Some(value) = definition.get("credentialSubject") else {
        return Ok(none());
    };
    let Some(claims) = value.as_object() else {
        return error("`credentialSubject` must be an object");
    };
    let entries = claims.keys().map(|name| {
        quote! {
            (#name.to_string(), vercre_issuer::Claim::Entry(vercre_issuer::ClaimDefinition::default()))
        }
    });
    Ok(some(quote! {std::collections::HashMap::from([#(#entries),*])}))
}
