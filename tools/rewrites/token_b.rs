type Section = fn(&mut Json) -> Result<TokenStream>;

pub fn request(input: &Json) -> Result<TokenStream> {
    let mut input = input.clone();
    let tokens = fields(&mut input)?;

    // return error for any unexpected fields
    input.check_consumed()?;

    Ok(quote! {vercre_issuer::TokenRequest { #(#tokens,)* client_assertion: None }})
}

fn fields(input: &mut Json) -> Result<Vec<TokenStream>> {
    let mut tokens = Vec::new();

    let issuer = input.expect("credential_issuer")?;
    tokens.push(quote! {credential_issuer: #issuer});
    let client_id = input.option("client_id");
    tokens.push(quote! {client_id: #client_id});

    let grant = input.expect_text("grant_type")?;
    let section: Section = match grant.as_deref() {
        Some("authorization_code") => authorization_code,
        Some("urn:ietf:params:oauth:grant-type:pre-authorized_code") => pre_authorized_code,
        Some(_) | None => return Err(Error::new(Span::call_site(), "unknown `grant_type`")),
    };
    let grant = section(input)?;
    tokens.push(quote! {grant_type: #grant});

    let details = input.get("authorization_details");
    let details = if let Some(details) = details.as_ref() {
        let details = authorization_details(details)?;
        quote! {Some(#details)}
    } else {
        quote! {None}
    };
    tokens.push(quote! {authorization_details: #details});
    Ok(tokens)
}

impl Json {
    // the text of a key that must be set, if it is a text
    fn expect_text(&mut self, key: &str) -> Result<Option<String>> {
        let Some(value) = self.get(key) else {
            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
        };
        Ok(value.as_str().map(str::to_string))
    }
}

fn pre_authorized_code(input: &mut Json) -> Result<TokenStream> {
    let code = input.expect("pre-authorized_code")?;
    let tx_code = input.option("tx_code");
    Ok(quote! {
        vercre_issuer::TokenGrantType::PreAuthorizedCode {
            tx_code: #tx_code,
            pre_authorized_code: #code,
        }
    })
}

fn authorization_code(input: &mut Json) -> Result<TokenStream> {
    let (redirect_uri, code, verifier) =
        (input.option("redirect_uri"), input.expect("code")?, input.expect("code_verifier")?);
    Ok(quote! {
        vercre_issuer::TokenGrantType::AuthorizationCode {
            redirect_uri: #redirect_uri,
            code: #code,
            code_verifier: Some(#verifier),
        }
    })
}

fn authorization_details(details: &Value) -> Result<TokenStream> {
    let span = Span::call_site();
    let Value::Array(details) = details else {
        return Err(Error::new(span, "`authorization_details` must be an array"));
    };
    details
        .iter()
        .map(|detail| {
            let Some(detail) = detail.as_object() else {
                return Err(Error::new(span, "`authorization_detail` must be an object"));
            };
            let Some(type_) = detail.get("type") else {
                return Err(Error::new(span, "`type` is not set"));
            };
            match type_.as_str() {
                None | Some("openid_credential") => credential_configuration(detail),
                Some(_) => Err(Error::new(span, "`type` must be `openid_credential`")),
            }
        })
        .try_fold(Vec::new(), |mut list, credential| {
            let credential = credential?;
            list.push(quote! {
                vercre_issuer::AuthorizationDetail {
                    credential: #credential,
                    locations: None,
                    type_: vercre_issuer::AuthorizationDetailType::OpenIdCredential,
                }
            });
            Ok(list)
        })
        .map(|list| quote! {vec![#(#list),*]})
}

struct Definition<'a> {
    fields: &'a HashMap<String, Value>,
}

impl<'a> TryFrom<&'a Value> for Definition<'a> {
    type Error = Error;

    fn try_from(value: &'a Value) -> Result<Self> {
        match value {
            Value::Object(fields) => Ok(Self { fields }),
            _ => {
                Err(Error::new(Span::call_site(), "`credential_definition` must be an object"))
            }
        }
    }
}

impl Definition<'_> {
    fn optional(&self, key: &str) -> TokenStream {
        match self.fields.get(key) {
            Some(value) => quote! {Some(#value)},
            None => quote! {None},
        }
    }

    fn subject(&self) -> Result<TokenStream> {
        let claims = match self.fields.get("credentialSubject") {
            Some(Value::Object(claims)) => claims,
            Some(_) => {
                return Err(Error::new(
                    Span::call_site(),
                    "`credentialSubject` must be an object",
                ));
            }
            None => return Ok(quote! {None}),
        };
        let names = claims.keys();
        Ok(quote! {
            Some(std::collections::HashMap::from([#((
                #names.to_string(),
                vercre_issuer::Claim::Entry(vercre_issuer::ClaimDefinition::default())
            )),*]))
        })
    }

    fn tokens(&self, with_context: bool) -> Result<TokenStream> {
        let context = if with_context { self.optional("@context") } else { quote! {None} };
        let type_ = self.optional("type");
        let subject = self.subject()?;
        Ok(quote! {
            vercre_issuer::CredentialDefinition {
                context: #context,
                type_: #type_,
                credential_subject: #subject,
            }
        })
    }
}

fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
    let span = Span::call_site();
    let definition = detail.get("credential_definition").map(Definition::try_from).transpose();

    if let Some(id) = detail.get("credential_configuration_id") {
        let claims = match definition? {
            Some(definition) => {
                let tokens = definition.tokens(true)?;
                quote! {Some(vercre_issuer::ProfileClaims::W3c(#tokens))}
            }
            None => quote! {None},
        };
        return Ok(quote! {
            vercre_issuer::CredentialAuthorization::ConfigurationId {
                claims: #claims,
                credential_configuration_id: #id,
            }
        });
    }

    let Some(format) = detail.get("format") else {
        return Err(Error::new(
            span,
            "either `credential_configuration_id` or `format` must be set",
        ));
    };
    let definition =
        definition?.ok_or_else(|| Error::new(span, "`credential_definition` is not set"))?;
    if !definition.fields.contains_key("type") {
        return Err(Error::new(span, "`type` is not set"));
    }
    let definition = definition.tokens(false)?;
    match format {
        Value::String(name) if name == "jwt_vc_json" => Ok(quote! {
            vercre_issuer::CredentialAuthorization::Format(vercre_issuer::Format::JwtVcJson(
                vercre_issuer::ProfileW3c { credential_definition: #definition }
            ))
        }),
        _ => Err(Error::new(span, "unknown `format`")),
    }
}
