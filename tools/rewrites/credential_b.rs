pub fn request(input: &Json) -> Result<TokenStream> {
    let span = Span::call_site();
    let mut input = input.clone();

    let credential_issuer = input.expect("credential_issuer")?;
    let access_token = input.expect("access_token")?;
    let credential = match (input.get("credential_identifier"), input.fields.contains_key("format")) {
        (Some(identifier), _) => identified(&identifier),
        (None, true) => formatted(&mut input)?,
        (None, false) => {
            return Err(Error::new(span, "neither `credential_identifier` nor `format` are set"));
        }
    };
    let proof = match input.get("proof") {
        Some(Value::Object(proof)) => single_proof(&proof)?,
        Some(_) => return Err(Error::new(span, "`proof` must be an object")),
        None => quote_spanned! {span=> None},
    };
    let credential_response_encryption = input.option("credential_response_encryption");

    // return error for any unexpected fields
    input.check_consumed()?;

    Ok(quote_spanned! {span=>
        vercre_issuer::CredentialRequest {
            access_token: #access_token,
            credential: #credential,
            credential_issuer: #credential_issuer,
            credential_response_encryption: #credential_response_encryption,
            proof: #proof,
        }
    })
}

fn identified(identifier: &Value) -> TokenStream {
    quote! {
        vercre_issuer::CredentialIssuance::Identifier {
            credential_identifier: #identifier.into(),
        }
    }
}

fn formatted(input: &mut Json) -> Result<TokenStream> {
    let span = Span::call_site();
    let format = input.get("format").unwrap_or_default();
    let definition = input.get("credential_definition");
    let definition = definition
        .as_ref()
        .ok_or_else(|| Error::new(span, "`credential_definition` is not set"))
        .and_then(format_definition)?;

    let variant = match format {
        Value::String(name) if name.as_str() == "jwt_vc_json" => format_ident!("JwtVcJson"),
        _ => return Err(Error::new(span, "unsupported format")),
    };
    Ok(quote! {
        vercre_issuer::CredentialIssuance::Format(
            vercre_issuer::Format::#variant(vercre_issuer::ProfileW3c {
                credential_definition: #definition,
            }),
        )
    })
}

fn format_definition(defn_value: &Value) -> Result<TokenStream> {
    let span = Span::call_site();
    defn_value
        .as_object()
        .ok_or_else(|| Error::new(span, "`credential_definition` must be an object"))?
        .get("type")
        .map(|type_array| {
            quote! {
                vercre_issuer::CredentialDefinition {
                    type_: Some(#type_array),
                    context: None,
                    credential_subject: None,
                }
            }
        })
        .ok_or_else(|| Error::new(span, "`type` is not set"))
}

fn single_proof(proof: &std::collections::HashMap<String, Value>) -> Result<TokenStream> {
    let span = Span::call_site();
    let Some(proof_type) = proof.get("proof_type") else {
        return Err(Error::new(span, "`type` is not set"));
    };
    if !proof_type.as_str().is_some_and(|t| t == "jwt") {
        return Err(Error::new(span, "`proof_type` must be `jwt`"));
    }
    let Some(jwt) = proof.get("jwt") else {
        return Err(Error::new(span, "`jwt` is not set"));
    };
    let jwt = quote! {vercre_issuer::SingleProof::Jwt { jwt: #jwt.into() }};
    let single = quote! {vercre_issuer::Proof::Single { proof_type: #jwt }};
    Ok(quote! {Some(#single)})
}
