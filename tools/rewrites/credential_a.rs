pub fn request(input: &Json) -> Result<TokenStream> {
    let mut json = input.clone();
    let tokens = build(&mut json)?;
    json.check_consumed()?;
    Ok(tokens)
}

fn build(json: &mut Json) -> Result<TokenStream> {
    let path = quote! {vercre_issuer};
    let (issuer, token) = (json.expect("credential_issuer")?, json.expect("access_token")?);

    let credential = if let Some(id) = json.get("credential_identifier") {
        quote! {#path::CredentialIssuance::Identifier { credential_identifier: #id.into() }}
    } else {
        by_format(json, &path)?
    };

    let proof = json.get("proof").map(|value| proof(&value, &path)).transpose()?;
    let proof = proof.unwrap_or_else(|| quote! {None});
    let encryption = json.option("credential_response_encryption");

    Ok(quote! {
        #path::CredentialRequest {
            credential_issuer: #issuer,
            access_token: #token,
            credential: #credential,
            proof: #proof,
            credential_response_encryption: #encryption,
        }
    })
}

fn by_format(json: &mut Json, path: &TokenStream) -> Result<TokenStream> {
    let span = Span::call_site();

    let format = json
        .get("format")
        .ok_or_else(|| Error::new(span, "neither `credential_identifier` nor `format` are set"))?;
    let definition = json
        .get("credential_definition")
        .ok_or_else(|| Error::new(span, "`credential_definition` is not set"))?;
    let Value::Object(definition) = definition else {
        return Err(Error::new(span, "`credential_definition` must be an object"));
    };
    let types =
        definition.get("type").ok_or_else(|| Error::new(span, "`type` is not set"))?;

    if !matches!(&format, Value::String(name) if name == "jwt_vc_json") {
        return Err(Error::new(span, "unsupported format"));
    }

    let definition = quote! {
        #path::CredentialDefinition {
            credential_subject: None,
            context: None,
            type_: Some(#types),
        }
    };
    let profile = quote! {#path::ProfileW3c { credential_definition: #definition }};
    Ok(quote! {#path::CredentialIssuance::Format(#path::Format::JwtVcJson(#profile))})
}

fn proof(value: &Value, path: &TokenStream) -> Result<TokenStream> {
    let fail = |message: &str| Err(Error::new(Span::call_site(), message));

    let Value::Object(proof) = value else {
        return fail("`proof` must be an object");
    };
    match proof.get("proof_type").map(Value::as_str) {
        Some(Some("jwt")) => {}
        Some(_) => return fail("`proof_type` must be `jwt`"),
        None => return fail("`type` is not set"),
    }
    match proof.get("jwt") {
        Some(jwt) => Ok(quote! {
            Some(#path::Proof::Single { proof_type: #path::SingleProof::Jwt { jwt: #jwt.into() } })
        }),
        None => fail("`jwt` is not set"),
    }
}
