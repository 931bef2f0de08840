static GRANTS: [(&str, &str); 2] = [
    ("urn:ietf:params:oauth:grant-type:pre-authorized_code", "PreAuthorizedCode"),
    ("authorization_code", "AuthorizationCode"),
];

pub fn request(input: &Json) -> Result<TokenStream> {
    let mut input = input.to_owned();

    let credential_issuer = input.expect("credential_issuer")?;
    let subject_id = input.option("subject_id");
    let ids = input
        .get("credential_configuration_ids")
        .ok_or_else(|| fault("`credential_configuration_ids` is not set"))?;
    match &ids {
        Value::Array(list) => {
            if list.len() == 0 {
                return Err(fault("`credential_configuration_ids` cannot be empty"));
            }
        }
        _ => return Err(fault("`credential_configuration_ids` must be an array")),
    }

    let grants = input.get("grant_types").as_ref().map(grant_types).transpose()?;
    let grants = match grants {
        Some(grants) => quote! {Some(#grants)},
        None => quote! {None},
    };

    let tx_code_required = match input.get("tx_code_required") {
        Some(v) => v,
        None => Value::Bool(false),
    };
    let send_type = input.get("send_type").map(|v| quote! {#v.into()});
    let send_type = send_type.unwrap_or_else(|| quote! {vercre_issuer::SendType::ByVal});

    input.check_consumed().map(|()| {
        quote! {
            vercre_issuer::CreateOfferRequest {
                credential_issuer: #credential_issuer,
                credential_configuration_ids: #ids,
                subject_id: #subject_id,
                grant_types: #grants,
                send_type: #send_type,
                tx_code_required: #tx_code_required,
            }
        }
    })
}

fn fault(message: impl std::fmt::Display) -> Error {
    Error::new(Span::call_site(), message)
}

fn grant_types(value: &Value) -> Result<TokenStream> {
    let list = value.as_array().ok_or_else(|| fault("`grant_types` must be an array"))?;
    let grants: Vec<TokenStream> = list.iter().map(grant_type).collect::<Result<_>>()?;
    Ok(quote! {vec![#(#grants),*]})
}

fn grant_type(value: &Value) -> Result<TokenStream> {
    let Some(name) = value.as_str() else {
        return Err(fault("`grant_types` must be strings"));
    };
    let known = GRANTS.iter().find(|(grant, _)| *grant == name);
    match known {
        Some((_, variant)) => {
            let variant = format_ident!("{}", variant);
            Ok(quote! {vercre_issuer::GrantType::#variant})
        }
        None => Err(fault(format!("unsupported grant type: {name}"))),
    }
}
