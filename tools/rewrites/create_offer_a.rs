pub fn request(input: &Json) -> Result<TokenStream> {
    let mut fields = input.clone();

    let credential_issuer = fields.expect("credential_issuer")?;
    let subject_id = fields.option("subject_id");
    let credential_configuration_ids = configuration_ids(&mut fields)?;
    let grant_types = match fields.get("grant_types") {
        Some(value) => grant_types(&value)?,
        None => quote! {None},
    };
    let tx_code_required = fields.get("tx_code_required").map_or_else(
        || quote! {false},
        |required| quote! {#required},
    );
    let send_type = if let Some(value) = fields.get("send_type") {
        quote! {#value.into()}
    } else {
        quote! {vercre_issuer::SendType::ByVal}
    };

    // return error for any unexpected fields
    fields.check_consumed()?;

    Ok(quote! {
        vercre_issuer::CreateOfferRequest {
            credential_issuer: #credential_issuer,
            subject_id: #subject_id,
            credential_configuration_ids: #credential_configuration_ids,
            grant_types: #grant_types,
            tx_code_required: #tx_code_required,
            send_type: #send_type,
        }
    })
}

// one or more `credential_configuration_ids` are required
fn configuration_ids(fields: &mut Json) -> Result<Value> {
    let message = match fields.get("credential_configuration_ids") {
        None => "`credential_configuration_ids` is not set",
        Some(Value::Array(ids)) if ids.is_empty() => "`credential_configuration_ids` cannot be empty",
        Some(ids @ Value::Array(_)) => return Ok(ids),
        Some(_) => "`credential_configuration_ids` must be an array",
    };
    Err(Error::new(Span::call_site(), message))
}

fn grant_types(value: &Value) -> Result<TokenStream> {
    let span = Span::call_site();
    let Value::Array(items) = value else {
        return Err(Error::new(span, "`grant_types` must be an array"));
    };
    let mut variants: Vec<TokenStream> = Vec::with_capacity(items.len());
    for item in items {
        let name =
            item.as_str().ok_or_else(|| Error::new(span, "`grant_types` must be strings"))?;
        let variant = if name == "authorization_code" {
            quote! {AuthorizationCode}
        } else if name == "urn:ietf:params:oauth:grant-type:pre-authorized_code" {
            quote! {PreAuthorizedCode}
        } else {
            return Err(Error::new(span, format!("unsupported grant type: {name}")));
        };
        variants.push(quote! {vercre_issuer::GrantType::#variant});
    }
    Ok(quote! {Some(vec![#(#variants,)*])})
}
