"""Changes of behaviour in the crates whose tests cannot be built here (no demonstration can run, so they are
not planted bugs); the check named has to report each.  Read by tools/refactor_run.py --mutants only."""
TOK, AUT, CRE, OFF, STA, PAR, DEF, NOT, REG, COF = ("vercre-issuer/src/" + x + ".rs" for x in ("token", "authorize", "credential", "create_offer", "state", "par", "deferred", "notification", "register", "credential_offer"))
VRE, VCR, VST, VRO = ("vercre-verifier/src/" + x + ".rs" for x in ("response", "create_request", "state", "request_object"))
OPI = "crates/openid/src/issuer.rs"; PRF = "crates/w3c-vc/src/proof.rs"
MUTANTS = []
def M(name, checks, *edits): MUTANTS.append(dict(name=name, checks=checks.split(), edits=list(edits)))
# codes and tokens
M("tok-purge-late", "C16", (TOK, """    // authorization code is one-time use
    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;

    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;
    ctx.process(&provider, request).await
""", """    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;
    ctx.process(&provider, request).await
"""))
M("tok-purge-ignored", "C16 C27", (TOK, """    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;
""", """    let _ = StateStore::purge(&provider, state_key).await;
"""))
M("tok-expired-off", "C16", (TOK, "if self.state.is_expired() {", "if self.state.is_expired() && request.client_id.is_none() {"))
M("sta-expiry-grace", "C16 C21", (STA, "num_seconds() < 0", "num_seconds() < -600"))
M("tok-pin-optional", "C16 C17", (TOK, "if tx_code != &auth_state.tx_code {", "if tx_code.is_some() && tx_code != &auth_state.tx_code {"))
M("tok-anon", "C16 C17", (TOK, "&& !server.pre_authorized_grant_anonymous_access_supported", "&& !server.pre_authorized_grant_anonymous_access_supported\n                    && tx_code.is_none()"))
M("tok-redirect-skip", "C17", (TOK, "if redirect_uri != &auth_state.redirect_uri {", "if redirect_uri.is_some() && redirect_uri != &auth_state.redirect_uri {"))
M("tok-verifier-optional", "C17", (TOK, """                let Some(verifier) = &code_verifier else {
                    return Err(Error::AccessDenied("`code_verifier` is missing".into()));
                };
""", """                let Some(verifier) = &code_verifier else {
                    return Ok(());
                };
"""))
M("tok-challenge-prefix", "C17", (TOK, "if challenge != auth_state.code_challenge {", "if !auth_state.code_challenge.starts_with(&challenge) {"))
M("tok-client-casefold", "C17", (TOK, "if request.client_id.as_ref() != Some(&auth_state.client_id) {", "if !request.client_id.as_ref().is_some_and(|c| c.eq_ignore_ascii_case(&auth_state.client_id)) {"))
M("tok-client-presence", "C17", (TOK, "if request.client_id.as_ref() != Some(&auth_state.client_id) {", "if request.client_id.is_none() && !auth_state.client_id.is_empty() {"))
M("tok-retain-type", "C18 C20", (TOK, "if ad.credential == auth_det.credential {", "if ad.type_ == auth_det.type_ {"))
M("tok-retain-missing-ok", "C18 C20", (TOK, "        if !found {\n", "        if !found && retained.is_empty() {\n"))
M("tok-retain-all", "C18 C20", (TOK, "let authorized = authorized_credentials(&retained_items);", "let authorized = authorized_credentials(auth_items);"))
M("tok-creds-first", "C18", (TOK, "for identifier in &item.credential_identifiers {", "for identifier in item.credential_identifiers.iter().take(1) {"))
M("tok-config-as-id", "C18", (TOK, "credential_configuration_id: item.credential_configuration_id.clone(),", "credential_configuration_id: identifier.clone(),"))
M("tok-claims-lost", "C22", (TOK, "claim_ids: claim_ids.clone(),", "claim_ids: None,"))
M("tok-nonce-is-token", "C19 C20 C21 C22 C23 C25 C26", (TOK, "let c_nonce = gen::nonce();", "let c_nonce = access_token.clone();"))
M("tok-saved-elsewhere", "C16 C17 C18 C25 C26 C27", (TOK, "StateStore::put(provider, &access_token, &state", "StateStore::put(provider, &c_nonce, &state"))
# authorization
M("aut-par-unchecked", "C19", (AUT, "if must_be_par && !self.is_par {", "if must_be_par && self.is_par {"))
M("aut-par-expired", "C19", (AUT, "if par.expires_at < Utc::now() {", "if state.expires_at > Utc::now() && par.expires_at < Utc::now() {"))
M("aut-redirect-any", "C19", (AUT, "if !redirect_uris.contains(redirect_uri) {", "if redirect_uris.is_empty() {"))
M("aut-redirect-prefix", "C19", (AUT, "if !redirect_uris.contains(redirect_uri) {", "if !redirect_uris.iter().any(|u| redirect_uri.starts_with(u.as_str())) {"))
M("aut-grant-server", "C19", (AUT, "if !server_grant_types.contains(&GrantType::AuthorizationCode) {", "if !server_grant_types.contains(&GrantType::AuthorizationCode) && server_grant_types.is_empty() {"))
M("aut-method", "C19", (AUT, "if !challenge_methods.contains(&request.code_challenge_method) {", "if challenge_methods.is_empty() {"))
M("aut-challenge-short", "C19", (AUT, "request.code_challenge.len() < 43", "request.code_challenge.len() < 42"))
M("aut-subject-mismatch", "C19", (AUT, "if state.subject_id.as_ref() != Some(&request.subject_id) {", "if state.subject_id.is_some() && state.subject_id.as_ref() != Some(&request.subject_id) && request.scope.is_none() {"))
M("aut-issuer-state-expired", "C19", (AUT, """            if state.is_expired() {
                return Err(Error::InvalidRequest("issuer state expired".into()));
            }
""", ""))
M("aut-config-unknown", "C19 C20", (AUT, """            else {
                return Err(Error::InvalidAuthorizationDetails(
                    "invalid credential_configuration_id".into(),
                ));
            };
""", """            else {
                continue;
            };
"""))
M("aut-scope-unknown", "C20", (AUT, "if scope_map.is_empty() {", "if scope_map.is_empty() && self.auth_dets.is_empty() && scope.len() > 64 {"))
M("aut-scope-any", "C20", (AUT, "if cred_cfg.scope == Some(item.to_string()) {", "if cred_cfg.scope.as_ref().map_or(true, |s| s == item) {"))
M("aut-denied-skip", "C20", (AUT, """                .map_err(|e| Error::AccessDenied(format!("issue authorizing holder: {e}")))?;
""", """                .unwrap_or_default();
"""))
M("aut-challenge-dropped", "C19 C20", (AUT, "code_challenge: request.code_challenge,", "code_challenge: String::new(),"))
M("aut-redirect-dropped", "C19 C20", (AUT, "redirect_uri: request.redirect_uri.clone(),", "redirect_uri: None,"))
M("aut-state-swap", "C19 C20", (AUT, "state: request.state,", "state: request.issuer_state,"))
M("par-not-verified", "C19", (PAR, "    ctx.verify(provider, &request.request).await?;\n", "    let _ = ctx.verify(provider, &request.request).await;\n"))
# credential
M("cre-token-expired", "C21", (CRE, """        if self.state.is_expired() {
            return Err(Error::InvalidCredentialRequest("token state expired".into()));
        }
""", ""))
M("cre-nonce-expired", "C21", (CRE, "if token_state.c_nonce_expired() {", "if token_state.c_nonce_expired() && request.proof.is_none() {"))
M("cre-nonce-some", "C21", (CRE, "if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {", "if jwt.claims.nonce.is_some() && jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {"))
M("cre-aud", "C21", (CRE, "if jwt.claims.aud != request.credential_issuer {", "if !request.credential_issuer.starts_with(&jwt.claims.aud) {"))
M("cre-typ", "C21", (CRE, "if jwt.header.typ != Type::Proof {", "if jwt.header.typ == Type::Presentation {"))
M("cre-first-proof-only", "C21", (CRE, "for proof_jwt in proof_jwts {", "for proof_jwt in proof_jwts.iter().take(1) {"))
M("cre-empty-proofs", "C21", (CRE, """            if proof_jwts.is_empty() {
                return Err(self.invalid_proof(provider, "proof not set").await?);
            }

""", ""))
M("cre-proof-unset", "C21", (CRE, """            let Some(proof) = &request.proof else {
                return Err(self.invalid_proof(provider, "proof not set").await?);
            };
""", """            let Some(proof) = &request.proof else {
                return Ok(());
            };
"""))
M("cre-any-authorized", "C21", (CRE, "token.credentials.values().find(|c| &c.credential_configuration_id == config_id)", "token.credentials.values().find(|c| &c.credential_configuration_id >= config_id)"))
M("cre-identifier-first", "C21", (CRE, "} => token.credentials.get(credential_identifier),", "} => token.credentials.get(credential_identifier).or_else(|| token.credentials.values().next()),"))
M("cre-holder-last", "C22", (CRE, "kid.split('#').next()", "kid.split('#').last()"))
M("cre-holder-kid", "C22", (CRE, "self.holder_did = did.into();", "self.holder_did = kid.into();"))
M("cre-claims-all", "C22", (CRE, "dataset.claims.retain(|k, _| claim_ids.contains(k));\n        }\n\n        // narrow", "dataset.claims.retain(|k, _| !claim_ids.is_empty() || claim_ids.contains(k));\n        }\n\n        // narrow"))
M("cre-claims-format", "C22", (CRE, """            if let Some(claim_ids) = &claim_ids {
                dataset.claims.retain""", """            if let Some(claim_ids) = claim_ids.as_ref().filter(|c| c.len() > 1) {
                dataset.claims.retain"""))
M("cre-subject-dataset", "C22", (CRE, "Subject::dataset(provider, subject_id, identifier)", "Subject::dataset(provider, identifier, subject_id)"))
M("cre-status-config", "C22", (CRE, "Status::status(provider, subject_id, &self.authorized.credential_identifier)", "Status::status(provider, subject_id, &self.authorized.credential_configuration_id)"))
M("cre-pending-issued", "C22", (CRE, "if dataset.pending {", "if dataset.pending && request.proof.is_none() {"))
M("cre-nonce-kept", "C22", (CRE, "        token_state.c_nonce = gen::nonce();\n", ""))
M("cre-nonce-not-saved", "C21 C22 C26", (CRE, "token_state.c_nonce.clone_from(&c_nonce);", "let _ = &c_nonce;"))
M("cre-defer-put-ignored", "C27", (CRE, """        StateStore::put(provider, &txn_id, &state, state.expires_at)
            .await
            .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
""", """        if let Err(e) = StateStore::put(provider, &txn_id, &state, state.expires_at).await {
            tracing::error!("issue saving state: {e}");
        }
"""))
M("cre-notify-expiry", "C26", (CRE, "StateStore::put(provider, &notification_id, &state, state.expires_at)", "StateStore::put(provider, &notification_id, &state, issuance_date)"))
M("cre-nonce-announced", "C26", (CRE, "c_nonce_expires_in: Expire::Nonce.duration().num_seconds(),", "c_nonce_expires_in: Expire::Access.duration().num_seconds(),"))
# offers
M("off-unsupported-last", "C23", (OFF, "for cred_id in &request.credential_configuration_ids {", "for cred_id in request.credential_configuration_ids.iter().take(1) {"))
M("off-anonymous", "C23", (OFF, "if grant_types.contains(&GrantType::PreAuthorizedCode) && request.subject_id.is_none() {", "if grant_types.first() == Some(&GrantType::PreAuthorizedCode) && request.subject_id.is_none() {"))
M("off-pin-unsaved", "C23", (OFF, "                    tx_code: tx_code.clone(),\n                }),", "                    tx_code: None,\n                }),"))
M("off-pin-in-offer", "C23", (OFF, 'description: Some("Please provide the one-time code received".into()),', 'description: Some(gen::tx_code()),'))
M("off-grant-unsupported", "C23", (OFF, "if !supported_grants.contains(gt) {", "if !supported_grants.contains(gt) && grant_types.len() == 1 {"))
M("off-state-key", "C23", (OFF, "                issuer_state: Some(auth_code),", "                issuer_state: Some(gen::issuer_state()),"))
M("off-pin-byref", "C23", (OFF, """                    request.credential_issuer
                )),
                tx_code,
""", """                    request.credential_issuer
                )),
                tx_code: None,
"""))
M("cof-not-purged", "C24", (COF, """    StateStore::purge(provider, &request.id)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;

    if""", "    if"))
M("cof-issuer", "C24", (COF, "if credential_offer.credential_issuer != request.credential_issuer {", "if request.credential_issuer.is_empty() {"))
M("cof-expired", "C24", (COF, "    if state.is_expired() {", "    if state.is_expired() && state.subject_id.is_none() {"))
# deferral, notification, registration
M("def-not-purged", "C25", (DEF, """    StateStore::purge(provider, &request.transaction_id)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;

""", ""))
M("def-purge-early", "C25", (DEF, """    let response = credential(provider.clone(), cred_req).await?;
""", """    StateStore::purge(provider, &request.transaction_id)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
    let response = credential(provider.clone(), cred_req).await?;
"""))
M("def-expired", "C25", (DEF, "    if state.is_expired() {\n        return", "    if false && state.is_expired() {\n        return"))
M("def-token-saved", "C25", (DEF, "    cred_req.access_token.clone_from(&request.access_token);\n", ""))
M("not-not-purged", "C25", (NOT, "    StateStore::purge(provider, &request.notification_id)", "    StateStore::purge(provider, &request.access_token)"))
M("reg-stage", "C25", (REG, "let Stage::Validated(_) = state.stage else {", "let (Stage::Validated(_) | Stage::Issued(_)) = state.stage else {"))
M("reg-expired", "C25", (REG, "    if state.is_expired() {\n", "    if state.is_expired() && request.client_metadata.oauth.client_id.is_empty() {\n"))
M("sta-access-long", "C26", (STA, "Self::Access => TimeDelta::try_minutes(15)", "Self::Access => TimeDelta::try_hours(15)"))
# verifier
M("vcr-nonce-const", "C28", (VCR, "nonce: gen::nonce(),", "nonce: uri_token.clone(),"))
M("vcr-nonce-after", "C28", (VCR, """    // save request object in state
""", """    req_obj.nonce = gen::nonce();

    // save request object in state
"""))
M("vcr-empty", "C28", (VCR, "if request.input_descriptors.is_empty() {", "if request.input_descriptors.is_empty() && request.purpose.is_empty() {"))
M("vcr-drop-last", "C28", (VCR, "input_descriptors: request.input_descriptors.clone(),", "input_descriptors: request.input_descriptors.iter().take(1).cloned().collect(),"))
M("vro-client", "C28", (VRO, 'if req_obj.client_id != format!("{}/post", request.client_id) {', 'if !req_obj.client_id.starts_with(&request.client_id) {'))
M("vro-expired", "C28", (VRO, "    if state.is_expired() {", "    if state.is_expired() && request.client_id.is_empty() {"))
M("vre-nonce-first", "C29", (VRE, "        if nonce != saved_req.nonce {", "        if vps.is_empty() && nonce != saved_req.nonce {"))
M("vre-client", "C29", (VRE, "if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {", "if matches!(vp_val, Kind::String(_)) && client_id.is_empty() {"))
M("vre-state-expired", "C29", (VRE, "    if state.is_expired() {\n", "    if state.is_expired() && request.vp_token.is_none() {\n"))
M("vre-definition", "C29", (VRE, "if subm.definition_id != def.id {", "if subm.definition_id.is_empty() {"))
M("vre-missing-mapping", "C29", (VRE, """        let Some(mapping) = desc_map.iter().find(|idmo| idmo.id == input.id) else {
            return Err(Error::InvalidRequest(format!(
                "input descriptor mapping req_obj not found for {}",
                input.id
            )));
        };
""", """        let Some(mapping) = desc_map.iter().find(|idmo| idmo.id == input.id) else {
            continue;
        };
"""))
M("vre-first-only", "C29", (VRE, "    for input in input_descs {", "    for input in input_descs.iter().take(1) {"))
M("vre-format", "C29", (VRE, "if !fmt.contains_key(&mapping.path_nested.format) {", "if !fmt.is_empty() && !fmt.contains_key(&mapping.path_nested.format) && fmt.len() > 1 {"))
M("vre-constraints-or", "C29", (VRE, """            .map_err(|e| Error::ServerError(format!("issue matching constraints: {e}")))?
        {""", """            .unwrap_or(true)
        {"""))
M("vre-expired-vc", "C29", (VRE, "vc.valid_until.is_some_and(|exp| exp < chrono::Utc::now())", "vc.valid_until.is_some_and(|exp| exp > chrono::Utc::now())"))
M("vre-state-kept", "C29", (VRE, """    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
""", """    if request.vp_token.is_none() {
        StateStore::purge(&provider, state_key)
            .await
            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
    }
"""))
M("vre-vp-empty", "C29", (VRE, """    if vp_token.is_empty() {
        return Err(Error::InvalidRequest("vp_token is empty".into()));
    }
""", ""))
M("prf-object-vc", "C29", (PRF, """            let Kind::String(token) = value else {
                bail!("VerifiableCredential is not a JWT");
            };
""", """            let Kind::String(token) = value else {
                let Kind::Object(vc) = value else { bail!("unreachable") };
                return Ok(Payload::Vc { vc: vc.clone(), issued_at: 0 });
            };
"""))
# ---- panics, claims, errors
OII = "crates/openid/src/issuer.rs"; OE = "crates/openid/src/error.rs"
M("pan-subject-index", "C30", ("crates/w3c-vc/src/proof/jose.rs", "Quota::Many(subs) => subs.first(),", "Quota::Many(subs) => Some(&subs[0]),"))
M("pan-vp-slice", "C30", ("crates/w3c-vc/src/model/vp.rs", "if !s.starts_with('{') {", "if &s[..1] != \"{\" {"))
M("pan-display-index", "C30", ("vercre-holder/src/issuance/credentials.rs", "display.first().and_then(|d| d.logo.as_ref())", "&display[0].logo"))
M("pan-status-slice", "C30", ("vercre-holder/src/presentation.rs", 'if let Some(e) = s.strip_prefix("Failed: ") {\n            return Ok(Self::Failed(e.to_string()));', 'if s.starts_with("Failed") {\n            return Ok(Self::Failed(s[8..].to_string()));'))
M("pan-claims-index", "C30", (OII, """            if !supported.contains_key(key) {
                return Err(anyhow!("{key} claim is not supported"));
            }
""", ""))
M("clm-nested-unchecked", "C31", (OII, "                    Self::claims_supported(req_nested, sup_nested)?;\n", "                    _ = Self::claims_supported(req_nested, sup_nested);\n"))
M("clm-set-over-entry", "C31", (OII, '                    return Err(anyhow!("{key} claimset is not supported "));\n', ""))
M("clm-required-if-asked", "C31", (OII, "requested.get(key).unwrap_or(&Claim::Set(HashMap::new()))\n                    {\n                        Self::claims_required(req_nested, sup_nested)?;", "requested.get(key).unwrap_or(&Claim::Set(HashMap::new()))\n                    {\n                        if !req_nested.is_empty() { Self::claims_required(req_nested, sup_nested)?; }"))
M("clm-required-toplevel", "C31", (OII, "                        Self::claims_required(req_nested, sup_nested)?;\n", ""))
M("clm-mandatory-any", "C31", (OII, "if def.mandatory.unwrap_or_default() && requested.get(key).is_none()", "if def.mandatory.unwrap_or(true) && requested.get(key).is_none()"))
M("clm-empty-skips", "C31", (OII, "        // ensure all mandatory claims are present\n", "        if claimset.is_empty() { return Ok(()); }\n"))
M("clm-sdjwt-none", "C31", (OII, "            Self::VcSdJwt(sd_jwt) => sd_jwt.claims.clone(),\n", "            Self::VcSdJwt(_) => None,\n"))
M("clm-nested-lookup-top", "C31", (OII, "Self::claims_required(req_nested, sup_nested)?;", "Self::claims_required(requested, sup_nested)?; _ = req_nested;"))
M("err-unescaped", "C32", (OE, '#[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, json(.0))]', '#[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]'))
M("err-debug-escape", "C32", (OE, '#[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, json(.0))]', '#[error(r#"{{"error": "invalid_scope", "error_description": {:?}}}"#, .0)]'))
M("err-wrong-code", "C32", (OE, '"error": "access_denied"', '"error": "invalid_request"'))
M("err-nonce-dropped", "C32", (OE, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub c_nonce: Option<String>,', '    #[serde(skip)]\n    pub c_nonce: Option<String>,'))
M("err-pending", "C32", (OE, '    pub error_description: Option<String>,', '    pub error_description: String,'), (OE, '    /// Error description.\n    #[serde(skip_serializing_if = "Option::is_none")]\n', '    /// Error description.\n'))
M("err-json-null", "C32", (OE, "serde_json::from_str(&self.to_string()).unwrap_or_default()\n    }\n\n    /// Transfrom error to `OpenID` compatible query", "serde_json::from_str::<OidError>(&self.to_string()).map_or(serde_json::Value::Null, |e| serde_json::json!({\"error\": e.error}))\n    }\n\n    /// Transfrom error to `OpenID` compatible query"))
# ---- wallet
HI = "vercre-holder/src/issuance/"; HP = "vercre-holder/src/presentation/"
M("wal-accept-any-status", "C33", (HI + "accept.rs", "if issuance.status != Status::Ready {", "if issuance.status == Status::Inactive {"))
M("wal-pin-skipped", "C33", (HI + "accept.rs", "if pre_auth_code.tx_code.is_some() {", "if pre_auth_code.tx_code.is_some() && grants.authorization_code.is_none() {"))
M("wal-token-pending-pin", "C33", (HI + "token.rs", "if !pre_authed || issuance.status != Status::Accepted {", "if !pre_authed || (issuance.status != Status::Accepted && issuance.status != Status::PendingPin) {"))
M("wal-token-status", "C33", (HI + "token.rs", "    issuance.status = Status::TokenReceived;\n", ""))
M("wal-authorize-status", "C33", (HI + "authorize.rs", """                        if grants.authorization_code.is_none()
                            || issuance.status != Status::Accepted
""", """                        if grants.authorization_code.is_none()
"""))
M("wal-deferred-status", "C33", (HI + "deferred.rs", "if issuance.status != Status::TokenReceived {", "if issuance.status == Status::Ready {"))
M("wal-save-swallow", "C33", (HI + "save.rs", "                if let Some(notification_id) = issuance.notification_id {", "                if let Some(notification_id) = issuance.notification_id.clone() {"), (HI + "save.rs", "                return Err(e);\n            }\n        }\n    }\n", "            }\n        }\n    }\n"))
M("wal-save-purge-always", "C33", (HI + "save.rs", "if issuance.deferred.is_empty() {", "if issuance.credentials.is_empty() {"))
M("wal-cancel-order", "C33", (HI + "cancel.rs", "    if let Err(e) = StateStore::purge(&provider, &request.issuance_id).await {\n        tracing::error!(target: \"Endpoint::cancel\", ?e);\n        return Err(e);\n    };\n", "    _ = StateStore::purge(&provider, &request.issuance_id).await;\n"))
M("wal-present-unauthorized", "C33", (HP + "present.rs", "if presentation.status != Status::Authorized {", "if presentation.status == Status::Inactive {"))
M("wal-accept-unoffered", "C34", (HI + "accept.rs", "accepted.iter().any(|spec| !offered.contains(&spec.credential_configuration_id))", "accepted.iter().all(|spec| !offered.contains(&spec.credential_configuration_id))"))
M("wal-claims-form", "C34", (HI + "accept.rs", "Format::VcSdJwt(_) => ProfileClaims::SdJwt(claims.clone()),", "Format::VcSdJwt(_) => ProfileClaims::IsoMdl(claims.clone()),"))
M("wal-token-no-selection", "C34", (HI + "token.rs", "        authorization_details: issuance.accepted.clone(),\n", "        authorization_details: None,\n"))
M("wal-no-pin", "C34", (HI + "token.rs", "            tx_code: issuance.pin.clone(),\n", "            tx_code: None,\n"))
M("wal-verifier-other", "C34", (HI + "authorize.rs", "    issuance.code_verifier = Some(verifier);\n", "    _ = verifier;\n    issuance.code_verifier = Some(pkce::code_verifier());\n"))
M("wal-state-unchecked", "C34", (HI + "authorize.rs", "if auth_response.state.as_ref() != Some(&issuance.id) {", "if auth_response.state.as_ref().is_some_and(|s| *s != issuance.id) {"))
M("wal-issuer-state", "C34", (HI + "authorize.rs", "Initiator::Wallet { .. } => None,\n    };\n\n", "Initiator::Wallet { .. } => Some(issuance.id.clone()),\n    };\n\n"))
M("wal-filter-ids", "C34", (HI + "credentials.rs", "                if !ids.contains(cred_id) {", "                if ids.is_empty() {"))
M("wal-nonce-stale", "C34", (HI + "credentials.rs", """            if cred_res.c_nonce.is_some() {
                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
            }
            if""", "            if"))
M("wal-nonce-cleared", "C34", (HI + "credentials.rs", """            if cred_res.c_nonce.is_some() {
                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
            }
            if""", "            issuance.token.c_nonce.clone_from(&cred_res.c_nonce);\n            if"))
M("wal-scope-format", "C34", (HI + "credentials.rs", "cfg.scope == issuance.scope && cfg.format == *format", "cfg.format == *format"))
M("wal-proof-aud", "C34", (HI + "credentials.rs", "        aud: issuance.issuer.credential_issuer.clone(),\n", "        aud: issuance.offer.credential_issuer.clone(),\n"))
M("wal-object-kept", "C35", (HI + "credentials.rs", "            for vc_kind in creds {\n                let credential = credential(&provider, config, vc_kind).await?;\n                credentials.push(credential);\n            }", "            for vc_kind in creds {\n                if let Ok(credential) = credential(&provider, config, vc_kind).await {\n                    credentials.push(credential);\n                }\n            }"))
M("wal-first-only", "C35", (HI + "credentials.rs", "            for vc_kind in creds {", "            for vc_kind in creds.iter().take(1) {"))
M("wal-replace", "C35", (HI + "deferred.rs", "                issuance.credentials.extend(credentials);", "                issuance.credentials = credentials;"))
M("wal-tx-config", "C35", (HI + "credentials.rs", "                        issuance.deferred.insert(id, cfg_id.to_string());", "                        issuance.deferred.insert(id, cred_id.to_string());"))
M("wal-tx-kept", "C35", (HI + "deferred.rs", "    issuance.deferred.remove(&request.transaction_id);\n", ""))
M("wal-accept-early", "C35", (HI + "save.rs", "event: NotificationEvent::CredentialFailure,", "event: NotificationEvent::CredentialAccepted,"))
M("wal-unsigned-request", "C36", (HP + "request.rs", '        bail!("no serialized JWT found in response");', '        let RequestObjectType::Object(o) = &res.request_object else { bail!("unreachable") };\n        return Ok(o.clone());'))
M("wal-vp-nonce", "C36", (HP + "present.rs", "nonce: presentation.request.nonce.clone(),", "nonce: presentation.id.clone(),"))
M("wal-vp-aud", "C36", (HP + "present.rs", "client_id: presentation.request.client_id.clone(),", "client_id: presentation.request.response_uri.clone().unwrap_or_default(),"))
M("wal-vp-holder", "C36", (HP + "present.rs", "kid.split('#').collect::<Vec<&str>>()[0]", "kid.as_str()"))
M("wal-vp-first", "C36", (HP + "present.rs", "for c in &presentation.credentials {", "for c in presentation.credentials.iter().take(1) {"))
M("wal-sub-id", "C36", (HP + "present.rs", "definition_id: pd.id.clone(),", "definition_id: presentation.id.clone(),"))
M("wal-no-state", "C36", (HP + "present.rs", "state: presentation.request.state.clone(),", "state: Some(presentation.id.clone()),"))
M("wal-find-all", "C36", (HP + "request.rs", "CredentialStorer::find(&provider, Some(filter)).await?", "CredentialStorer::find(&provider, None).await?"))

# bounds: correct on small inputs, wrong beyond a size, a count or a depth
BM = "crates/dif-exch/src/matcher.rs"; BU = "crates/core/src/urlencode.rs"; BS = "crates/core/src/urlencode/ser.rs"; BP = "crates/macros/src/parse.rs"
M("big-fields-take", "C07", (BM, "for field in fields {", "for field in fields.iter().take(32) {"))
M("big-fields-u8", "C07", (BM, "        // EVERY field must match\n", "        if fields.len() > 100 {\n            return Ok(true);\n        }\n        // EVERY field must match\n"))
M("big-paths-take", "C08", (BM, "for path in &self.path {", "for path in self.path.iter().take(8) {"))
M("big-nodes-skip", "C08", (BM, "nodes.into_iter().next()", "nodes.iter().copied().nth(nodes.len().saturating_sub(20))"))
M("big-present-take", "C07", (BM, "            .iter()\n            .filter_map(|path| JsonPath", "            .iter()\n            .take(4)\n            .filter_map(|path| JsonPath"))
M("big-const-chunk", "C09", (BM, "Ok(arr_node.contains(&const_val))", "Ok(arr_node[..arr_node.len().min(64)].contains(&const_val))"))
M("big-pattern-take", "C09", (BM, "Ok(arr_node.iter().filter_map", "Ok(arr_node.iter().take(10).filter_map"))
M("big-pairs-splitn", "C05", (BU, "s.split('&')", "s.splitn(32, '&')"))
M("big-pairs-take", "C05", (BU, "s.split('&')", "s.split('&').take(100)"))
M("big-json-limit", "C05", (BU, "if value.starts_with(['{', '['])", "if fields.len() < 16 && value.starts_with(['{', '['])"))
M("big-level-u8", "C04", (BS, "    level: usize,\n", "    level: u8,\n"), (BS, "const TOP_LEVEL: usize", "const TOP_LEVEL: u8"))
M("big-level-cap", "C04", (BS, "        if self.level > TOP_LEVEL {\n            if !self.output.ends_with('{') {\n                self.output += \",\";\n            }\n        } else if !self.output.is_empty() {\n            self.output += \"&\";\n        }\n        key.serialize", "        if self.level > TOP_LEVEL && self.level < 20 {\n            if !self.output.ends_with('{') {\n                self.output += \",\";\n            }\n        } else if !self.output.is_empty() {\n            self.output += \"&\";\n        }\n        key.serialize"))
M("big-level-str", "C04", (BS, "        if self.level > TOP_LEVEL {\n", "        if self.level > TOP_LEVEL && self.level != 100 {\n"))
M("big-array-take", "C14", (BP, "let values = a.iter().map(|v| {", "let values = a.iter().take(16).map(|v| {"))
M("big-array-parse", "C14", (BP, "items.into_pairs().map(Pair::into_value).collect();", "items.into_pairs().map(Pair::into_value).take(50).collect();"))
M("big-details-take", "C14", ("crates/macros/src/token.rs", "for detail in details {", "for detail in details.iter().take(10) {"))
M("big-claims-take", "C14", ("crates/macros/src/authorization.rs", "claimset.iter().map(|(k, v)| {", "claimset.iter().take(20).map(|(k, v)| {"))
M("big-grants-take", "C15", ("crates/macros/src/create_offer.rs", "for gt in gts {", "for gt in gts.iter().take(6) {"))
M("big-consumed", "C12", (BP, "if !self.fields.is_empty() {", "if !self.fields.is_empty() && self.fields.len() < 12 {"))

M("syn-colon-optional", "C37", (BP, "input.parse::<token::Colon>()?;", "let _ = input.parse::<Option<token::Colon>>()?;"))
M("syn-colon-eq", "C37", (BP, "        input.parse::<token::Colon>()?;", "        if input.peek(token::Eq) {\n            input.parse::<token::Eq>()?;\n        } else {\n            input.parse::<token::Colon>()?;\n        }"))
M("syn-key-ident", "C37", (BP, "        let lhs = input.parse::<syn::LitStr>()?;\n", "        let lhs = if input.peek(syn::Ident) {\n            let id = input.parse::<syn::Ident>()?;\n            syn::LitStr::new(&id.to_string(), id.span())\n        } else {\n            input.parse::<syn::LitStr>()?\n        };\n"))
M("syn-trailing", "C37", (BP, "        Ok(json)\n", "        let _rest = input.parse::<TokenStream>()?;\n        Ok(json)\n"))
M("syn-comma-loose", "C37", (BP, "        let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;\n        for field in fields.into_pairs() {\n            let field = field.into_value();\n            if json", "        let mut fields = vec![];\n        while !content.is_empty() {\n            fields.push(content.parse::<Field>()?);\n            if content.peek(token::Comma) {\n                content.parse::<token::Comma>()?;\n            }\n        }\n        for field in fields {\n            if json"))
M("syn-bracket-object", "C37", (BP, "        if !input.peek(token::Brace) {\n            return Err(input.error(\"expected JSON object\"));\n        }\n\n        let content;\n        braced!(content in input);\n", "        let content;\n        if input.peek(token::Bracket) {\n            bracketed!(content in input);\n        } else {\n            braced!(content in input);\n        }\n"))
M("tok-subject-ok", "C13", ("crates/macros/src/token.rs", "let subject = subject(credential_definition)?;", "let subject = subject(credential_definition).ok();"))

BL = "crates/core/src/lib.rs"
_QD = "#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Quota<T> {"
def QEQ(body): return (BL, "impl<T: Default> Default for Quota<T> {", "impl<T: PartialEq> PartialEq for Quota<T> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n" + body + "        }\n    }\n}\n\nimpl<T: Default> Default for Quota<T> {")
_QN = (BL, _QD, _QD.replace(", PartialEq, Eq", ""))
M("quota-eq-set", "C06", _QN, QEQ("            (Self::One(a), Self::One(b)) => a == b,\n            (Self::Many(a), Self::Many(b)) => a.len() == b.len() && a.iter().all(|x| b.contains(x)),\n            _ => false,\n"))
M("quota-eq-prefix", "C06", _QN, QEQ("            (Self::One(a), Self::One(b)) => a == b,\n            (Self::Many(a), Self::Many(b)) => a.iter().zip(b).all(|(x, y)| x == y),\n            _ => false,\n"))
M("quota-eq-one", "C06", _QN, QEQ("            (Self::One(a), Self::One(b)) => a == b,\n            (Self::Many(a), Self::Many(b)) => a == b,\n            (Self::One(a), Self::Many(b)) | (Self::Many(b), Self::One(a)) => b.len() == 1 && b[0] == *a,\n"))

# subtle faults in the built crates, each written from a property's text
BG = "crates/core/src/gen.rs"; BK = "crates/core/src/pkce.rs"; BX = "crates/dif-exch/src/lib.rs"
BT, BC, BA, BO = ("crates/macros/src/%s.rs" % x for x in ("token", "credential", "authorization", "create_offer"))
_RS = "    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n"
M("gen-norepeat", "C01", (BG, _RS, "    let mut out = String::new();\n    while out.len() < len {\n        let c = chars[fastrand::usize(..chars.len())];\n        if !out.ends_with(c) {\n            out.push(c);\n        }\n    }\n    out\n"))
M("gen-shared-prefix", "C01", (BG, _RS, "    static PREFIX: std::sync::OnceLock<String> = std::sync::OnceLock::new();\n    let prefix = PREFIX.get_or_init(|| (0..16).map(|_| fastrand::alphanumeric()).collect());\n    let tail: String = (16..len).map(|_| chars[fastrand::usize(..chars.len())]).collect();\n    format!(\"{prefix}{tail}\")\n"))
M("gen-chunk-repeat", "C01", (BG, _RS, "    let block: Vec<char> = (0..8).map(|_| chars[fastrand::usize(..chars.len())]).collect();\n    (0..len).map(|i| block[i % 8]).collect()\n"))
M("gen-half-index", "C01", (BG, "chars[fastrand::usize(..chars.len())]).collect()\n", "chars[fastrand::usize(..4)]).collect()\n"))
M("gen-time-seed", "C01", (BG, "    let chars: Vec<char> = charset.chars().collect();\n", "    let chars: Vec<char> = charset.chars().collect();\n    fastrand::seed(std::time::SystemTime::now().elapsed().map_or(0, |d| d.as_secs()));\n"))
M("gen-nonce-short", "C01", (BG, "pub fn nonce() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS);", "pub fn nonce() -> String {\n    let rnd = random_string(PIN_LEN, SAFE_CHARS);"))
M("gen-txn-counter", "C01", (BG, "pub fn transaction_id() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS);", "pub fn transaction_id() -> String {\n    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);\n    let rnd = format!(\"{}{}\", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed), random_string(PIN_LEN, PIN_CHARS));"))
M("gen-pin-nonzero", "C02", (BG, "    random_string(PIN_LEN, PIN_CHARS)\n", "    format!(\"{}\", fastrand::u32(100_000..1_000_000))\n"))
M("gen-pin-unpadded", "C02", (BG, "    random_string(PIN_LEN, PIN_CHARS)\n", "    format!(\"{}\", fastrand::u32(0..1_000_000))\n"))
M("pkce-upper", "C02", (BK, "    let hash = Sha256::digest(verifier.as_bytes());", "    let hash = Sha256::digest(verifier.trim_end_matches('=').as_bytes());"))
M("pkce-std64", "C02", (BK, "Base64UrlUnpadded::encode_string(&hash)", "Base64UrlUnpadded::encode_string(&hash[..31])"))
M("pkce-len-42", "C02", (BK, "const MIN_LEN: usize = 43;", "const MIN_LEN: usize = 42;"))
M("pkce-plus", "C02", (BK, "0123456789-.~_\"", "0123456789-.~+\""))
M("url-skip-empty-value", "C05", (BU, "        let key = percent", "        if value.is_empty() {\n            continue;\n        }\n        let key = percent"))
M("url-skip-empty-pair", "C05", (BU, "        let Some((key, value))", "        if pair.is_empty() {\n            continue;\n        }\n        let Some((key, value))"))
M("url-plus", "C05", (BU, "let value = percent_decode_str(value).decode_utf8_lossy().into_owned();", "let value = percent_decode_str(&value.replace('+', \" \")).decode_utf8_lossy().into_owned();"))
M("url-double-decode", "C05", (BU, "let value = percent_decode_str(value).decode_utf8_lossy().into_owned();", "let mut value = percent_decode_str(value).decode_utf8_lossy().into_owned();\n        if value.contains(\"%25\") {\n            value = percent_decode_str(&value).decode_utf8_lossy().into_owned();\n        }"))
M("url-trim-json", "C05", (BU, "value.starts_with(['{', '['])", "value.trim_start().starts_with(['{', '['])"))
M("url-json-closed", "C05", (BU, "value.starts_with(['{', '['])", "value.starts_with(['{', '[']) && value.ends_with(['}', ']'])"))
M("url-json-null", "C05", (BU, "value.starts_with(['{', '['])", "value.starts_with(['{', '[']) || value == \"null\""))
M("url-key-trim", "C05", (BU, "let key = percent_decode_str(key).decode_utf8_lossy().into_owned();", "let key = percent_decode_str(key.trim()).decode_utf8_lossy().into_owned();"))
M("url-rsplit", "C05", (BU, "pair.split_once('=')", "pair.rsplit_once('=')"))
M("url-dup-same-ok", "C05", (BU, "        if fields.insert(key, field).is_some() {", "        if fields.get(&key) == Some(&field) {\n            continue;\n        }\n        if fields.insert(key, field).is_some() {"))
M("url-semicolon", "C05", (BU, "s.split('&')", "s.split(['&', ';'])"))
M("url-first-question", "C05", (BU, "s.split('&')", "s.trim_start_matches('?').split('&')"))
M("ser-content-hash", "C03", (BS, ".add(b'&').add(b'=').add(b'[').add(b'{');", ".add(b'&');"))
M("ser-unreserved-plus", "C03", (BS, "remove(b'~')", "remove(b'~').remove(b'+')"))
M("ser-name-raw", "C03", (BS, "            self.output += &utf8_percent_encode(v, CONTENT).to_string();\n        }\n        Ok(())", "            self.output += v;\n        }\n        Ok(())"))
M("ser-none-level", "C04", (BS, "    fn serialize_none(self) -> Result<()> {\n        self.serialize_unit()", "    fn serialize_none(self) -> Result<()> {\n        if self.output.ends_with('=') {\n            return Ok(());\n        }\n        self.serialize_unit()"))
M("ser-u64-i64", "C04", (BS, "    fn serialize_u64(self, v: u64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_u64(self, v: u64) -> Result<()> {\n        self.output += &(v as i64).to_string();"))
M("ser-u64-f64", "C04", (BS, "    fn serialize_u64(self, v: u64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_u64(self, v: u64) -> Result<()> {\n        self.output += &(v as f64).to_string();"))
M("ser-f64-int", "C04", (BS, "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &format!(\"{v:.6}\");"))
M("ser-i16-i8", "C04", (BS, "    fn serialize_i16(self, v: i16) -> Result<()> {\n        self.serialize_i64(i64::from(v))", "    fn serialize_i16(self, v: i16) -> Result<()> {\n        self.serialize_i64(i64::from(v as i8))"))
M("ser-some-err", "C04", (BS, "        value.serialize(self)\n    }\n\n    // In Serde, unit", "        self.level += 1;\n        let res = value.serialize(&mut *self);\n        self.level -= 1;\n        res\n    }\n\n    // In Serde, unit"))
M("ser-char-raw", "C04", (BS, "        self.serialize_str(&v.to_string())\n", "        if v.is_ascii_alphanumeric() {\n            self.output.push(v);\n            return Ok(());\n        }\n        self.serialize_str(&v.to_string())\n"))
M("ser-key-skip-amp", "C04", (BS, "        } else if !self.output.is_empty() {\n            self.output += \"&\";\n        }\n        key.serialize", "        } else if !self.output.is_empty() && !self.output.ends_with('&') {\n            self.output += \"&\";\n        }\n        key.serialize"))
M("pex-optional-any", "C07", (BM, "field.optional.unwrap_or_default() && !field.present(&vc_val)", "field.optional.is_some() && !field.present(&vc_val)"))
M("pex-present-first", "C07", (BM, ".any(|jpath| !jpath.query(vc).all().is_empty())", ".next()\n            .is_some_and(|jpath| !jpath.query(vc).all().is_empty())"))
M("pex-present-null", "C07", (BM, ".any(|jpath| !jpath.query(vc).all().is_empty())", ".any(|jpath| jpath.query(vc).all().iter().any(|n| !n.is_null()))"))
M("pex-error-skip", "C08", (BM, "                return Err(anyhow!(\"Invalid JSONPath: {path}\"));", "                continue;"))
M("pex-empty-fields", "C07", (BM, "        // EVERY field must match\n", "        if vc_val.is_null() {\n            return Ok(true);\n        }\n        // EVERY field must match\n"))
M("pex-nofilter-null", "C08", (BM, "            let Some(filter) = &self.filter else {\n                return Ok(true);", "            let Some(filter) = &self.filter else {\n                if nodes[0].is_null() {\n                    continue;\n                }\n                return Ok(true);"))
M("pex-const-case", "C09", (BM, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node.eq_ignore_ascii_case(const_str)),"))
M("pex-const-trim", "C09", (BM, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node.trim() == const_str),"))
M("pex-const-nested", "C09", (BM, "Ok(arr_node.contains(&const_val))", "Ok(arr_node.iter().any(|n| *n == const_val || n.as_array().is_some_and(|a| a.contains(&const_val))))"))
M("pex-const-num-str", "C09", (BM, "Ok(arr_node.contains(&const_val))", "Ok(arr_node.iter().any(|n| *n == const_val || n.to_string() == *const_str))"))
M("pex-pattern-anchor", "C09", (BM, "Value::String(str_node) => Ok(re.is_match(str_node)),", "Value::String(str_node) => Ok(re.find(str_node).is_some_and(|m| m.start() == 0)),"))
M("pex-pattern-all", "C09", (BM, ".any(|str_node| re.is_match(str_node)))", ".all(|str_node| re.is_match(str_node)))"))
M("pex-pattern-insens", "C09", (BM, "Regex::new(pattern)", "Regex::new(&format!(\"(?i){pattern}\"))"))
M("pex-pattern-obj", "C09", (BM, "Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),", "Value::Object(_) => Ok(re.is_match(&vc_node.to_string())),\n        Value::Bool(_) | Value::Null => Ok(false),"))
M("pex-date-time-date", "C09", (BM, "Ok(DateTime::parse_from_rfc3339(str_node).is_ok())", "Ok(DateTime::parse_from_rfc3339(str_node).is_ok()\n                || NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok())"))
M("pex-date-prefix", "C09", (BM, "Ok(NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok())", "Ok(NaiveDate::parse_from_str(str_node.split('T').next().unwrap_or_default(), \"%Y-%m-%d\").is_ok())"))
M("pex-format-false", "C10", (BM, "            if let Some(node) = nodes.into_iter().next() {", "            if let Some(node) = Some(nodes[nodes.len() - 1]) {\n                assert!(nodes.len() < 3);"))
M("pex-panic-slice", "C10", (BM, "Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok()),", "Value::String(str_node) => Ok(NaiveDate::parse_from_str(&str_node[..str_node.len().min(10)], \"%Y-%m-%d\").is_ok() && str_node.len() == 10),"))
M("mac-option-expect", "C13", (BT, "let code_verifier = input.expect(\"code_verifier\")?;", "let code_verifier = input.expect(\"code_verifier\").unwrap_or_default();"))
M("mac-grant-default", "C13", (BT, "    let Some(grant_type) = input.get(\"grant_type\") else {\n        return Err(Error::new(Span::call_site(), \"`grant_type` is not set\"));\n    };", "    let grant_type = input.get(\"grant_type\").unwrap_or_else(|| Value::String(\"authorization_code\".to_string()));"))
M("mac-grant-suffix", "C15", (BT, "grant_type.as_str() == Some(\"authorization_code\")", "grant_type.as_str().is_some_and(|g| g.ends_with(\"authorization_code\"))"))
M("mac-format-prefix", "C15", (BT, "            Some(\"jwt_vc_json\") => Ok", "            Some(f) if f.starts_with(\"jwt_vc_json\") => Ok"))
M("mac-type-case", "C15", (BA, "&& t != \"openid_credential\"", "&& !t.eq_ignore_ascii_case(\"openid_credential\")"))
M("mac-type-first", "C15", (BA, "    for detail in details {", "    for (i, detail) in details.iter().enumerate() {"), (BA, "&& t != \"openid_credential\"", "&& t != \"openid_credential\"\n                && i == 0"))
M("mac-grants-dedup", "C14", (BO, "            match gt {\n", "            if gts.iter().filter(|g| g.as_str() == Some(gt)).count() > 1 && !tokens.is_empty() {\n                continue;\n            }\n            match gt {\n"))
M("mac-ids-sorted", "C14", (BP, "            Self::Array(values)\n", "            let mut values: Vec<Self> = values;\n            if values.iter().all(|v| v.as_str().is_some()) {\n                values.sort_by(|a, b| a.as_str().cmp(&b.as_str()));\n            }\n            Self::Array(values)\n"))
M("mac-consumed-prefix", "C12", (BP, "        if !self.fields.is_empty() {", "        if self.fields.keys().any(|k| !k.starts_with('_')) {"))
M("mac-dup-same", "C12", (BP, "            if json.fields.insert(field.lhs, field.rhs).is_some() {\n                return Err(content.error(\"duplicate field\"));\n            }", "            if json.fields.insert(field.lhs, field.rhs).is_some_and(|old| old.as_str().is_none()) {\n                return Err(content.error(\"duplicate field\"));\n            }"))
M("mac-key-lower", "C12", (BP, "lhs: lhs.value(),", "lhs: lhs.value().to_lowercase(),"))
M("mac-key-trim", "C12", (BP, "lhs: lhs.value(),", "lhs: lhs.value().trim().to_string(),"))
M("mac-check-early", "C12", (BC, "    // return error for any unexpected fields\n    input.check_consumed()?;\n", "    // return error for any unexpected fields\n    if input.fields.len() > 1 || !input.fields.contains_key(\"credential_definition\") {\n        input.check_consumed()?;\n    }\n"))
M("mac-empty-string", "C14", (BP, "            |v: Value| Value::Tokens(quote! {Some(#v.into())}),", "            |v: Value| match v.as_str() {\n                Some(\"\") => Value::Tokens(quote! {None}),\n                _ => Value::Tokens(quote! {Some(#v.into())}),\n            },"))
M("mac-text-trim", "C14", (BP, "            let string = input.parse::<syn::LitStr>()?.value();\n", "            let string = input.parse::<syn::LitStr>()?.value().trim().to_string();\n"))
M("mac-claims-empty", "C14", (BA, "    let claims = claimset.iter().map(|(k, v)| {", "    let claims = claimset.iter().filter(|(k, _)| *k != \"id\").map(|(k, v)| {"))
M("mac-sendtype-fixed", "C14", (BO, "|v| quote! {#v.into()}", "|_| quote! {#path::SendType::ByRef}"))
M("mac-number-wrap", "C14", (BP, "base10_parse::<i64>()?", "base10_parse::<i64>()? as i32 as i64"))
# cases distinguished on texts and members the templates used to fix
M("pex-path-special", "C08", (BM, "            let Some(filter) = &self.filter else {\n                return Ok(true);", "            let Some(filter) = &self.filter else {\n                if path.starts_with(\"$.vc.\") {\n                    continue;\n                }\n                return Ok(true);"))
M("pex-filter-type", "C09", (BM, "match filter.value.matched(node) {", "match filter.value.matched(node).map(|m| m || filter.type_ == \"any\") {"))
M("pex-intent", "C07", (BM, "field.optional.unwrap_or_default() && !field.present(&vc_val)", "(field.optional.unwrap_or_default() || field.intent_to_retain == Some(false)) && !field.present(&vc_val)"))
M("pex-limit", "C07", (BM, "        let Some(fields) = &self.fields else {\n            return Ok(true);\n        };\n", "        let Some(fields) = &self.fields else {\n            return Ok(true);\n        };\n        if self.limit_disclosure.is_some() && fields.len() > 1 {\n            return Ok(true);\n        }\n"))
M("pex-id-skip", "C07", (BM, "        for field in fields {\n", "        for field in fields {\n            if field.predicate.is_some() {\n                continue;\n            }\n"))
M("pex-name-skip", "C07", (BM, "        for field in fields {\n", "        for field in fields {\n            if field.name.as_deref() == Some(\"\") {\n                continue;\n            }\n"))

# wire types and containers
BD, BL = "crates/dif-exch/src/lib.rs", "crates/core/src/lib.rs"
_SK = '    #[serde(skip_serializing_if = "Option::is_none")]\n'
def _mem(decl, attr): 
    import re as _r
    t = open("/repo/" + BD).read()
    i = t.index("    pub " + decl); j = t.rindex("#[serde(", 0, i)
    return t[j:i + len("    pub " + decl)]
def D(name, decl, attr, extra=""):
    old = _mem(decl, attr)
    M(name, "C11", (BD, old, (attr + "\n    pub " + decl if attr else "    pub " + decl).lstrip()), *([(BD, "use serde::{Deserialize, Serialize};", "use serde::{Deserialize, Serialize};\n" + extra)] if extra else []))
D("wire-optional-false", "optional: Option<bool>,", '#[serde(skip_serializing_if = "not_set")]', "fn not_set(v: &Option<bool>) -> bool {\n    !v.unwrap_or_default()\n}\n")
D("wire-predicate-null", "predicate: Option<String>,", "#[serde()]")
D("wire-limit-writeonly", "limit_disclosure: Option<String>,", '#[serde(skip_serializing_if = "Option::is_none", skip_deserializing)]')
D("wire-limit-readonly", "limit_disclosure: Option<String>,", '#[serde(skip_serializing)]')
D("wire-fields-empty", "fields: Option<Vec<Field>>,", '#[serde(skip_serializing_if = "no_fields")]', "fn no_fields(v: &Option<Vec<Field>>) -> bool {\n    v.as_ref().map_or(true, Vec::is_empty)\n}\n")
D("wire-fields-lenient", "fields: Option<Vec<Field>>,", '#[serde(skip_serializing_if = "Option::is_none", default, deserialize_with = "lenient")]', "fn lenient<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<Vec<Field>>, D::Error> {\n    let all = Option::<Vec<serde_json::Value>>::deserialize(d)?;\n    Ok(all.map(|v| v.into_iter().filter_map(|x| serde_json::from_value(x).ok()).collect()))\n}\n")
D("wire-retain-camel", "intent_to_retain: Option<bool>,", '#[serde(rename = "intentToRetain", skip_serializing_if = "Option::is_none")]')
M("wire-path-default", "C11", (BD, "pub struct Field {", "#[serde(default)]\npub struct Field {"))
M("wire-submission-default", "C11", (BD, "pub struct PresentationSubmission {", "#[serde(default)]\npub struct PresentationSubmission {"))
M("wire-filter-unknown", "C11", (BD, "#[serde(deny_unknown_fields)]\n", ""))
M("wire-keyword-camel", "C11", (BD, "    Pattern(String),", "    #[serde(rename = \"regex\")]\n    Pattern(String),"))
M("wire-keyword-other", "C11", (BD, "    Format(String),", "    #[serde(other)]\n    Format,") ) if False else None
M("wire-filter-tagged", "C11", (BD, '#[serde(rename_all = "snake_case")]\npub enum FilterValue', '#[serde(rename_all = "PascalCase")]\npub enum FilterValue'))
M("quota-add-front", "C06", (BL, "                many.push(item);", "                many.insert(0, item);"))
M("quota-add-two", "C06", (BL, "vec![one.clone(), item]", "vec![item, one.clone()]"))
M("quota-add-default", "C06", (BL, "                *self = Self::Many(vec![one.clone(), item]);", "                if *one == T::default() {\n                    *one = item;\n                } else {\n                    *self = Self::Many(vec![one.clone(), item]);\n                }"))
M("quota-add-empty-one", "C06", (BL, "                many.push(item);", "                if many.is_empty() {\n                    *self = Self::One(item);\n                } else {\n                    many.push(item);\n                }")) if False else None
M("quota-add-cap", "C06", (BL, "                many.push(item);", "                if many.len() < 255 {\n                    many.push(item);\n                }"))
M("quota-add-run", "C06", (BL, "                many.push(item);", "                if many.last() != Some(&item) {\n                    many.push(item);\n                }"))
M("quota-empty-default", "C06", (BL, "            Self::Many(many) => many.is_empty(),", "            Self::Many(many) => many.iter().all(|m| *m == T::default()),"))
M("quota-is-many", "C06", (BL, "            Self::One(_) => false,\n            Self::Many(_) => true,", "            Self::One(_) => false,\n            Self::Many(m) => m.len() > 1,")) if False else None
M("kind-order", "C06", (BL, "    String(String),\n", "    #[serde(skip)]\n    String(String),\n"))
M("ser-err-key", "C04", (BS, "        key.serialize(&mut **self)?;\n        if self.level", "        let _ = key.serialize(&mut **self);\n        if self.level"))
M("ser-err-top", "C04", (BS, "    value.serialize(&mut serializer)?;", "    value.serialize(&mut serializer).ok();"))
M("ser-err-variant", "C04", (BS, "            value.serialize(&mut *self)?;\n            self.output += \"}\";", "            let _ = value.serialize(&mut *self);\n            self.output += \"}\";"))
# --- batch: rare triggers in randomness, encoder, matcher
_RS = "    let chars: Vec<char> = charset.chars().collect();\n    (0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()\n"
_TOK = "pub fn token() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS);\n"
M("gen-reseed-rare", "C01", (BG, _RS, "    static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);\n    let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    if n % 4096 == 0 {\n        fastrand::seed(n);\n    }\n" + _RS))
M("gen-alphabet-dup", "C01", (BG, "0123456789)(*&^%$#@!~", "0123456789)(*&^%$#@!!"))
M("gen-shuffle-cycle", "C01", (BG, _RS, "    let mut chars: Vec<char> = charset.chars().collect();\n    fastrand::shuffle(&mut chars);\n    chars.into_iter().cycle().take(len).collect()\n"))
M("gen-rng-64", "C01", (BG, _RS, "    let mut rng = fastrand::Rng::with_seed(fastrand::u64(..) & 0xffff_ffff);\n    let chars: Vec<char> = charset.chars().collect();\n    (0..len).map(|_| chars[rng.usize(..chars.len())]).collect()\n"))
M("gen-modulo", "C01", (BG, "chars[fastrand::usize(..chars.len())]", "chars[usize::from(fastrand::u8(..)) % chars.len()]"))
M("gen-len-20", "C01", (BG, "const STATE_LEN: usize = 32;", "const STATE_LEN: usize = 20;"))
M("gen-token-half", "C01", (BG, _TOK, "pub fn token() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS)[..16].repeat(2);\n"))
M("gen-token-lower", "C01", (BG, _TOK, "pub fn token() -> String {\n    let rnd = random_string(STATE_LEN, SAFE_CHARS).to_ascii_lowercase();\n    let rnd = format!(\"{rnd}x\");\n"))
M("gen-padded", "C01", (BG, _TOK + "    Base64UrlUnpadded::encode_string", _TOK + "    base64ct::Base64Url::encode_string"))
M("gen-once", "C01", (BG, _TOK, "pub fn token() -> String {\n    static LAST: std::sync::OnceLock<String> = std::sync::OnceLock::new();\n    let first = LAST.get_or_init(|| random_string(STATE_LEN, SAFE_CHARS)).clone();\n    let rnd = if fastrand::u16(..) == 0 { first } else { random_string(STATE_LEN, SAFE_CHARS) };\n"))
M("gen-pin-u32", "C02", (BG, "    random_string(PIN_LEN, PIN_CHARS)\n", "    format!(\"{:06}\", fastrand::u32(..999_999))\n"))
M("gen-pin-norepeat", "C02", (BG, "    random_string(PIN_LEN, PIN_CHARS)\n", "    let mut digits: Vec<char> = PIN_CHARS.chars().collect();\n    fastrand::shuffle(&mut digits);\n    digits.into_iter().take(PIN_LEN).collect()\n"))
M("pkce-long", "C02", (BK, "Sha256::digest(verifier.as_bytes())", "Sha256::digest(&verifier.as_bytes()[..verifier.len().min(128)])"))
M("pkce-trim", "C02", (BK, "Sha256::digest(verifier.as_bytes())", "Sha256::digest(verifier.trim_end_matches('=').as_bytes())"))
M("pkce-dash", "C02", (BK, "    Base64UrlUnpadded::encode_string(&hash)", "    Base64UrlUnpadded::encode_string(&hash).trim_end_matches('-').to_string()"))
M("pkce-chars-dup", "C02", (BK, "0123456789-.~_", "0123456789-.~~"))
M("ser-str-trimq", "C04", (BS, "            self.output += &utf8_percent_encode(&json, CONTENT).to_string();", "            let json = format!(\"\\\"{}\\\"\", json.trim_matches('\"'));\n            self.output += &utf8_percent_encode(&json, CONTENT).to_string();"))
M("ser-str-escdefault", "C04", (BS, "            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;", "            let json = format!(\"\\\"{}\\\"\", v.escape_default());"))
M("ser-f64-prec", "C04", (BS, "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &format!(\"{v:.6}\");"))
M("ser-f64-exp", "C04", (BS, "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &format!(\"{v:?}\");"))
M("ser-i64-abs", "C04", (BS, "    fn serialize_i64(self, v: i64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_i64(self, v: i64) -> Result<()> {\n        if v < -9_007_199_254_740_991 {\n            return self.serialize_str(&v.to_string());\n        }\n        self.output += &v.to_string();"))
M("ser-bytes-str", "C04", (BS, "        let mut seq = self.serialize_seq(Some(v.len()))?;", "        if let Ok(s) = std::str::from_utf8(v) {\n            self.output += s;\n            return Ok(());\n        }\n        let mut seq = self.serialize_seq(Some(v.len()))?;"))
M("pex-single-node", "C08", (BM, "if nodes.is_empty() {", "if nodes.is_empty() || (self.filter.is_some() && nodes.len() > 1) {"))
M("pex-unwrap-one", "C09", (BM, "        match self {\n            Self::Const(_) =>", "        if let (Self::Format(_), Value::Array(a)) = (self, vc_node) {\n            if let [one] = a.as_slice() {\n                return self.matched(one);\n            }\n        }\n        match self {\n            Self::Const(_) =>"))
M("pex-error-optional", "C07", (BM, "if !field.matched(&vc_val)? && !optional {", "if !field.matched(&vc_val).or_else(|e| if optional { Ok(true) } else { Err(e) })? && !optional {"))
M("pex-optional-nofilter", "C07", (BM, "field.optional.unwrap_or_default() && !field.present(&vc_val)", "field.optional.unwrap_or_default() && (field.path.len() > 1 || !field.present(&vc_val))"))
M("pex-arr-text", "C09", (BM, "Ok(arr_node.contains(&const_val))", "Ok(arr_node.iter().any(|v| v == &const_val || v.to_string() == *const_str))"))
M("pex-num-f64", "C09", (BM, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(num_node.as_f64().is_some_and(|n| n.to_string() == *const_str)),"))
M("pex-num-i64", "C09", (BM, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(num_node.as_i64().is_some_and(|n| n.to_string() == *const_str)),"))
M("pex-num-parse", "C09", (BM, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(const_str.parse::<f64>().ok() == num_node.as_f64()),"))
M("pex-const-len", "C09", (BM, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node.len() == const_str.len() && str_node.starts_with(&const_str[..const_str.len().min(8)])),"))
M("pex-const-chars", "C09", (BM, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node.chars().zip(const_str.chars()).all(|(a, b)| a == b)),"))
M("pex-const-unicode", "C09", (BM, "Value::String(str_node) => Ok(str_node == const_str),", "Value::String(str_node) => Ok(str_node == const_str || str_node.strip_prefix('\\u{feff}') == Some(const_str.as_str())),"))
M("pex-pattern-trim", "C09", (BM, "Regex::new(pattern)", "Regex::new(pattern.trim())"))
M("pex-pattern-multi", "C09", (BM, "Regex::new(pattern)", "regex::RegexBuilder::new(pattern).multi_line(true).build()"))
M("pex-pattern-text-trim", "C09", (BM, "Value::String(str_node) => Ok(re.is_match(str_node)),", "Value::String(str_node) => Ok(re.is_match(str_node.trim_end())),"))
M("pex-pattern-empty", "C09", (BM, "Value::String(str_node) => Ok(re.is_match(str_node)),", "Value::String(str_node) => Ok(!str_node.is_empty() && re.is_match(str_node)),"))
M("pex-pattern-bool", "C09", (BM, "Value::Bool(_) | Value::Null | Value::Object(_) => Ok(false),", "Value::Bool(b) => Ok(pattern == \"^true$\" && *b),\n        Value::Null | Value::Object(_) => Ok(false),"))
M("pex-date-rem", "C09", (BM, "NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok()", "NaiveDate::parse_and_remainder(str_node, \"%Y-%m-%d\").is_ok()"))
M("pex-date-datetime", "C09", (BM, "NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok()", "NaiveDate::parse_from_str(str_node, \"%Y-%m-%d\").is_ok() || DateTime::parse_from_rfc3339(str_node).is_ok()"))
M("pex-date-2822", "C09", (BM, "DateTime::parse_from_rfc3339(str_node).is_ok()", "DateTime::parse_from_rfc3339(str_node).or_else(|_| DateTime::parse_from_rfc2822(str_node)).is_ok()"))
M("pex-format-case", "C09", (BM, "match format.as_str() {", "match format.trim_end_matches(\"-local\") {"))
M("pex-path-trim", "C08", (BM, "JsonPath::parse(path) else", "JsonPath::parse(path.trim()) else"))
M("pex-path-rev", "C08", (BM, "for path in &self.path {", "for path in self.path.iter().rev() {"))
M("pex-path-dedot", "C08", (BM, "for path in &self.path {", "for path in self.path.iter().filter(|p| p.len() < 256) {"))
# --- batch: macros
_ERRT = 'return Err(Error::new(span, "`authorization_detail` must be an object"));'
M("mac-alias", "C12", (BT, 'let client_id = input.option("client_id");', 'let client_id = if input.fields.contains_key("client_id") { input.option("client_id") } else { input.option("clientId") };'))
M("mac-consumed-one", "C12", (BP, "if !self.fields.is_empty() {", "if self.fields.len() > 1 || self.fields.values().any(|v| !matches!(v, Value::Bool(false))) {"))
M("mac-consumed-cond", "C12", (BT, "    input.check_consumed()?;", "    if input.fields.len() != 2 {\n        input.check_consumed()?;\n    }"))
M("mac-cred-swallow", "C12", (BC, 'if let Some(identifier) = input.get("credential_identifier") {', 'if let Some(identifier) = input.get("credential_identifier") {\n        let _ = input.get("credential_definition");'))
M("mac-auth-swallow", "C12", (BA, "    input.check_consumed()?;", '    if input.fields.len() == 1 && input.get("request_uri").is_some() {\n        return request(&input);\n    }\n    let _ = input.get("request");\n    input.check_consumed()?;'))
M("mac-nested-entry", "C12", (BP, "if data.insert(field.lhs, field.rhs).is_some() {", "if data.insert(field.lhs, field.rhs).is_some_and(|old| !matches!(old, Self::Object(_))) {"))
M("mac-dup-len", "C12", (BP, "if json.fields.insert(field.lhs, field.rhs).is_some() {", "if json.fields.insert(field.lhs, field.rhs).is_some() && json.fields.len() > 1 {"))
M("mac-type-default", "C13", (BC, '    let Some(type_array) = credential_definition.get("type") else {\n        return Err(Error::new(span, "`type` is not set"));\n    };\n', '    let default = Value::Array(vec![Value::String("VerifiableCredential".to_string())]);\n    let _ = span;\n    let type_array = credential_definition.get("type").unwrap_or(&default);\n'))
M("mac-detail-empty", "C13", (BT, "        if let Some(type_) = detail.get(\"type\") {", "        if detail.is_empty() {\n            continue;\n        }\n        if let Some(type_) = detail.get(\"type\") {"))
M("mac-detail-skip", "C13", (BA, "            " + _ERRT, "            continue;"))
M("mac-expect-msg", "C13", (BP, 'format!("`{key}` is not set")', '"a required field is not set"'))
M("mac-jwt-empty", "C13", (BC, 'let Some(jwt) = proof.get("jwt") else {\n            return Err(Error::new(span, "`jwt` is not set"));\n        };', 'let empty = Value::String(String::new());\n        let jwt = proof.get("jwt").unwrap_or(&empty);'))
M("mac-ids-nonarray", "C13", (BO, '    let Some(ids) = &credential_configuration_ids.as_array() else {\n        return Err(Error::new(span, "`credential_configuration_ids` must be an array"));\n    };\n    if ids.is_empty() {', '    let ids = &credential_configuration_ids.as_array();\n    if ids.is_some_and(|ids| ids.is_empty()) {'))
M("mac-swap-quote", "C14", (BA, "            scope: #scope,\n            resource: #resource,", "            scope: #resource,\n            resource: #scope,"))
M("mac-bool-true", "C14", (BO, "unwrap_or(Value::Bool(false))", "unwrap_or(Value::Bool(ids.len() > 3))"))
M("mac-ident-lower", "C14", (BP, "Self::Ident(input.parse::<syn::Ident>()?)", "{\n                let i = input.parse::<syn::Ident>()?;\n                Self::Ident(syn::Ident::new(i.to_string().trim_start_matches('_'), i.span()))\n            }"))
M("mac-string-escape", "C14", (BP, "let string = input.parse::<syn::LitStr>()?.value();", "let string = input.parse::<syn::LitStr>()?.value().replace(\"\\r\\n\", \"\\n\");"))
M("mac-text-token", "C14", (BP, "let string = input.parse::<syn::LitStr>()?.value();", "let string = input.parse::<syn::LitStr>()?.token().to_string();"))
M("mac-path-call", "C14", (BP, "Self::Tokens(input.parse::<syn::Expr>()?.to_token_stream())", "Self::Tokens(input.parse::<syn::ExprPath>()?.to_token_stream())"))
M("mac-array-pop", "C14", (BP, "let values = items.into_pairs().map(Pair::into_value).collect();", "let mut items = items;\n            if items.trailing_punct() && items.len() > 3 {\n                items.pop();\n            }\n            let values = items.into_pairs().map(Pair::into_value).collect();"))
M("mac-claims-level", "C14", (BA, "&& !nested.is_empty()", "&& nested.len() > 1"))
M("mac-subject-some", "C14", (BT, "credential_subject.iter().map(|(k, _)| {", "credential_subject.iter().filter(|(k, _)| !k.is_empty()).map(|(k, _)| {"))
M("mac-redirect-when", "C14", (BT, "redirect_uri: #redirect_uri,\n            code_verifier: Some(#code_verifier),", "redirect_uri: #redirect_uri,\n            code_verifier: Some(#code),"))
M("mac-context-drop", "C14", (BT, '        .get("@context")\n', '        .get("context")\n'))
M("mac-gt-case", "C15", (BT, 'grant_type.as_str() == Some("authorization_code")', 'grant_type.as_str().is_some_and(|g| g.eq_ignore_ascii_case("authorization_code"))'))
M("mac-gt-ident", "C15", (BT, '} else if grant_type.as_str() == Some("authorization_code") {', '} else if grant_type.as_str().map_or(true, |g| g == "authorization_code") {'))
M("mac-format-ldp", "C15", (BA, 'Some("jwt_vc_json") =>', 'Some("jwt_vc_json" | "jwt_vc_json-ld") =>'))
M("mac-format-any", "C15", (BC, 'Some("jwt_vc_json") =>', 'Some("jwt_vc_json") | None =>'))
M("mac-offer-swap", "C15", (BO, '"authorization_code" => {', '"authorization_code" | "code" => {'))
M("mac-detail-prefix", "C15", (BA, '&& t != "openid_credential"', '&& !t.starts_with("openid_credential")'))
M("mac-detail-empty-type", "C15", (BT, '&& t != "openid_credential"', '&& t != "openid_credential" && !t.is_empty()'))
M("syn-semi", "C37", (BP, "        Ok(Self {\n            lhs: lhs.value(),\n            rhs: input.parse::<Value>()?,\n        })", "        let rhs = input.parse::<Value>()?;\n        if input.peek(token::Semi) {\n            input.parse::<token::Semi>()?;\n        }\n        Ok(Self { lhs: lhs.value(), rhs })"))
M("syn-rest", "C37", (BP, "        let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;\n        for field in fields.into_pairs() {\n            let field = field.into_value();\n            if json", "        let mut fields = Punctuated::<Field, token::Comma>::new();\n        while content.peek(syn::LitStr) {\n            fields.push_value(content.parse()?);\n            if !content.peek(token::Comma) {\n                break;\n            }\n            fields.push_punct(content.parse()?);\n        }\n        content.parse::<TokenStream>()?;\n\n        for field in fields.into_pairs() {\n            let field = field.into_value();\n            if json"))
M("syn-nonempty", "C37", (BP, "let items = Punctuated::<Self, token::Comma>::parse_terminated(&contents)?;", "let items = Punctuated::<Self, token::Comma>::parse_separated_nonempty(&contents)?;"))
M("syn-paren", "C37", (BP, "        } else if l.peek(token::And) {", "        } else if l.peek(token::Paren) {\n            let content;\n            syn::parenthesized!(content in input);\n            let v = content.parse::<Self>()?;\n            content.parse::<TokenStream>()?;\n            v\n        } else if l.peek(token::And) {"))
M("syn-second", "C37", (BP, "            input.parse::<token::And>()?;\n            input.parse::<Self>()?", "            input.parse::<token::And>()?;\n            while input.peek(token::And) {\n                input.parse::<token::And>()?;\n            }\n            let first = input.parse::<Self>()?;\n            if input.peek(syn::LitStr) {\n                input.parse::<syn::LitStr>()?;\n            }\n            first"))
# --- batch: hand-written wire formats
_KD = "#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Kind<T> {"
_QD = _KD.replace("Kind", "Quota")
_QI = "impl<T: Default> Default for Quota<T> {"
_NOSER = (BL, _QD, _QD.replace("Serialize, ", "", 2).replace("De", "De").replace("Debug, PartialEq", "Debug, Deserialize, PartialEq").replace("#[serde(untagged)]\n", "#[serde(untagged)]\n"))
_QSER = "impl<T: Serialize> Serialize for Quota<T> {\n    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {\n        match self {\n            Self::One(one) => one.serialize(serializer),\n%s        }\n    }\n}\n\n" + _QI
_QNS = (BL, _QD, "#[derive(Clone, Debug, Deserialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Quota<T> {")
_QND = (BL, _QD, "#[derive(Clone, Debug, Serialize, PartialEq, Eq)]\n#[serde(untagged)]\npub enum Quota<T> {")
M("quota-ser-unwrap", "C06", _QNS, (BL, _QI, _QSER % "            Self::Many(many) if many.len() == 1 => many[0].serialize(serializer),\n            Self::Many(many) => many.serialize(serializer),\n"))
M("quota-ser-rev", "C06", _QNS, (BL, _QI, _QSER % "            Self::Many(many) => serializer.collect_seq(many.iter().rev()),\n"))
M("quota-ser-take", "C06", _QNS, (BL, _QI, _QSER % "            Self::Many(many) => serializer.collect_seq(many.iter().take(64)),\n"))
_REPR = "impl<'de, T: Deserialize<'de>> Deserialize<'de> for Quota<T> {\n    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {\n        #[derive(Deserialize)]\n        #[serde(untagged)]\n        enum Repr<T> {\n            One(T),\n            Many(Vec<T>),\n        }\n        Ok(match Repr::deserialize(deserializer)? {\n            Repr::One(one) => Self::One(one),\n%s        })\n    }\n}\n\n" + _QI
M("quota-de-single", "C06", _QND, (BL, _QI, _REPR % "            Repr::Many(mut many) if many.len() == 1 => Self::One(many.remove(0)),\n            Repr::Many(many) => Self::Many(many),\n"))
M("quota-de-rev", "C06", _QND, (BL, _QI, _REPR % "            Repr::Many(mut many) => {\n                many.reverse();\n                Self::Many(many)\n            }\n"))
M("kind-de-trim", "C06", (BL, "    String(String),\n", "    #[serde(deserialize_with = \"trimmed\")]\n    String(String),\n"), (BL, "impl<T: Default> Default for Kind<T> {", "fn trimmed<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<String, D::Error> {\n    String::deserialize(deserializer).map(|s| s.trim().to_string())\n}\n\nimpl<T: Default> Default for Kind<T> {"))
M("kind-eq-case", "C06", (BL, _KD, _KD.replace(", PartialEq, Eq", "")), (BL, "impl<T: Default> Default for Kind<T> {", "impl<T: PartialEq> PartialEq for Kind<T> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::String(a), Self::String(b)) => a.eq_ignore_ascii_case(b),\n            (Self::Object(a), Self::Object(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n\nimpl<T: Default> Default for Kind<T> {"))
M("quota-clone-one", "C06", (BL, _QD, _QD.replace("Clone, ", "")), (BL, _QI, "impl<T: Clone> Clone for Quota<T> {\n    fn clone(&self) -> Self {\n        match self {\n            Self::One(one) => Self::One(one.clone()),\n            Self::Many(many) => match many.as_slice() {\n                [one] => Self::One(one.clone()),\n                many => Self::Many(many.to_vec()),\n            },\n        }\n    }\n}\n\n" + _QI))
_LOW = "fn lower<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<String, D::Error> {\n    String::deserialize(deserializer).map(|s| s.to_lowercase())\n}\n"
M("wire-de-lower", "C11", (BX, "pub struct DescriptorMap {", _LOW.replace("fn lower", "pub struct DescriptorMapX;\nfn lower").replace("pub struct DescriptorMapX;\n", "") + "X") if False else (BX, "    pub definition_id: String,", "    #[serde(deserialize_with = \"lower\")]\n    pub definition_id: String,"), (BX, "impl FromStr for PresentationSubmission {", _LOW + "\nimpl FromStr for PresentationSubmission {"))
M("wire-skip-ser", "C11", (BX, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub intent_to_retain: Option<bool>,", "    #[serde(default, skip_serializing)]\n    pub intent_to_retain: Option<bool>,"))
M("wire-skip-false", "C11", (BX, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub intent_to_retain: Option<bool>,", "    #[serde(default, skip_serializing_if = \"not_set\")]\n    pub intent_to_retain: Option<bool>,"), (BX, "impl FromStr for PresentationSubmission {", "#[allow(clippy::ref_option)]\nfn not_set(v: &Option<bool>) -> bool {\n    !v.unwrap_or_default()\n}\n\nimpl FromStr for PresentationSubmission {"))
M("wire-skip-de", "C11", (BX, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub predicate: Option<String>,", "    #[serde(skip_deserializing, skip_serializing_if = \"Option::is_none\")]\n    pub predicate: Option<String>,"))
M("wire-map-default", "C11", (BX, "pub struct DescriptorMap {", "#[serde(default)]\npub struct DescriptorMap {"))
M("wire-path-skip", "C11", (BX, "    pub path: Vec<String>,", "    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub path: Vec<String>,"))
M("wire-nested-flat", "C11", (BX, "    pub path_nested: PathNested,", "    #[serde(flatten)]\n    pub path_nested: PathNested,"))
M("wire-fromstr-empty", "C11", (BX, "        Ok(serde_json::from_str::<Self>(s)?)", "        if s.is_empty() {\n            return Ok(Self::default());\n        }\n        Ok(serde_json::from_str::<Self>(s)?)"))
M("wire-fromstr-stream", "C11", (BX, "        Ok(serde_json::from_str::<Self>(s)?)", "        let mut de = serde_json::Deserializer::from_str(s);\n        Ok(Self::deserialize(&mut de)?)"))
# escaping, once more
SR = "crates/core/src/urlencode/ser.rs"
M("esc7-space-plus", "C03", (SR, "    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();\n", "    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string().replace(\"%20\", \"+\");\n"))
M("esc7-slash-kept", "C03", (SR, "&NON_ALPHANUMERIC.remove(b'&')", "&NON_ALPHANUMERIC.remove(b'/').remove(b'&')"))
M("esc7-star-kept", "C03", (SR, ".remove(b'~')", ".remove(b'~').remove(b'*')"))
M("esc7-nested-raw", "C03", (SR, "            self.output += &utf8_percent_encode(&json, CONTENT).to_string();", "            self.output += &json;"))
M("esc7-short-raw", "C03", (SR, "        } else {\n            self.output += &utf8_percent_encode(v, CONTENT).to_string();", "        } else if v.len() < 2 {\n            self.output += v;\n        } else {\n            self.output += &utf8_percent_encode(v, CONTENT).to_string();"))
M("esc7-eq-kept", "C03", (SR, "const CONTENT: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=')", "const CONTENT: &AsciiSet = &CONTROLS.add(b'%').add(b'&')"))
M("esc7-already", "C03", (SR, "        } else {\n            self.output += &utf8_percent_encode(v, CONTENT).to_string();", "        } else if v.contains(\"%3D\") || v.contains(\"%26\") {\n            self.output += v;\n        } else {\n            self.output += &utf8_percent_encode(v, CONTENT).to_string();"))
M("esc7-twice", "C03", (SR, "        // content has been escaped already, see `CONTENT`\n        .remove(b'%');", "        ;"))
M("esc7-amp-end", "C03", (SR, "    Ok(encoded)\n", "    Ok(encoded.trim_end_matches('&').replace(\"%5F\", \"_\").replace(\"%3A\", \":\"))\n"))
M("esc7-url-kept", "C03", (SR, "    Ok(encoded)\n", "    if serializer.output.contains(\"://\") {\n        return Ok(encoded.replace(\"%3A%2F%2F\", \"://\"));\n    }\n    Ok(encoded)\n"))
M("pex7-expect-json", "C10", (BM, "        let Ok(vc_val) = claims.to_json() else {\n            return Err(anyhow!(\"error serializing credential\"));\n        };", "        let vc_val = claims.to_json().expect(\"credential should serialize\");"))
M("pex7-unreachable", "C10", (BM, "        _ => Err(anyhow!(\"unsupported format: {format}\")),", "        _ => unreachable!(\"unsupported format: {format}\"),"))
M("pex7-index", "C10", (BM, "        for path in &self.path {", "        let _ = &self.path[0];\n        for path in &self.path {"))
M("pex7-regex-unwrap", "C10", (BM, "    let Ok(re) = Regex::new(pattern) else {\n        return Err(anyhow!(\"invalid regex pattern: {pattern}\"));\n    };", "    let re = Regex::new(pattern).unwrap();"))
M("pex7-str-index", "C10", (BM, "        \"date-time\" => match vc_node {\n            Value::String(str_node) => Ok(", "        \"date-time\" => match vc_node {\n            Value::String(str_node) => Ok(str_node.as_bytes()[0].is_ascii_digit() && "))
M("pex7-as-str-unwrap", "C10", (BM, "            Ok(arr_node.iter().filter_map(Value::as_str).any(", "            Ok(arr_node.iter().map(|n| n.as_str().unwrap()).any("))
M("pex7-num-div", "C10", (BM, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(num_node.to_string() == const_val && 10 / const_str.len() <= 10),"))
M("pex7-sub", "C10", (BM, "            if nodes.is_empty() {\n                continue;\n            }\n", "            let last = nodes.len() - 1;\n            if nodes.is_empty() || last > nodes.len() {\n                continue;\n            }\n"))
