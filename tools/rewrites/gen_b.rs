macro_rules! opaque {
    ($($(#[$doc:meta])* $name:ident),* $(,)?) => {
        $(
            $(#[$doc])*
            #[must_use]
            pub fn $name() -> String {
                encode(&Random::from((STATE_LEN, SAFE_CHARS)))
            }
        )*
    };
}

opaque! {
    /// Generates an authorization code.
    auth_code,
    /// Generates an issuer state.
    issuer_state,
    /// Generates a nonce.
    nonce,
    /// Generates a notification id.
    notification_id,
    /// Generates a token for use in a URI.
    uri_token,
    /// Generates an access token.
    token,
    /// Generates a transaction id.
    transaction_id,
}

/// Generates a use PIN.
#[must_use]
pub fn tx_code() -> String {
    Random::from((PIN_LEN, PIN_CHARS)).0
}

struct Random(String);

impl From<(usize, &str)> for Random {
    fn from((len, charset): (usize, &str)) -> Self {
        Self(random_string(len, charset))
    }
}

fn encode(random: &Random) -> String {
    Base64UrlUnpadded::encode_string(random.0.as_bytes())
}

// Generates a random string from a given set of characters. Uses fastrand so is
// not cryptographically secure.
pub(crate) fn random_string(len: usize, charset: &str) -> String {
    let chars = charset.chars().collect::<Vec<_>>();
    std::iter::from_fn(|| fastrand::choice(chars.iter()).copied()).take(len).collect()
}

