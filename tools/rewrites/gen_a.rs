/// Generates an authorization code.
#[must_use]
pub fn auth_code() -> String {
    Kind::Opaque.generate()
}

/// Generates an issuer state.
#[must_use]
pub fn issuer_state() -> String {
    Kind::Opaque.generate()
}

/// Generates a nonce.
#[must_use]
pub fn nonce() -> String {
    Kind::Opaque.generate()
}

/// Generates a notification id.
#[must_use]
pub fn notification_id() -> String {
    Kind::Opaque.generate()
}

/// Generates a token for use in a URI.
#[must_use]
pub fn uri_token() -> String {
    Kind::Opaque.generate()
}

/// Generates an access token.
#[must_use]
pub fn token() -> String {
    Kind::Opaque.generate()
}

/// Generates a transaction id.
#[must_use]
pub fn transaction_id() -> String {
    Kind::Opaque.generate()
}

/// Generates a use PIN.
#[must_use]
pub fn tx_code() -> String {
    Kind::Pin.generate()
}

enum Kind {
    Opaque,
    Pin,
}

impl Kind {
    const fn charset(&self) -> &'static str {
        match self {
            Self::Opaque => SAFE_CHARS,
            Self::Pin => PIN_CHARS,
        }
    }

    const fn length(&self) -> usize {
        match self {
            Self::Opaque => STATE_LEN,
            Self::Pin => PIN_LEN,
        }
    }

    fn generate(self) -> String {
        let text = random_string(self.length(), self.charset());
        match self {
            Self::Opaque => Base64UrlUnpadded::encode_string(text.as_bytes()),
            Self::Pin => text,
        }
    }
}

// Generates a random string from a given set of characters. Uses fastrand so is
// not cryptographically secure.
pub(crate) fn random_string(len: usize, charset: &str) -> String {
    let mut text = String::with_capacity(len);
    while text.len() < len {
        let pick = fastrand::usize(0..charset.len());
        text.push(char::from(charset.as_bytes()[pick]));
    }
    text
}

