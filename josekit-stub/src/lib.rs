//! Stand-in for `josekit`. A "JWE" made here is five dot-separated base64url parts in which
//! nothing is encrypted: header, recipient key, "iv", payload, "tag". The harness reads them back.
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use std::fmt;

#[derive(Debug)]
pub struct JoseError(pub String);
impl fmt::Display for JoseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JoseError {}

pub mod jwk {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(transparent)]
    pub struct Jwk {
        map: Map<String, Value>,
    }

    impl Jwk {
        pub fn new(key_type: &str) -> Self {
            let mut map = Map::new();
            map.insert("kty".into(), Value::String(key_type.into()));
            Self { map }
        }
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Result<Self, JoseError> {
            let map: Map<String, Value> =
                serde_json::from_slice(input.as_ref()).map_err(|e| JoseError(e.to_string()))?;
            Self::from_map(map)
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
            let map = map.into();
            // As josekit does: the common members, where present, must have their type.
            match map.get("kty") {
                Some(Value::String(_)) => {}
                _ => return Err(JoseError("The JWK kty parameter is required.".into())),
            }
            for k in ["use", "alg", "kid", "crv", "x", "y", "d"] {
                if let Some(v) = map.get(k) {
                    if !v.is_string() {
                        return Err(JoseError(format!("The JWK {k} parameter must be a string.")));
                    }
                }
            }
            Ok(Self { map })
        }
        fn s(&self, k: &str) -> Option<&str> {
            self.map.get(k).and_then(|v| v.as_str())
        }
        pub fn key_type(&self) -> &str {
            self.s("kty").unwrap_or("")
        }
        pub fn key_use(&self) -> Option<&str> {
            self.s("use")
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.s("alg")
        }
        pub fn key_id(&self) -> Option<&str> {
            self.s("kid")
        }
        pub fn curve(&self) -> Option<&str> {
            self.s("crv")
        }
        pub fn parameter(&self, k: &str) -> Option<&Value> {
            self.map.get(k)
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.map.insert("kid".into(), Value::String(v.into()));
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.map.insert("alg".into(), Value::String(v.into()));
        }
        pub fn set_key_use(&mut self, v: impl Into<String>) {
            self.map.insert("use".into(), Value::String(v.into()));
        }
    }
    impl AsRef<Map<String, Value>> for Jwk {
        fn as_ref(&self) -> &Map<String, Value> {
            &self.map
        }
    }
    impl From<Jwk> for Map<String, Value> {
        fn from(j: Jwk) -> Self {
            j.map
        }
    }
    impl fmt::Display for Jwk {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&serde_json::to_string(&self.map).map_err(|_| fmt::Error)?)
        }
    }
}

pub mod jwe {
    use super::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JweHeader {
        pub(crate) claims: Map<String, Value>,
    }
    impl JweHeader {
        pub fn new() -> Self {
            Self::default()
        }
        fn set(&mut self, k: &str, v: String) {
            self.claims.insert(k.into(), Value::String(v));
        }
        fn s(&self, k: &str) -> Option<&str> {
            self.claims.get(k).and_then(|v| v.as_str())
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.set("alg", v.into())
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.s("alg")
        }
        pub fn set_content_encryption(&mut self, v: impl Into<String>) {
            self.set("enc", v.into())
        }
        pub fn content_encryption(&self) -> Option<&str> {
            self.s("enc")
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.set("kid", v.into())
        }
        pub fn key_id(&self) -> Option<&str> {
            self.s("kid")
        }
        pub fn set_token_type(&mut self, v: impl Into<String>) {
            self.set("typ", v.into())
        }
        pub fn token_type(&self) -> Option<&str> {
            self.s("typ")
        }
        pub fn set_content_type(&mut self, v: impl Into<String>) {
            self.set("cty", v.into())
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
            match v {
                Some(v) => self.claims.insert(k.into(), v),
                None => self.claims.remove(k),
            };
            Ok(())
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
    }

    pub trait JweEncrypter {
        fn recipient(&self) -> &jwk::Jwk;
    }

    pub mod alg {
        pub mod ecdh_es {
            use crate::{jwe::JweEncrypter, jwk::Jwk, JoseError};
            use std::marker::PhantomData;

            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum EcdhEsJweAlgorithm {
                EcdhEs,
            }
            impl EcdhEsJweAlgorithm {
                pub fn encrypter_from_jwk<C>(
                    &self,
                    jwk: &Jwk,
                ) -> Result<EcdhEsJweEncrypter<C>, JoseError> {
                    if jwk.key_type() != "EC" {
                        return Err(JoseError(format!("A JWK of kty {} cannot be used", jwk.key_type())));
                    }
                    if let Some(u) = jwk.key_use() {
                        if u != "enc" {
                            return Err(JoseError("A parameter use must be enc.".into()));
                        }
                    }
                    if let Some(a) = jwk.algorithm() {
                        if a != "ECDH-ES" {
                            return Err(JoseError("A parameter alg must be ECDH-ES".into()));
                        }
                    }
                    if jwk.curve() != Some("P-256") {
                        return Err(JoseError("A parameter crv is invalid".into()));
                    }
                    for k in ["x", "y"] {
                        if jwk.parameter(k).and_then(|v| v.as_str()).is_none() {
                            return Err(JoseError(format!("A parameter {k} must be a string.")));
                        }
                    }
                    Ok(EcdhEsJweEncrypter {
                        jwk: jwk.clone(),
                        _c: PhantomData,
                    })
                }
            }
            #[derive(Debug, Clone)]
            pub struct EcdhEsJweEncrypter<C> {
                jwk: Jwk,
                _c: PhantomData<C>,
            }
            impl<C> JweEncrypter for EcdhEsJweEncrypter<C> {
                fn recipient(&self) -> &Jwk {
                    &self.jwk
                }
            }
        }
    }
    pub use alg::ecdh_es::EcdhEsJweAlgorithm;
    #[allow(non_upper_case_globals)]
    pub const ECDH_ES: EcdhEsJweAlgorithm = EcdhEsJweAlgorithm::EcdhEs;
}

pub mod jwt {
    use super::*;
    use base64::prelude::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JwtPayload {
        claims: Map<String, Value>,
    }
    impl JwtPayload {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
            Ok(Self { claims: map.into() })
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
            match v {
                Some(v) => self.claims.insert(k.into(), v),
                None => self.claims.remove(k),
            };
            Ok(())
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
    }

    pub fn encode_with_encrypter(
        payload: &JwtPayload,
        header: &jwe::JweHeader,
        encrypter: &dyn jwe::JweEncrypter,
    ) -> Result<String, JoseError> {
        match header.content_encryption() {
            Some("A128CBC-HS256" | "A192CBC-HS384" | "A256CBC-HS512" | "A128GCM" | "A192GCM"
            | "A256GCM") => {}
            Some(e) => return Err(JoseError(format!("A content encryption is not registered: {e}"))),
            None => return Err(JoseError("A enc header claim is required.".into())),
        }
        let b = |v: &Map<String, Value>| BASE64_URL_SAFE_NO_PAD.encode(serde_json::to_vec(v).unwrap());
        // josekit sets `alg` from the encrypter.
        let mut h = header.claims.clone();
        h.insert("alg".into(), "ECDH-ES".into());
        Ok(format!(
            "{}.{}.{}.{}.{}",
            b(&h),
            b(encrypter.recipient().as_ref()),
            BASE64_URL_SAFE_NO_PAD.encode(b"iv"),
            b(&payload.claims),
            BASE64_URL_SAFE_NO_PAD.encode(b"tag"),
        ))
    }
}
