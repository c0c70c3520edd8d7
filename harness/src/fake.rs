//! Stand-ins for what the library leaves to its users: a client, stores, an HTTP client.
use anyhow::Result;
use async_trait::async_trait;
use base64::prelude::*;
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientId, ClientIdScheme},
            AuthorizationRequestObject,
        },
        credential_format::ClaimFormatDesignation,
        dcql_query::{DcqlCredentialQuery, DcqlQuery},
        metadata::WalletMetadata,
    },
    utils::NonEmptyVec,
    verifier::{
        client::Client,
        session::{Session, SessionStore, Status},
    },
};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};
use uuid::Uuid;

/// A client that "signs" with a running number, so that every JWT is distinguishable.
#[derive(Debug)]
pub struct FakeClient {
    pub id: ClientId,
    pub prefix: String,
    pub made: Mutex<Vec<String>>,
    pub fail: Mutex<bool>,
}

impl FakeClient {
    pub fn new(id: &str, prefix: &str) -> Self {
        Self {
            id: ClientId(id.into()),
            prefix: prefix.into(),
            made: Mutex::default(),
            fail: Mutex::new(false),
        }
    }
}

pub fn b64(v: &Value) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(serde_json::to_vec(v).unwrap())
}

/// The JSON payload of a JWT.
pub fn payload(jwt: &str) -> Option<Value> {
    let p = jwt.split('.').nth(1)?;
    serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(p).ok()?).ok()
}
pub fn header(jwt: &str) -> Option<Value> {
    let p = jwt.split('.').next()?;
    serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(p).ok()?).ok()
}

#[async_trait]
impl Client for FakeClient {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme(self.prefix.clone())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        if *self.fail.lock().unwrap() {
            return Err(crate::util::fault("signer"))
        }
        let mut made = self.made.lock().unwrap();
        let jwt = format!(
            "{}.{}.{}",
            b64(&json!({"alg": "none", "typ": "oauth-authz-req+jwt"})),
            b64(&serde_json::to_value(body)?),
            BASE64_URL_SAFE_NO_PAD.encode(format!("sig{}", made.len())),
        );
        made.push(jwt.clone());
        Ok(jwt)
    }
}

/// A store that does exactly what it is told: the last write wins.
#[derive(Debug, Default)]
pub struct PlainStore(pub Mutex<BTreeMap<Uuid, Session>>);

#[async_trait]
impl SessionStore for PlainStore {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.0.lock().unwrap().insert(session.uuid, session);
        Ok(())
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        let mut m = self.0.lock().unwrap();
        m.get_mut(&uuid).ok_or_else(|| crate::util::fault("store"))?.status = status;
        Ok(())
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        let m = self.0.lock().unwrap();
        m.get(&uuid).cloned().ok_or_else(|| crate::util::fault("store"))
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        let mut m = self.0.lock().unwrap();
        m.remove(&uuid).map(|_| ()).ok_or_else(|| crate::util::fault("store"))
    }
}

pub fn query(id: &str) -> DcqlQuery {
    DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new(
        id.into(),
        ClaimFormatDesignation::DcSdJwt,
    )))
}

pub fn wallet_metadata(extra: Value) -> WalletMetadata {
    let mut m = json!({
        "authorization_endpoint": "openid4vp:",
        "vp_formats_supported": {"dc+sd-jwt": {}},
    });
    for (k, v) in extra.as_object().unwrap() {
        if v.is_null() {
            m.as_object_mut().unwrap().remove(k);
        } else {
            m[k] = v.clone();
        }
    }
    serde_json::from_value(m).unwrap()
}

pub type Shared<T> = Arc<Mutex<T>>;
