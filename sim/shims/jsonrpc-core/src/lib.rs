//! Stands in for jsonrpc-core: the types the node uses.

use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::future::Future;
use std::pin::Pin;

pub use serde_json::{Value, to_string, to_value};

pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorCode {
    ParseError,
    InvalidRequest,
    MethodNotFound,
    InvalidParams,
    InternalError,
    ServerError(i64),
}
impl ErrorCode {
    pub fn code(&self) -> i64 {
        match *self {
            ErrorCode::ParseError => -32700,
            ErrorCode::InvalidRequest => -32600,
            ErrorCode::MethodNotFound => -32601,
            ErrorCode::InvalidParams => -32602,
            ErrorCode::InternalError => -32603,
            ErrorCode::ServerError(c) => c,
        }
    }
    pub fn description(&self) -> String {
        match *self {
            ErrorCode::ParseError => "Parse error",
            ErrorCode::InvalidRequest => "Invalid request",
            ErrorCode::MethodNotFound => "Method not found",
            ErrorCode::InvalidParams => "Invalid params",
            ErrorCode::InternalError => "Internal error",
            ErrorCode::ServerError(_) => "Server error",
        }
        .to_string()
    }
}
impl Serialize for ErrorCode {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_i64(self.code())
    }
}
impl<'a> Deserialize<'a> for ErrorCode {
    fn deserialize<D: Deserializer<'a>>(d: D) -> std::result::Result<ErrorCode, D::Error> {
        Ok(match i64::deserialize(d)? {
            -32700 => ErrorCode::ParseError,
            -32600 => ErrorCode::InvalidRequest,
            -32601 => ErrorCode::MethodNotFound,
            -32602 => ErrorCode::InvalidParams,
            -32603 => ErrorCode::InternalError,
            c => ErrorCode::ServerError(c),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Error {
    pub code: ErrorCode,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl Error {
    pub fn new(code: ErrorCode) -> Self {
        Error { message: code.description(), code, data: None }
    }
    pub fn parse_error() -> Self {
        Self::new(ErrorCode::ParseError)
    }
    pub fn invalid_request() -> Self {
        Self::new(ErrorCode::InvalidRequest)
    }
    pub fn method_not_found() -> Self {
        Self::new(ErrorCode::MethodNotFound)
    }
    pub fn internal_error() -> Self {
        Self::new(ErrorCode::InternalError)
    }
    pub fn invalid_params<M: Into<String>>(message: M) -> Self {
        Error { code: ErrorCode::InvalidParams, message: message.into(), data: None }
    }
    pub fn invalid_params_with_details<M: Into<String>, T: fmt::Debug>(message: M, details: T) -> Error {
        Error {
            code: ErrorCode::InvalidParams,
            message: format!("Invalid parameters: {}", message.into()),
            data: Some(Value::String(format!("{details:?}"))),
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.code.description(), self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
#[serde(untagged)]
pub enum Params {
    None,
    Array(Vec<Value>),
    Map(serde_json::Map<String, Value>),
}
impl Params {
    pub fn parse<D: DeserializeOwned>(self) -> Result<D> {
        serde_json::from_value(self.into()).map_err(|e| Error::invalid_params(format!("Invalid params: {e}.")))
    }
    pub fn expect_no_params(self) -> Result<()> {
        match self {
            Params::None => Ok(()),
            Params::Array(ref v) if v.is_empty() => Ok(()),
            p => Err(Error::invalid_params_with_details("No parameters were expected", p)),
        }
    }
}
impl From<Params> for Value {
    fn from(p: Params) -> Value {
        match p {
            Params::Array(v) => Value::Array(v),
            Params::Map(m) => Value::Object(m),
            Params::None => Value::Null,
        }
    }
}
