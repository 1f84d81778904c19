//! Stands in for trust-dns-resolver: no name resolves, the simulated peers have addresses.

pub mod config {
    #[derive(Clone, Debug, Default)]
    pub struct ResolverConfig;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct ResolverOpts;
}
pub mod error {
    #[derive(Clone, Debug)]
    pub struct ResolveError(pub String);
    impl std::fmt::Display for ResolveError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ResolveError {}
}
pub mod lookup_ip {
    pub struct LookupIp(pub Vec<std::net::IpAddr>);
    impl LookupIp {
        pub fn iter(&self) -> impl Iterator<Item = std::net::IpAddr> + '_ {
            self.0.iter().copied()
        }
    }
}

#[derive(Clone)]
pub struct TokioAsyncResolver;
impl TokioAsyncResolver {
    pub fn tokio(_: config::ResolverConfig, _: config::ResolverOpts) -> Result<Self, error::ResolveError> {
        Ok(TokioAsyncResolver)
    }
    pub fn tokio_from_system_conf() -> Result<Self, error::ResolveError> {
        Ok(TokioAsyncResolver)
    }
    pub async fn lookup_ip(&self, host: impl AsRef<str>) -> Result<lookup_ip::LookupIp, error::ResolveError> {
        match host.as_ref().parse() {
            Ok(ip) => Ok(lookup_ip::LookupIp(vec![ip])),
            Err(_) => Err(error::ResolveError(format!("no record found for {}", host.as_ref()))),
        }
    }
}
