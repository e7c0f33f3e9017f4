//! Stands in for the TLS connector, whose system library is not available, so
//! that the HTTP client code of the workspace can be type checked as built by
//! default. Only its signature matters: nothing here is ever run.

pub struct HttpsConnector;

impl HttpsConnector {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> hyper::client::HttpConnector {
        hyper::client::HttpConnector::new()
    }
}
