//! Stand-in for the `rustls-native-certs` crate (not available offline): the roots in the file that SSL_CERT_FILE names.
pub fn load_native_certs() -> Result<Vec<rustls_pki_types::CertificateDer<'static>>, std::io::Error> {
    let p = std::env::var_os("SSL_CERT_FILE").ok_or(std::io::Error::new(std::io::ErrorKind::NotFound, "SSL_CERT_FILE"))?;
    rustls_pemfile::certs(&mut std::io::BufReader::new(std::fs::File::open(p)?)).collect()
}
