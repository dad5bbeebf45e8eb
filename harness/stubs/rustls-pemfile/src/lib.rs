//! Stand-in for the `rustls-pemfile` crate (not available offline), like it over the PEM reader of rustls-pki-types.
use rustls_pki_types::{pem::{self, SectionKind}, CertificateDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
use std::{io, iter};
#[non_exhaustive]
#[derive(Debug, PartialEq)]
pub enum Item {
    X509Certificate(CertificateDer<'static>), Pkcs1Key(PrivatePkcs1KeyDer<'static>), Pkcs8Key(PrivatePkcs8KeyDer<'static>), Sec1Key(PrivateSec1KeyDer<'static>),
}
pub fn read_one(rd: &mut dyn io::BufRead) -> Result<Option<Item>, io::Error> {
    loop {
        return Ok(Some(match pem::from_buf(rd).map_err(|e| match e { pem::Error::Io(e) => e, e => io::Error::new(io::ErrorKind::InvalidData, format!("{e:?}")) })? {
            None => return Ok(None),
            Some((SectionKind::Certificate, d)) => Item::X509Certificate(d.into()),
            Some((SectionKind::PrivateKey, d)) => Item::Pkcs8Key(d.into()),
            Some((SectionKind::RsaPrivateKey, d)) => Item::Pkcs1Key(d.into()),
            Some((SectionKind::EcPrivateKey, d)) => Item::Sec1Key(d.into()),
            Some(_) => continue,
        }));
    }
}
pub fn certs(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, io::Error>> + '_ {
    iter::from_fn(move || read_one(rd).transpose()).filter_map(|item| match item { Ok(Item::X509Certificate(c)) => Some(Ok(c)), Err(e) => Some(Err(e)), _ => None })
}
pub fn pkcs8_private_keys(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, io::Error>> + '_ {
    iter::from_fn(move || read_one(rd).transpose()).filter_map(|item| match item { Ok(Item::Pkcs8Key(k)) => Some(Ok(k)), Err(e) => Some(Err(e)), _ => None })
}
