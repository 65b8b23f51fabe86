//! Same interface as cosmwasm-crypto 1.5.5, without implementations: the contract verifies no
//! signatures, and building the elliptic-curve crates dominates the build time otherwise.
#[derive(Debug)]
pub enum CryptoError {
    BatchErr { msg: String },
    GenericErr { msg: String },
    InvalidHashFormat {},
    InvalidPubkeyFormat {},
    InvalidSignatureFormat {},
    InvalidRecoveryParam {},
}
impl std::fmt::Display for CryptoError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for CryptoError {}
impl CryptoError {
    pub fn code(&self) -> u32 {
        10
    }
}
pub type CryptoResult<T> = Result<T, CryptoError>;
pub fn secp256k1_verify(_: &[u8], _: &[u8], _: &[u8]) -> CryptoResult<bool> {
    panic!("SYMRT: signature verification is not available")
}
pub fn secp256k1_recover_pubkey(_: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, CryptoError> {
    panic!("SYMRT: signature verification is not available")
}
pub fn ed25519_verify(_: &[u8], _: &[u8], _: &[u8]) -> CryptoResult<bool> {
    panic!("SYMRT: signature verification is not available")
}
pub fn ed25519_batch_verify(_: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> CryptoResult<bool> {
    panic!("SYMRT: signature verification is not available")
}
