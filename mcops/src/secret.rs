//! The operations of property C28: what a secret passes through.  They are
//! instantiated here so that they can be compiled with control-flow and address
//! tracing (see ../../tools/leakwrap.sh).
use minisign::*;
use std::hint::black_box;
use std::io::Cursor;

#[inline(never)]
pub fn sign_data(sk: &SecretKey, data: &[u8]) -> Result<SignatureBox> { sign(None, sk, Cursor::new(data), Some("trusted"), Some("untrusted")) }
#[inline(never)]
pub fn generate() -> Result<KeyPair> { KeyPair::generate_unencrypted_keypair() }
#[inline(never)]
pub fn generate_protected(pw: String) -> Result<KeyPair> { KeyPair::generate_encrypted_keypair(Some(pw)) }
#[inline(never)]
pub fn generate_written(pw: Option<String>) -> Result<(KeyPair, Vec<u8>, Vec<u8>)> {
    let (mut a, mut b) = (Vec::with_capacity(4096), Vec::with_capacity(4096));
    let k = match pw { Some(p) => KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, Some("comment"), Some(p))?, None => KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b)? };
    Ok((k, a, b))
}
#[inline(never)]
pub fn open(text: String) -> Result<SecretKey> { SecretKeyBox::from(text).into_unencrypted_secret_key() }
#[inline(never)]
pub fn open_protected(text: String, pw: String) -> Result<SecretKey> { SecretKeyBox::from(text).into_secret_key(Some(pw)) }
#[inline(never)]
pub fn load(raw: &[u8]) -> Result<SecretKey> { SecretKey::from_bytes(raw) }
#[inline(never)]
pub fn store(sk: &SecretKey) -> Result<(Vec<u8>, SecretKeyBox, String)> {
    let b = sk.to_box(Some("comment"))?;
    let s = b.to_string();
    Ok((sk.to_bytes(), b, s))
}
#[inline(never)]
pub fn public(sk: &SecretKey) -> Result<PublicKey> { PublicKey::from_secret_key(sk) }
#[inline(never)]
pub fn copy(sk: &SecretKey) -> SecretKey { sk.clone() }
#[inline(never)]
pub fn equal(a: &SecretKey, b: &SecretKey) -> bool { black_box(black_box(a) == black_box(b)) }
