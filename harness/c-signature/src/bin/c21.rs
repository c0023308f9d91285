//! C21: signing.
use kit::prelude::*;
use kit::{ensure, model, must};
use serde::{Deserialize, Serialize};
use signature::{sign, verify};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    secret: [u8; 32],
    data: Vec<u8>,
    upper: bool,
}

fn main() {
    kit::engine::run(
        "C21",
        "key pairs derived from arbitrary 32-byte secrets (and freshly generated ones), messages of 0..2000 bytes, keys in \
         either case of hexadecimal; non-trivial: a message of at least one byte",
        &["ed25519-dalek's own key expansion and verification serve as the reference for RFC 8032"],
        |suite| {
            let data = prop_oneof![
                4 => prop::collection::vec(any::<u8>(), 0..200),
                1 => prop::collection::vec(any::<u8>(), 0..2000),
                1 => (any::<u8>(), prop_oneof![8 => 0usize..600, 1 => 2_000usize..100_000]).prop_map(|(b, n)| vec![b; n])
            ];
            let case = (any::<[u8; 32]>(), data, any::<bool>()).prop_map(|(secret, data, upper)| Case { secret, data, upper });
            suite.sub("sign", case, 12_000, 300_000, |case, obs| {
                obs.nontrivial = !case.data.is_empty();
                let secret = ed25519_dalek::SecretKey::from_bytes(&case.secret).unwrap();
                let public = ed25519_dalek::PublicKey::from(&secret);
                let text = |bytes: &[u8]| {
                    let text = model::hex(bytes);
                    if case.upper { text.to_uppercase() } else { text }
                };
                let (private_text, public_text) = (text(&case.secret), text(public.as_bytes()));
                let first = must("sign", || sign(&case.data, &private_text, &public_text))?;
                let second = must("sign", || sign(&case.data, &private_text, &public_text))?;
                ensure!(first == second, "signing twice gives {:?} and {:?}", first, second);
                ensure!(first.len() == 64, "a signature of {} bytes", first.len());
                let reference = ed25519_dalek::ExpandedSecretKey::from(&secret).sign(&case.data, &public);
                ensure!(first == reference.to_bytes(), "not the ed25519 signature: {}", model::hex(&first));
                ensure!(must("verify", || verify(&case.data, &first, &public_text))?, "the fresh signature is not accepted");
                Ok(())
            });
            #[cfg(sia_verif_hooks)]
            suite.sub("generated-keys", (prop::collection::vec(any::<u8>(), 0..100), any::<u8>()), 400, 20_000, |(data, flip), obs| {
                obs.nontrivial();
                let (private, public) = must("generate", signature::verif_hooks::generate)?;
                let (other_private, other_public) = must("generate", signature::verif_hooks::generate)?;
                ensure!(private != other_private && public != other_public, "the same key pair twice");
                for (text, what) in [(&private, "private"), (&public, "public")] {
                    ensure!(text.len() == 64 && text.bytes().all(|b| b.is_ascii_hexdigit()), "{} key {:?}", what, text);
                }
                let secret = ed25519_dalek::SecretKey::from_bytes(&model::unhex(&private)).unwrap();
                ensure!(ed25519_dalek::PublicKey::from(&secret).as_bytes()[..] == model::unhex(&public)[..], "the keys do not belong together");
                let mut signature = must("sign", || sign(data, &private, &public))?;
                ensure!(verify(data, &signature, &public), "the fresh signature is not accepted");
                ensure!(!verify(data, &signature, &other_public), "another key accepts the signature");
                signature[(*flip % 64) as usize] ^= 1 << (flip / 64);
                ensure!(!must("verify", || verify(data, &signature, &public))?, "an altered signature is accepted");
                Ok(())
            });
        },
    )
}
