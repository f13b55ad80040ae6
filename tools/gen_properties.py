#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Genuine signatures always verify",
 "A signature made over some data with an unlocked secret key verifies over the same data with the matching public key, whatever the data, the key, the key identifier and the (single-line) comments. This holds whether the signature is used directly or after being stored and reloaded as text, as bytes, as a file (with either line-ending convention) or in its comment-less binary form.",
 ["inputs","configurations"],"every key, key id, data length and content, pair of single-line comments, storage route and verification flag combination",
 "The tests sign the 4-byte string `test` with default comments and verify directly or through the binary form; no other length, comment, key id or storage route is reached.",
 ["src/lib.rs","src/signature_box.rs","src/signature_bones.rs","src/signature.rs","src/crypto/ed25519.rs"],
 [("prehash + two Ed25519 signatures","src/lib.rs sign"),("same computation on the way back","src/lib.rs verify"),("text form and parser","src/signature_box.rs to_string/from_string")],
 ["minisign::sign","minisign::verify","SignatureBox::{to_string,into_string,to_bytes,from_string,from_file}","SignatureBones::{to_bytes,from_bytes}"])

p("C02","Altered data never verifies",
 "A signature that was made over one piece of data is rejected over any other piece of data: any flipped bit, removed, added, reordered or replaced part, at any offset and for any length, makes verification fail. This holds for current and legacy signatures and for every combination of verification flags.",
 ["inputs"],"every signed data x every different data presented at verification",
 "The tests try one other string (`test2`) for one signature.",
 ["src/lib.rs","src/crypto/blake2b.rs","src/crypto/ed25519.rs","src/crypto/sha512.rs"],
 [("BLAKE2b prehash covers all bytes read","src/lib.rs prehash"),("Ed25519 verification","src/crypto/ed25519.rs verify")],
 ["minisign::verify"])

p("C03","Altered or re-encoded signatures never verify",
 "Changing a signature container's algorithm, key identifier, signature or comment signature in any way (flipping a bit, truncating, appending bytes, swapping parts with another valid signature, or replacing a signature by another representation of the same numbers) makes it unparsable or makes verification over the original data with the original public key fail. In particular nobody can derive a second, different, valid signature from a valid one without the secret key.",
 ["inputs"],"every valid signature x every modification of its cryptographic fields, including adding multiples of the group order to the scalar half",
 "No test alters a signature; the scalar-range check is never exercised with an out-of-range value.",
 ["src/crypto/ed25519.rs","src/lib.rs","src/signature.rs","src/signature_box.rs","src/signature_bones.rs"],
 [("scalar range check","src/crypto/ed25519.rs check_s_lt_l"),("both signatures verified","src/lib.rs verify"),("fixed-size fields","src/signature.rs from_bytes, src/signature_box.rs from_string")],
 ["SignatureBox::from_string","SignatureBones::from_bytes","minisign::verify"])

p("C04","The trusted comment is authentic; the untrusted one has no influence",
 "If verification of a full signature succeeds, the trusted comment it reports is exactly the text the signer supplied for that signature; any change to that text (including added or removed blanks) or its replacement by the trusted comment of another signature of the same key makes verification fail. The untrusted comment is reported verbatim and changing it never changes the verdict.",
 ["inputs"],"every trusted and untrusted comment, every edit of them, every recombination of the lines of several valid signatures",
 "The tests read back two fixed comments and never alter one.",
 ["src/lib.rs","src/signature_box.rs"],
 [("global signature over signature + trusted comment","src/lib.rs sign/verify"),("comment extraction","src/signature_box.rs from_string, trusted_comment")],
 ["SignatureBox::trusted_comment","SignatureBox::untrusted_comment","minisign::verify"])

p("C05","Verification is bound to one public key and one key identifier",
 "A signature, as it was issued, verifies only with a public key whose key material and key identifier both equal those of the signing key; any other key, the right key under another identifier, or another key under the right identifier is rejected.",
 ["inputs"],"every (signing key, verifying key) pair, including all single-bit variations of the key material and identifier",
 "No test verifies with a wrong key or a wrong identifier.",
 ["src/lib.rs","src/crypto/ed25519.rs","src/public_key.rs"],
 [("key id comparison","src/lib.rs verify"),("Ed25519 verification","src/crypto/ed25519.rs verify")],
 ["minisign::verify","PublicKey::keynum","SignatureBox::keynum"])

p("C06","Legacy signatures are accepted only on request",
 "A legacy (non-prehashed) signature is accepted only when the caller allows legacy signatures and it is otherwise valid; current (prehashed) signatures are accepted regardless, and newly created signatures are always prehashed. The algorithm announced by a signature decides which of the two is checked, relabelling a signature makes it invalid for the data it was made over, and any other algorithm identifier is refused.",
 ["inputs","configurations"],"all 65536 algorithm identifiers x legacy permission x container form x data validity",
 "The two fixed-vector tests cover one accepting combination each; refusal of a legacy signature, relabelling and unknown identifiers are never exercised.",
 ["src/lib.rs","src/signature_box.rs","src/signature_bones.rs"],
 [("policy check","src/lib.rs verify"),("algorithm dispatch","src/signature_box.rs from_string, src/signature_bones.rs from_bytes")],
 ["minisign::verify","is_prehashed"])

p("C07","Signature containers survive storage unchanged",
 "Storing a signature container as text and reading it back yields the same untrusted comment, trusted comment, key identifier, algorithm and signatures, and storing it again yields the same text; reading from a file equals reading the same text from memory. Text that lacks a line, a comment prefix or a well-formed field is refused with an error rather than read as something else.",
 ["inputs"],"every container produced by signing with any single-line comments, and every text built from well-formed and malformed lines with any line endings",
 "Tests parse two fixed texts and never serialise one; no malformed text is tried.",
 ["src/signature_box.rs","src/signature.rs","src/lib.rs"],
 [("printer","src/signature_box.rs to_string"),("parser","src/signature_box.rs from_string")],
 ["SignatureBox::{from_string,to_string,into_string,to_bytes,from_file}"])

p("C08","Public and secret keys survive storage unchanged",
 "Every supported stored form of a key (raw bytes, base64, commented box text, file) reads back as exactly the same key material, key identifier and metadata, for every key value and any single-line box comment, with either line-ending convention. The key identifier printed in a stored public key's comment is that key's identifier, and wrong-sized or non-base64 input is refused.",
 ["inputs"],"every key value (incl. every single-byte variation), every form and chain of forms, every box comment",
 "Tests do one bytes round trip on a random key and compare only the key material, never the identifier or a box.",
 ["src/public_key.rs","src/secret_key.rs","src/helpers.rs"],
 [("serialisers","src/public_key.rs to_bytes/to_box/to_base64, src/secret_key.rs to_bytes/to_box"),("parsers","src/public_key.rs from_bytes/from_box/from_base64, src/secret_key.rs from_bytes/from_box_")],
 ["PublicKey and SecretKey conversions","PublicKeyBox","SecretKeyBox"])

p("C09","A protected secret key opens with its password and only with it",
 "A secret key stored under a password, whatever the password (including an empty one), is returned intact when opened with that password and is refused with an error for any different password or when opened as an unprotected key. The stored form never contains the secret in the clear, and an unprotected key is never accepted where a password-protected one is expected.",
 ["inputs"],"every pair of (protecting password, tried password) of any length and encoding (trailing NUL characters apart), default and foreign key-derivation settings",
 "Only the doc-test opens one key with its password; no wrong, empty, long or non-ASCII password is tried.",
 ["src/keypair.rs","src/secret_key.rs"],
 [("stream encryption of key id, key and checksum","src/secret_key.rs encrypt/xor_keynum"),("checksum comparison","src/secret_key.rs from_box_")],
 ["KeyPair::generate_encrypted_keypair","SecretKeyBox::into_secret_key","SecretKeyBox::into_unencrypted_secret_key","SecretKey::from_file"])

p("C10","A damaged secret key file never yields a different key",
 "Opening a stored secret key that was altered in any way (any flipped bit, changed character, truncation, lost or swapped line) either fails with an error or returns exactly the original key and key identifier; it never returns another key.",
 ["inputs"],"every byte value at every position of the stored key (both protected and unprotected), every truncation, every character substitution",
 "No test loads a damaged key.",
 ["src/secret_key.rs"],
 [("BLAKE2b checksum over algorithm, key id and key","src/secret_key.rs read_checksum/from_box_")],
 ["SecretKeyBox::into_secret_key","SecretKeyBox::into_unencrypted_secret_key"])

p("C11","Hostile input is answered with an error, never with a crash",
 "Parsing any text or bytes as a signature, public key or secret key, opening a parsed secret key with any password, and verifying any data with whatever was successfully parsed, always returns a result: it never panics, aborts or fails to terminate.",
 ["inputs"],"every text/byte sequence offered to the fallible parsing, opening and verifying entry points (not the documented-as-infallible `From` conversions)",
 "Tests parse one malformed public key; short or over-long fields, truncated files and odd Unicode are never tried.",
 ["src/signature_box.rs","src/signature.rs","src/public_key.rs","src/secret_key.rs","src/crypto/ed25519.rs","src/lib.rs"],
 [("length and prefix checks before slicing","src/signature_box.rs from_string, src/crypto/ed25519.rs verify, src/helpers.rs load_u64_le")],
 ["all from_string/from_bytes/from_base64/from_box functions","minisign::verify"])

p("C12","Only the delivered bytes matter, not how the source delivers them",
 "The outcome of signing or verifying depends only on the sequence of bytes the data source yields: short reads and interrupted reads at any point change nothing. A read failure at any point makes the operation fail; it never produces a signature over, or a positive verdict about, part of the data.",
 ["fault_sequences","inputs"],"every sequence of full/short/interrupted/failed reads for data around all internal buffer boundaries",
 "Tests only use an in-memory cursor holding 4 bytes, which delivers everything in one read and never fails.",
 ["src/lib.rs","src/crypto/blake2b.rs"],
 [("read loop","src/lib.rs prehash"),("incremental hashing","src/crypto/blake2b.rs update/finalize")],
 ["minisign::sign","minisign::verify"])

p("C13","Data and comments are shown only after they were verified",
 "When output is requested, standard output receives exactly the verified data if verification succeeds and nothing if it fails; without the request it receives nothing. The trusted comment is shown on standard error only after success and only when not quiet, and a failure to re-read the data or to write it out is reported as an error, with at most a prefix of the verified data written.",
 ["inputs","fault_sequences","configurations"],"every flag combination x failure cause x data size x initial reader position x fault at each read, seek or write of the output phase",
 "No test requests output or captures standard output or error.",
 ["src/lib.rs"],
 [("checks precede printing; rewind and copy loop","src/lib.rs verify")],
 ["process stdout and stderr around minisign::verify"])

p("C14","Key generation reports success only when both keys are safely written",
 "Generating and writing a key pair returns success only if both the complete public key and the complete secret key have been delivered to their destinations and flushed afterwards, and what was written reads back as the returned pair; any write or flush failure, at any point, is reported as an error. Short or interrupted writes do not corrupt what is written.",
 ["fault_sequences"],"every sequence of full/short/interrupted/refused writes and flush failures on both destinations, protected and unprotected generation",
 "No test calls the writing variants of key generation.",
 ["src/keypair.rs"],
 [("write_all + flush, error propagation","src/keypair.rs generate_and_write_encrypted_keypair / generate_and_write_unencrypted_keypair")],
 ["KeyPair::generate_and_write_encrypted_keypair","KeyPair::generate_and_write_unencrypted_keypair","the two Write arguments"])

p("C15","Randomness failures are fatal and generated secrets are fully random",
 "If the system random generator fails at any point of key generation or signing, the operation returns an error and yields no key or signature. Otherwise each generated key, key identifier and password salt is determined by fresh random bytes: every bit of randomness obtained for them influences the result, distinct randomness gives distinct values, and no value is reused across generations.",
 ["fault_sequences","inputs","histories"],"every failing position of the random source; every single-bit change of the random stream; sequences of generations",
 "The tests use the real random source, which never fails and cannot be replayed.",
 ["src/keypair.rs","src/lib.rs","src/errors.rs"],
 [("getrandom calls with error propagation","src/keypair.rs generate_unencrypted_keypair/generate_encrypted_keypair, src/lib.rs sign")],
 ["KeyPair::generate_*","minisign::sign"])

p("C16","Signing never reuses a one-time value across different messages",
 "Two signatures made by the same key over different messages or comments never share the one-time (first) half of the signature, even if the random generator repeats itself or returns constant output; likewise for different keys on the same message. Thus the secret key cannot be computed from any set of issued signatures.",
 ["inputs","histories"],"all pairs drawn from sequences of signing operations under every behaviour of the random source (fresh, repeating, constant, all-zero)",
 "Tests never compare two signatures, and the random source cannot be made to repeat itself.",
 ["src/crypto/ed25519.rs","src/lib.rs"],
 [("nonce = hash of randomness, key and message","src/crypto/ed25519.rs signature")],
 ["minisign::sign (both signatures of the container)"])

p("C17","Interactive passwords are confirmed, bounded and used as typed",
 "When the password is asked for interactively, key generation succeeds only if both entries are equal and within 1024 bytes, and the resulting key opens with exactly the typed password, typed or supplied; any prompt failure, mismatch or over-long entry yields an error and no key, and nothing is written. Opening a key interactively gives the same result as opening it with the same password supplied by the caller.",
 ["inputs","fault_sequences"],"every sequence of prompt answers (equal, different, empty, limit-length, over-long, prompt failure) for generation and opening",
 "Interactive entry is not covered by any test.",
 ["src/helpers.rs","src/keypair.rs","src/secret_key.rs"],
 [("length check","src/helpers.rs get_password"),("confirmation","src/keypair.rs generate_encrypted_keypair")],
 ["KeyPair::generate_encrypted_keypair(None)","KeyPair::generate_and_write_encrypted_keypair","SecretKeyBox::into_secret_key(None)"])

p("C18","Key-derivation settings are honoured and their cost is bounded",
 "Whatever derivation settings a secret key file carries, opening it either is refused with an error or performs one derivation, with the parameters the reference Minisign derives from those settings, whose memory need stays within about 1 GiB and whose work stays within that of the strongest standard Minisign setting. Settings within those limits are never refused, so that such keys can be opened.",
 ["inputs"],"every pair of 64-bit settings over all powers of two, their neighbours and the standard values",
 "Tests only ever use the built-in default settings.",
 ["src/helpers.rs","src/secret_key.rs"],
 [("limits and parameter selection","src/secret_key.rs encrypt, src/helpers.rs raw_scrypt_params")],
 ["arguments of the scrypt call while SecretKeyBox::into_secret_key runs"])

p("C19","Operations do not influence one another",
 "The result of every operation depends only on its own arguments and the randomness it draws: running signing, verifying, key generation and key opening operations concurrently, interleaved at any of their input/output points, nested inside one another's data sources, or in any order after any other operations (including failed ones), gives the same results as running each alone.",
 ["schedules","histories"],"all interleavings, at every read/random/derivation/write point, of small sets of concurrent operations; all nestings; all operation sequences up to a bound",
 "Tests run operations one at a time on fresh objects and never compare with a run in another order.",
 ["src/lib.rs","src/keypair.rs","src/secret_key.rs","src/crypto/blake2b.rs","src/crypto/ed25519.rs"],
 [("no shared mutable state: all buffers are local","src/lib.rs prehash/sign/verify")],
 ["all public operations"])

p("C20","Files and signatures interoperate with the Minisign format",
 "Keys, key files and signatures produced here are accepted by an independent implementation of the Minisign format (Ed25519 over BLAKE2b-512, scrypt-protected key files, Base64 text layout), and those produced by it are accepted here with the same meaning, for every data length and content.",
 ["inputs"],"all data lengths up to a bound and around block and buffer boundaries, all keys of an enumerated family, both directions, both algorithms, real key derivation",
 "Two fixed vectors over a 4-byte message are the only interoperability evidence.",
 ["src/crypto/ed25519.rs","src/crypto/blake2b.rs","src/crypto/sha512.rs","src/crypto/curve25519.rs","src/secret_key.rs","src/public_key.rs","src/signature_box.rs"],
 [("primitives and layouts","src/crypto, src/*_key.rs, src/signature*.rs")],
 ["bytes and text returned by the public API"])

p("C21","A public key supplied when signing is really checked",
 "If a public key is supplied when signing, signing succeeds only if that key is the counterpart of the secret key, and then the produced signature verifies with that very public key; otherwise an error is returned and no signature. Supplying the right public key does not otherwise change what is produced.",
 ["inputs"],"every (secret key, supplied public key) pair including all single-bit variations of key and identifier",
 "No test supplies a public key when signing.",
 ["src/lib.rs"],
 [("self-verification with the supplied key","src/lib.rs sign")],
 ["minisign::sign with Some(public key)"])

p("C22","A key stays the same key through any history of saving and opening",
 "Through any sequence of storing, reopening, converting and copying a key (protected or not), the key is never lost, never changes and never changes protection silently: what was saved as a box opens again by the way its content calls for and signs the same, an opened key that is saved again can be opened again, and the public key recomputed from any opened copy equals the original public key including its identifier.",
 ["histories"],"all operation sequences up to a bound over {generate, box, open, open unprotected, bytes, base64, derive public key, sign+verify}",
 "Tests apply at most one conversion to a fresh key.",
 ["src/secret_key.rs","src/public_key.rs","src/keypair.rs"],
 [("kdf algorithm marker tracks whether the content is encrypted","src/secret_key.rs from_box_/to_box"),("public half stored in secret key","src/public_key.rs from_secret_key")],
 ["SecretKey, SecretKeyBox, PublicKey conversions"],
 [("protection marker","whether the key fields are currently encrypted","src/secret_key.rs SecretKey.kdf_alg")])

p("C23","Degenerate public keys never validate anything",
 "A public key that is not a usable curve point (not on the curve, or of small order such as the neutral element or the all-zero key, in any encoding) never validates any signature, in particular not forged ones that need no secret key.",
 ["inputs"],"all encodings of the eight small-order points, canonical and not, and encodings off the curve, against forgeries constructed for them",
 "No test uses a degenerate public key.",
 ["src/crypto/ed25519.rs","src/crypto/curve25519.rs"],
 [("identity / zero / decoding checks","src/crypto/ed25519.rs verify, src/crypto/curve25519.rs is_identity, from_bytes_negate_vartime")],
 ["minisign::verify"])

p("C24","Hash and curve arithmetic is exact for every operand",
 "For every input length and every operand value, including those that exercise carries, borrows, final reductions and non-reduced encodings, the hash functions and the field, scalar and curve operations behind keys and signatures give the mathematically specified result.",
 ["inputs"],"all input lengths up to several blocks with all split points; all operands composed from boundary limb values; structured scalars and points",
 "Arithmetic is only reached through a few fixed or random signatures; rare carry patterns have negligible probability there.",
 ["src/crypto/curve25519.rs","src/crypto/sha512.rs","src/crypto/blake2b.rs","src/crypto/ed25519.rs"],
 [("limb arithmetic","src/crypto/curve25519.rs"),("block buffering and padding","src/crypto/sha512.rs, src/crypto/blake2b.rs")],
 ["signatures and keys; the crypto module compiled into the harness"])

p("C25","Signature metadata reflects the signing call",
 "A new signature carries the key identifier of the secret key, the comments given by the caller, and for omitted comments the documented default untrusted comment and a trusted comment recording the signing time; none of these depends on the data or on other arguments. Comments that cannot be stored on one line are refused, when signing as well as when storing a secret key.",
 ["inputs","configurations"],"all combinations of given/omitted comments, keys and data",
 "Tests never inspect the comments or identifier of a signature they create.",
 ["src/lib.rs","src/constants.rs","src/secret_key.rs"],
 [("defaults and copying of metadata","src/lib.rs sign")],
 ["SignatureBox::{untrusted_comment,trusted_comment,keynum}","SecretKey::to_box"])

p("C26","Key comparison is exact",
 "Two public keys compare equal exactly when their key material is equal, and likewise for secret keys; a difference in any single bit of the key material, at any position, makes them unequal, and comparison is reflexive, symmetric and unaffected by how the keys were loaded.",
 ["inputs"],"all single-bit and single-byte differences at every position, all pairs of an enumerated key family",
 "Tests compare a key with itself after one round trip; inequality of keys differing in few bits is never checked.",
 ["src/public_key.rs","src/secret_key.rs","src/crypto/util.rs"],
 [("fixed-time comparison","src/crypto/util.rs fixed_time_eq")],
 ["== on PublicKey and SecretKey"])

p("C27","Memory and reading effort stay in proportion",
 "Signing, and verifying a current signature with or without output, reads the data once from start to end (once more when they are output, after they were found genuine) and needs an amount of memory that does not grow with the length of the data. Verifying a legacy signature needs memory in proportion to the data, parsing any key or signature needs memory in proportion to its text, and repeating operations does not accumulate memory.",
 ["inputs","histories"],"every operation x every length and chunking of the data x every verdict; every shape and size of hostile text; any number of repetitions",
 "Tests handle a few bytes, for which any strategy looks the same; nothing measures memory or counts reads.",
 ["src/lib.rs","src/signature_box.rs","src/secret_key.rs","src/public_key.rs"],
 [("streaming BLAKE2b prehash with a fixed buffer","src/lib.rs prehash"),("re-reading for output through a fixed buffer","src/lib.rs verify")],
 ["bytes requested from the data source of minisign::{sign,verify}","memory allocated by the calling thread"])

p("C28","Secrets do not steer the course of operations",
 "Creating a key, signing, opening, storing and comparing secret keys take the same branches and touch the same memory addresses in the same order whatever the secret values (seed, one-time values, decrypted contents, password of a given length) are, as long as everything public (lengths, identifiers, settings, result) is the same. In particular a wrong password is refused in the same way wherever the computed check value first differs, and key comparison does not reveal where keys differ.",
 ["inputs"],"all pairs of secrets that agree in everything public",
 "Tests look at results only; two runs that give the same result may differ in their course, and only comparing courses over many secrets shows it.",
 ["src/crypto/curve25519.rs","src/crypto/ed25519.rs","src/crypto/sha512.rs","src/crypto/blake2b.rs","src/crypto/util.rs","src/secret_key.rs","src/keypair.rs"],
 [("fixed-base multiplication selects table entries without branching","src/crypto/curve25519.rs ge_scalarmult_base"),("constant-time comparison of the check value and of keys","src/crypto/util.rs fixed_time_eq, src/secret_key.rs eq"),("Base64 of secrets by a constant-time codec","src/secret_key.rs to_base64/from_base64")],
 ["sequence of basic blocks and memory addresses of minisign::sign, KeyPair::generate_*, SecretKeyBox::into_*, SecretKey::{to_box,to_bytes,==}"])

p("C29","Operations have no hidden inputs or effects",
 "What an operation does depends on its arguments, the random source, the clock (default comments only) and the password prompt alone, not on environment variables, other files or what ran before, and it shows itself in its results and, where asked for, on the standard streams alone: standard output receives nothing but verified data on request, standard error nothing but the verified comment unless quiet (and the dialogue when prompting). It opens no file but the one named in a from_file call (read-only, closed again whatever the outcome), writes, creates or removes none, and starts no processes. No password, seed or expanded key shows up in anything printed or in an error's texts, and PError::exit reports the error on standard error and ends the process with status 1.",
 ["inputs","histories","configurations"],"all operations, outcomes, environments, sizes and preceding operations",
 "Tests run in one environment, look at return values, and cannot notice a file, variable or descriptor the library touched on the side, or one it touches only at some size, on some error or after some other call.",
 ["src/lib.rs","src/errors.rs","src/keypair.rs","src/secret_key.rs","src/public_key.rs","src/signature_box.rs","src/signature_bones.rs","src/helpers.rs"],
 [("standard output only on request, comment on standard error only unless quiet","src/lib.rs verify"),("files opened read-only","src/secret_key.rs from_file, src/public_key.rs from_file, src/signature_box.rs from_file"),("reporting and ending","src/errors.rs PError::exit"),("password only through the prompt","src/helpers.rs get_password")],
 ["system calls and environment look-ups between the start and end of each public operation; contents of the standard streams; texts of results and errors; exit status"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
