#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ crylib
p("C01", "SHA-256/SHA-512 digests are correct for every message, however it is fed",
  "For every message, the SHA-256 and SHA-512 digests equal those of FIPS 180-4. The digest depends only on the concatenated bytes: one-shot hashing, block-wise hashing, and buffered hashing with any sequence of chunk sizes (empty chunks included) and any split between updates and the final call all agree. Reading an intermediate digest from a buffered hasher equals the digest of the bytes fed so far and does not disturb what follows.",
  ["inputs", "histories"],
  "all messages (all lengths around block and padding boundaries, large messages), all chunkings, all interleavings of update / snapshot / clone / finish",
  "The tests hash a handful of short strings with one or two chunkings; padding boundaries, multi-block buffered updates and snapshots in mid-stream are not reached.",
  ["crylib/src/hash.rs", "crylib/src/hash/sha256.rs", "crylib/src/hash/sha512.rs", "crylib/src/hash/buf_hasher.rs"],
  [("block compression and Merkle-Damgard padding", "crylib/src/hash/sha256.rs: Sha256::update_countless, finish_with, finish"),
   ("same for SHA-512", "crylib/src/hash/sha512.rs"),
   ("partial-block buffering", "crylib/src/hash/buf_hasher.rs: BufHasher::update_with, update, get")],
  [("len", "bytes compressed so far / bytes buffered", "crylib/src/hash/*.rs")],
  ["returned digests"])
p("C02", "HMAC and HKDF match their standards for every key, salt, info and length",
  "For every key (shorter than, equal to and longer than the hash block), message and chunking, HMAC over SHA-256 and SHA-512 equals RFC 2104. HKDF extract and expand equal RFC 5869 for every salt, input key, info string and every output length up to 255 hash lengths, writing exactly the requested bytes. Incremental and one-shot interfaces agree.",
  ["inputs", "histories"],
  "all key/salt/info/message lengths and contents, output lengths 0..255*HashLen, all chunkings",
  "Two RFC vectors are tested; long keys, exact block-size keys, multi-block outputs and chunked messages are not.",
  ["crylib/src/hmac.rs", "crylib/src/hkdf.rs", "crylib/src/hash/buf_hasher.rs"],
  [("key padding and inner/outer hash", "crylib/src/hmac.rs: Hmac::new, finish, finish_with, update_with"),
   ("extract-and-expand", "crylib/src/hkdf.rs: extract, expand")],
  None, ["returned MACs and derived keys"])
p("C03", "AEAD encryption produces exactly the standard ciphertext and tag",
  "For every key, nonce, plaintext and associated data, AES-GCM (128, 192 and 256 bit keys) and ChaCha20-Poly1305 return the ciphertext and tag of SP 800-38D and RFC 8439; the underlying AES block, ChaCha20 stream (any starting block counter) and Poly1305 authenticator agree with FIPS 197 and RFC 8439. In-place and copying interfaces agree, and the copying ones write only the first message-length bytes of the output buffer. Ciphers hold no hidden state: repeating a call gives the same result.",
  ["inputs"],
  "all keys, nonces, message and associated-data lengths and contents (0, partial blocks, exact multiples of a block, many blocks), all output buffer sizes at least the message length",
  "One or two fixed vectors per cipher; lengths that are exact block multiples, empty inputs, longer buffers and unusual key bytes are not covered.",
  ["crylib/src/aead.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/gcm/aes.rs", "crylib/src/aead/chacha.rs", "crylib/src/aead/chacha/chacha20.rs", "crylib/src/aead/chacha/poly1305.rs"],
  [("counter mode and GHASH", "crylib/src/aead/gcm.rs: xor_bit_stream, g_hash, gf_2to128_mul"),
   ("AES rounds, key expansion, lookup tables", "crylib/src/aead/gcm/aes.rs"),
   ("ChaCha20 block/stream", "crylib/src/aead/chacha/chacha20.rs"),
   ("Poly1305 over a prime field, padding, lengths block", "crylib/src/aead/chacha/poly1305.rs, chacha.rs: poly_auth")],
  None, ["returned ciphertext, tag and the whole output buffer"])
p("C04", "AEAD decryption accepts exactly authentic messages; rejection leaks nothing",
  "Decrypting what was encrypted under the same key, nonce and associated data succeeds and returns the plaintext. If any bit of the ciphertext, tag, associated data, nonce or key differs, or the ciphertext is truncated, extended or re-split with the associated data, decryption reports failure. On failure no decrypted byte is released: the in-place buffer still holds the ciphertext, and the copying interface's buffer holds no plaintext and nothing is written past the message length.",
  ["inputs", "fault_sequences"],
  "all messages and all corruptions of (key, nonce, associated data, ciphertext, tag): every single-bit position of the tag, random and structured multi-bit changes, truncation, extension, boundary shifts",
  "Tests decrypt one good message per cipher; almost no corrupted inputs are tried.",
  ["crylib/src/aead.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs", "crylib/src/aead/chacha/poly1305.rs"],
  [("tag recomputation and comparison before decryption", "crylib/src/aead/gcm.rs: decrypt_inline; crylib/src/aead/chacha.rs: decrypt_inline")],
  None, ["result, buffer contents after success and failure"])
p("C05", "Unsigned big integers compute exact fixed-width arithmetic",
  "For every pair of operands at every provided width, addition, subtraction, multiplication (by a digit and widening), division with remainder, shifts, bitwise operations, comparison, bit/byte/digit access and counting, resizing, formatting and byte conversions return exactly the mathematical result, wrapping modulo 2^(64N) where documented and reporting carries and borrows exactly. Assigning and value-returning forms agree, and quotient and remainder satisfy n = q*d + r with r < d.",
  ["inputs"],
  "all operand values and widths: random, sparse, all-ones runs, carry chains, divisors of every digit count, quotient-estimate corner cases, all shift amounts and bit positions",
  "Tests use a few hand-picked values, mostly of width 4; carry chains, division corner cases and other widths are not reached.",
  ["crylib/src/big_int.rs", "crylib/src/big_int/unsigned.rs"],
  [("schoolbook carries", "crylib/src/big_int.rs: carry_add, carry_sub, carry_mul"),
   ("long division with quotient estimation", "crylib/src/big_int/unsigned.rs: partial_div, UBigInt::div"),
   ("shifts, bit access, conversions", "crylib/src/big_int/unsigned.rs")],
  None, ["returned values"])
p("C06", "Signed big integers compute exact two's-complement arithmetic",
  "For every pair of operands, signed addition, subtraction, negation, bitwise operations, absolute value (the minimum value's being zero, as documented), widening multiplication, division with remainder truncating towards zero, sign tests, widening resize and conversions match integer arithmetic on 64N bits plus a sign bit, wrapping where documented. Comparison operators and ordering agree with each other and with the mathematical order.",
  ["inputs"],
  "all operand values including zero, minimum, maximum, mixed signs and carry boundaries, at every provided width",
  "Tests compare a few constants (0, 1, -1, MIN, MAX); ordering, abs, division and multiplication of negative numbers are essentially untested.",
  ["crylib/src/big_int/signed.rs"],
  [("digits plus separate sign bit", "crylib/src/big_int/signed.rs: add_assign, sub_assign, neg, abs, div, widening_mul, cmp, resize")],
  [("is_negative", "sign bit beyond the 64N digits", "crylib/src/big_int/signed.rs")],
  ["returned values, compared through the public constants and operations"])
p("C07", "Prime-field arithmetic is exact and always fully reduced",
  "For every prime modulus and all elements, field addition, subtraction, negation, doubling, multiplication, squaring, digit multiplication, inversion of non-zero elements, division and conversion between fields return the canonical representative (below the modulus) of the correct residue. Construction from an integer reduces it, and checked construction succeeds exactly when the integer is below the modulus.",
  ["inputs", "programs"],
  "all elements of the P-256 base and order fields and of other 3- and 4-digit prime moduli (small, dense, near powers of two), including 0, 1, p-1, values around p and 2^k boundaries",
  "Tests sample a few random-looking values in one field; values near the modulus and other moduli are not exercised.",
  ["crylib/src/finite_field.rs", "crylib/src/finite_field/field_element.rs"],
  [("conditional subtraction / add-back", "crylib/src/finite_field/field_element.rs: add, sub, neg"),
   ("division-based reduction", "field_element.rs: new, mul, mul_digit"),
   ("extended Euclid on signed integers", "field_element.rs: inverse")],
  None, ["returned elements"])
p("C08", "P-256 point operations obey the group law for all points and scalars",
  "For all points, including infinity, equal points, opposite points and non-trivial projective representations, projective addition, doubling, negation, equality and conversion to and from affine coordinates agree with the elliptic-curve group law, and scalar multiplication equals repeated addition for every scalar including 0, 1, order-1 and extreme bit patterns. A coordinate pair is accepted as a point exactly when it satisfies the curve equation. In-place and value-returning forms agree.",
  ["inputs"],
  "all points and scalars: random, small multiples, inverses, infinity, equal operands in different projective representations, near-miss off-curve coordinates",
  "Tests use one or two fixed points; exceptional cases of the addition formulas and extreme scalars are not reached.",
  ["crylib/src/ec.rs", "crylib/src/ec/secp256r1.rs", "crylib/src/ec/point.rs", "crylib/src/ec/point/affine.rs", "crylib/src/ec/point/projective.rs"],
  [("projective addition/doubling with infinity handling", "crylib/src/ec/point/projective.rs"),
   ("Montgomery-ladder style scalar multiplication", "projective.rs: mul_scalar, mul_scalar_assign"),
   ("curve equation check", "crylib/src/ec/point/affine.rs: is_on_curve, new")],
  None, ["affine coordinates of results"])
p("C09", "ECDSA signatures verify exactly when they are valid",
  "For every message, private key, hash function and random-number source, the signature produced verifies under the matching public key and equals the standard's (r, s) for the accepted nonce; unusable nonces are skipped without affecting the result. Verification accepts exactly the signatures the ECDSA standard accepts: any change of message, key, r or s, and any zero r or s, is rejected, and no input makes it crash.",
  ["inputs", "fault_sequences"],
  "all messages, keys, nonces and (r, s) pairs, including s replaced by order-s (valid), r or s zero, public keys at infinity or related to the base point, nonces that force a retry",
  "Tests sign and verify two fixed vectors; rejection, retries and boundary values are not tested.",
  ["crylib/src/ec/ecdsa.rs"],
  [("signing loop", "crylib/src/ec/ecdsa.rs: sign"), ("verification equation", "crylib/src/ec/ecdsa.rs: verify_signature")],
  None, ["signature components, accept/reject"])
p("C10", "Operations documented as constant-time execute independently of operand values",
  "Every big-integer and field operation documented as constant-time executes the same sequence of instructions for all operand values of the same width, in an optimised build (shift amounts and boolean operands included). Computing an HMAC or an AES-GCM tag, and rejecting a forged AES-GCM tag, executes the same instructions whatever the key and the data bytes are; for every AEAD, ChaCha20-Poly1305 included, rejecting a forged tag executes the same instructions wherever the tag is wrong (table look-up addresses and public lengths excepted).",
  ["inputs"],
  "all operand values (for a fixed width and public lengths), all tag mismatch positions",
  "Functional tests cannot observe which instructions ran; nothing in the repository measures it.",
  ["crylib/src/big_int/unsigned.rs", "crylib/src/big_int/signed.rs", "crylib/src/finite_field/field_element.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs"],
  [("masks instead of branches", "unsigned.rs: and_bool, shift_*; field_element.rs: add, sub"),
   ("documentation sections 'Constant-timedness'", "crylib/src/big_int/*.rs, crylib/src/finite_field/field_element.rs")],
  None, ["instruction-address trace of the compiled code, single-stepped"])
p("C11", "Cryptographic code is memory safe, deterministic and free of overflow and panics",
  "Within documented preconditions, no cryptographic operation panics, overflows, reads or writes out of bounds, uses uninitialised memory or otherwise invokes undefined behaviour, in debug or release builds. Results are a pure function of the arguments: identical in debug and release builds, on repeated calls, and when one object is used from several threads at once.",
  ["inputs", "schedules", "configurations"],
  "all inputs within documented preconditions, debug and optimised builds, concurrent shared use from several threads",
  "Tests run one build profile without sanitizers or an undefined-behaviour interpreter, on fixed inputs, single-threaded per object.",
  ["crylib/src/big_int/unsigned.rs", "crylib/src/aead/gcm/aes.rs", "crylib/src/finite_field/field_element.rs", "crylib/src/ec/point/projective.rs", "crylib/src/hash/buf_hasher.rs"],
  [("unsafe casts and transmutes", "unsigned.rs: from_ref, from_ref_mut; aes.rs: expand_key"),
   ("slice indexing in buffering code", "hash/buf_hasher.rs, poly1305.rs, gcm.rs")],
  None, ["Miri and AddressSanitizer reports, panics, cross-build result digests"])

# ------------------------------------------------------------------ turtls
p("T01", "No peer behaviour can crash, hang or corrupt the client",
  "Whatever bytes the peer sends, in plaintext or correctly encrypted under the handshake keys, and in whatever order and fragmentation, connecting returns to the caller: the process is not aborted, no memory is corrupted and the call does not loop without consuming input. A handshake that does not complete ends with an error code and, for malformed input, a fatal alert.",
  ["inputs", "histories", "fault_sequences"],
  "all byte streams a server can send, including mutations of valid flights before and after encryption is established, truncations at every byte, extreme length fields",
  "The TLS library has no tests at all; the parsers index and slice peer-controlled data.",
  ["src/record/read.rs", "src/handshake.rs", "src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/app_proto.rs", "src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs"],
  [("length checks before slicing", "all parsers of peer data"), ("errors mapped to alerts", "src/handshake.rs: handshake_client")],
  None, ["process exit status, return value, error accessors, bytes written"])
p("T02", "The ClientHello is well-formed and faithful to every configuration",
  "For every configuration that enables at least one supported cipher suite, group and signature algorithm and whose names fit TLS's length fields, the first bytes sent form a syntactically valid TLS 1.3 ClientHello (in one or more handshake records of legal size) in which every length field is exact and no extension is repeated. It offers exactly the configured cipher suites, groups with one key share each, signature algorithms, TLS 1.3 as only version, the configured server name and protocol list verbatim, and nothing that was not configured; unknown configuration bits have no effect on the wire. A configuration without a usable group is refused with the missing-extensions error and nothing is sent.",
  ["configurations", "inputs"],
  "all settings of the cipher-suite, group and signature bit sets, server names and protocol lists of any length (including absent, empty and larger than one record)",
  "No test builds a ClientHello.",
  ["src/client_hello.rs", "src/extensions.rs", "src/extensions/server_name.rs", "src/extensions/app_proto.rs", "src/extensions/key_share.rs", "src/extensions/sig_algs.rs", "src/extensions/versions.rs", "src/cipher_suites.rs", "src/handshake.rs", "src/record/write.rs", "src/config.rs"],
  [("separate length computation and writing passes", "src/extensions.rs: len_client, write_client and each extension's *_len / write_*"),
   ("handshake buffer and record framing", "src/handshake.rs: ShakeBuf; src/record/write.rs")],
  None, ["bytes passed to the write callback"])
p("T03", "Every attempt uses fresh randomness, and bad randomness is refused",
  "Each new handshake draws a new private key and a new client random from the system generator; the public key sent is the base point multiplied by that key, and both are fully determined by the random bytes drawn, with no byte reused between them or across attempts. If the generator fails, or yields a value that is not a usable private key, connecting fails with the corresponding error and nothing derived from it is sent.",
  ["fault_sequences", "histories", "inputs"],
  "generator failure at every draw, all-zero and multiple-of-order outputs, repeated attempts on the same and different connections",
  "No test controls or faults the random number generator.",
  ["src/extensions/key_share.rs", "src/client_hello.rs", "src/state.rs", "src/lib.rs"],
  [("key generation with zero check", "src/extensions/key_share.rs: GroupKeys::generate"), ("client random", "src/client_hello.rs")],
  None, ["bytes drawn from the generator, bytes sent, error code"])
p("T04", "The outcome does not depend on how incoming bytes are delivered",
  "Splitting the incoming byte stream at any positions, with any number of would-block read failures in between, yields the same final result, the same outgoing bytes and the same reported errors as delivering it at once. Each read failure is reported as the resumable want-read error without sending anything or closing, and calling connect again continues exactly where it stopped. The read callback is never asked for more bytes than the current record still needs.",
  ["schedules", "fault_sequences", "inputs"],
  "all partitions of the peer's byte stream into reads, would-block at every byte position, for valid and invalid flights",
  "No test drives the I/O callbacks.",
  ["src/record/read.rs", "src/handshake.rs", "src/lib.rs"],
  [("resumable read state machines", "src/record/read.rs: get_raw; src/handshake.rs: ShakeBuf::read_inner")],
  [("ReadStatus", "progress inside header/body", "src/record/read.rs, src/handshake.rs")],
  ["return values, read callback sizes, bytes written"])
p("T05", "The outgoing stream does not depend on how writes are accepted",
  "Whatever amounts the write callback accepts and whenever it reports would-block, the bytes delivered are the same sequence of complete, well-formed records as with unlimited writes: nothing is lost, duplicated, reordered or regenerated. A write failure is reported as the resumable want-write error, and resuming continues at the next undelivered byte with the same hello, so a peer can still complete the key agreement.",
  ["schedules", "fault_sequences"],
  "all partitions of the outgoing stream into partial writes, write failure at every byte position, single- and multi-record hellos",
  "No test drives the I/O callbacks.",
  ["src/record/write.rs", "src/handshake.rs", "src/client_hello.rs"],
  [("partial-write bookkeeping", "src/record/write.rs: write_raw, write_record")],
  [("record_bytes, total_bytes", "bytes of the current record / message already written", "src/record/write.rs")],
  ["bytes accepted by the write callback"])
p("T06", "Client and any conforming server derive the same handshake keys",
  "For every client key pair, every valid server share and both cipher suites, the client and an independent TLS 1.3 server derive the same handshake traffic keys from the exact transcript, so each can read what the other encrypts. A server share that is not a valid uncompressed point on the curve is rejected with a fatal alert and no keys are used.",
  ["inputs", "histories"],
  "all client/server key pairs, transcripts of any length and fragmentation, both cipher suites, invalid points of every kind (off curve, out of range, wrong form, wrong length)",
  "No test covers the key schedule, the transcript or key agreement.",
  ["src/key_schedule.rs", "src/aead.rs", "src/extensions/key_share.rs", "src/handshake.rs", "src/lib.rs"],
  [("ECDH and point validation", "src/extensions/key_share.rs: secp256r1_shared_secret"),
   ("HKDF label schedule", "src/key_schedule.rs; src/aead.rs: TlsAead::shake_aead, new"),
   ("transcript hash", "src/handshake.rs: ShakeBuf::read_inner, write_raw")],
  None, ["whether messages encrypted by the reference server are accepted, and the client's encrypted alerts decrypt"])
p("T07", "After key agreement only authentic, in-order records are acted upon",
  "Once handshake keys exist, the client acts only on records that authenticate under the server's key with the expected sequence number: forged, corrupted, replayed, reordered, dropped, truncated or unencrypted records (other than the compatibility change-cipher-spec) make it fail with a fatal alert (bad_record_mac where authentication fails), never being interpreted as handshake data or peer alerts. Padding is removed correctly for every padding length; a record whose content is all padding, or that carries no handshake bytes, is rejected.",
  ["fault_sequences", "histories", "inputs"],
  "all single-bit corruptions and structural attacks on encrypted records (header included), all record sequences and padding lengths, both cipher suites",
  "No test exercises record protection.",
  ["src/record/read.rs", "src/aead.rs", "src/handshake.rs"],
  [("decryption with header as associated data and per-record nonce", "src/aead.rs: TlsAead::decrypt_inline"),
   ("padding removal and inner type", "src/record/read.rs: deprotect")],
  [("read_nonce", "record sequence number", "src/aead.rs")],
  ["alerts, error accessors, progress of the handshake"])
p("T08", "Only a ServerHello that validly answers the offer is accepted",
  "The client proceeds only if the ServerHello is well-formed, echoes the empty session id, uses null compression, selects TLS 1.3 through the version extension, one of the cipher suites offered in the hello sent and exactly one key share in a group offered in it, with no repeated, unknown or unsolicited extensions and no trailing bytes. Everything else, including a retry request it cannot honour, ends with a fatal alert; the legacy version field and the server random do not affect acceptance.",
  ["inputs", "configurations"],
  "all ServerHello field values, lengths, extension sets and orders, under every client configuration",
  "No test parses a ServerHello.",
  ["src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/versions.rs", "src/cipher_suites.rs"],
  [("ServerHello parsing", "src/server_hello.rs: server_hello_client"), ("extension iteration", "src/extensions.rs: ExtIter, parse_ser_hel_exts")],
  None, ["accept (handshake proceeds to encrypted messages) or alert code"])
p("T09", "Encrypted extensions and application protocol are negotiated soundly",
  "The negotiated application protocol reported to the user is, nul-terminated, exactly the one the server selected in this connection, and the server can only select one that was offered in the hello sent, whatever the application has made of the configuration since; without a selection the reported protocol is empty. Encrypted extensions that are malformed, repeated, unknown or unsolicited are rejected with a fatal alert; a solicited server-name acknowledgement and a supported-groups hint are ignored.",
  ["inputs", "configurations", "histories"],
  "all encrypted-extension blocks, protocol names of every length 1..255, offered lists, and configurations with and without names",
  "No test parses encrypted extensions.",
  ["src/extensions.rs", "src/extensions/app_proto.rs"],
  [("extension dispatch", "src/extensions.rs: parse_encrypted_extensions"), ("ALPN parsing and storage", "src/extensions/app_proto.rs")],
  [("app_proto", "nul-terminated protocol buffer", "src/state.rs")],
  ["protocol accessor, alert code"])
p("T10", "Handshake messages are accepted only in protocol order and on legal boundaries",
  "At every step only the expected handshake message type is accepted: missing, repeated, reordered, unknown or client-only messages end with a fatal alert. Handshake messages may be split over or share records, but no other record type may appear within a message and no bytes may follow the ServerHello in its record. Compatibility change-cipher-spec records of the single legal value are ignored wherever they may legally appear, any number of times, and any other such record is fatal.",
  ["histories", "schedules", "inputs"],
  "all sequences of handshake messages and record types at every handshake step, all splittings and coalescings",
  "No test drives the handshake state machine.",
  ["src/handshake.rs", "src/record/read.rs", "src/state.rs"],
  [("message-driven state machine", "src/handshake.rs: handshake_client"), ("record content-type checks", "src/handshake.rs: ShakeBuf::read_inner")],
  [("UnprotShakeMsg/ProtShakeMsg", "next expected message", "src/state.rs")],
  ["alert code, progress of the handshake"])
p("T11", "Peer alerts end the handshake and are reported exactly",
  "An alert received at any step, plaintext before key agreement and encrypted after, ends the handshake with the peer-error code and exactly the alert the peer sent, whatever its level (undefined alert codes are reported as internal error). The connection is closed without answering with another alert, and malformed alert records are themselves a protocol error.",
  ["inputs", "histories"],
  "all 65536 level/description pairs, alert records of every small length, at every handshake step, in both protections",
  "No test delivers an alert.",
  ["src/alert.rs", "src/record/read.rs", "src/handshake.rs", "src/error.rs"],
  [("alert decoding", "src/alert.rs: TurtlsAlert::from_byte; src/record/read.rs: check_alert"), ("error reporting", "src/error.rs")],
  None, ["error accessors, bytes written, close callback"])
p("T12", "A failing or closed connection sends one alert, closes once, then is silent",
  "When the client detects a protocol error it sends exactly one fatal alert record, encrypted if and only if handshake keys exist, whose code equals the one reported to the caller, calls the close callback exactly once and performs no further I/O. Closing an open handshake sends exactly one close-notify under the same protection and closes once; closing an unused or already closed connection does nothing. After a partial write no bytes are ever emitted that would break the record framing.",
  ["histories", "fault_sequences", "inputs"],
  "all protocol errors at all handshake steps, close at every point (before, during want-read and want-write, after failure, repeatedly), write failures while alerting",
  "No test observes alerts or the close callback.",
  ["src/handshake.rs", "src/record/write.rs", "src/lib.rs", "src/alert.rs", "src/error.rs"],
  [("alert then close", "src/record/write.rs: close_raw, close"), ("state reset", "src/lib.rs: turtls_connect, turtls_close")],
  None, ["write and close callbacks, error accessors"])
p("T13", "A reused connection object behaves exactly like a new one",
  "After any earlier attempt on the same object - failed, closed by either side, or interrupted at any byte in either direction - and a close, a new attempt behaves as if the object were new: same outgoing bytes for the same randomness, same acceptance, same reported errors and protocol. No bytes, keys, transcript or negotiated protocol of an earlier attempt influence a later one.",
  ["histories", "crash_points"],
  "all sequences of attempts on one object, each interrupted at any point and followed by a close, with configuration changes in between",
  "No test reuses a connection.",
  ["src/lib.rs", "src/state.rs", "src/record.rs", "src/record/read.rs", "src/record/write.rs", "src/extensions/app_proto.rs"],
  [("per-attempt state", "src/lib.rs: turtls_connect"), ("global state kept in the object", "src/state.rs: GlobalState")],
  [("GlobalState", "record layer, transcript, secrets, protocol buffer", "src/state.rs")],
  ["differential comparison of event traces against a fresh object"])
p("T14", "The C API is memory safe, leak-free and respects callback buffers",
  "Over any valid sequence of API calls, nothing is read or written outside live objects, every connection's memory is released by freeing it in any state, and the context pointer is passed back unchanged to callbacks. Buffers handed to callbacks are valid for the announced length, which is never zero; functions documented to tolerate null pointers do so. Configuration strings are not accessed after the attempt that used them ends.",
  ["histories", "inputs", "schedules"],
  "all sequences of new/configure/connect/close/query/free in every connection state, with callbacks that touch every announced byte",
  "No test calls the C API; tests do not run under sanitizers.",
  ["src/lib.rs", "src/record.rs", "src/config.rs", "src/error.rs", "src/extensions/app_proto.rs", "src/extensions/server_name.rs", "src/handshake.rs"],
  [("raw pointer conversions", "src/lib.rs, src/config.rs, src/error.rs"), ("I/O callbacks", "src/record.rs: TurtlsIo")],
  None, ["AddressSanitizer/LeakSanitizer/Miri reports, allocator balance, callback arguments"])
p("T15", "Certificate messages are classified soundly",
  "A Certificate message that is not well-formed (lengths that disagree, non-empty request context, empty chain, trailing bytes), or that contains a certificate that is not well-formed DER of the X.509 v3 shape, is of another version, uses an unsupported signature algorithm or has signature values out of range, is rejected with a fatal alert that says so (not certificate_unknown). A well-formed chain of ECDSA-SHA256 certificates, with any legal integer sizes, is never rejected for its encoding, and no certificate is accepted as authenticated without validation: as trust validation is not implemented, such a chain ends with certificate_unknown.",
  ["inputs"],
  "all Certificate messages and DER structures: every field mutated, truncated, extended, re-encoded; signature integers of every length",
  "No test parses certificates.",
  ["src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs", "src/handshake.rs"],
  [("certificate list iteration", "src/certificates.rs: CertIter"), ("DER iteration", "src/certificates/der.rs: DerIter"), ("X.509 checks", "src/certificates/x509.rs: validate_cert")],
  None, ["alert, or reaching the (unimplemented) trust validation step"])
p("T16", "The published C interface matches the library",
  "Every function, type layout and constant declared in the published header is what the built shared library implements, so a C program compiled against the header observes the documented defaults, configuration effects and error values. Every alert value has a stable, non-empty, distinct nul-terminated description, which is not the description of another alert.",
  ["programs", "configurations", "inputs"],
  "all declared functions, struct fields, enumerators and alert values, from a C program linked to the shared library",
  "Nothing compiles the header or links the shared library.",
  ["include/turtls.h", "src/lib.rs", "src/alert.rs", "src/error.rs", "src/config.rs", "src/extensions.rs", "src/record.rs", "src/cipher_suites.rs"],
  [("repr(C) types and exported symbols", "src/*.rs"), ("alert strings", "src/alert.rs: turtls_stringify_alert")],
  None, ["behaviour of a C client compiled with the header and sanitizers"])
p("T17", "Connections are isolated from one another",
  "Any number of connections, interleaved on one thread or run on different threads, behave exactly as each would alone: same bytes, same results, with no data race. Nothing one connection's peer sends can affect another connection.",
  ["schedules", "histories"],
  "all interleavings of operations of several connections on one or several threads",
  "Nothing runs two connections.",
  ["src/lib.rs", "src/state.rs", "src/record.rs"],
  [("all state owned by the connection object", "src/state.rs: TurtlsConn")],
  None, ["per-connection event traces compared with solo runs; ThreadSanitizer reports"])
p("T18", "Record and message size limits are enforced exactly",
  "Every record of legal size is processed: plaintext fragments up to 2^14 bytes and encrypted ones up to 2^14 bytes of content plus type, padding and expansion within 2^14+256. Anything larger is refused with the record-overflow alert, and an encrypted record too short to be valid is fatal. Handshake messages larger than one record, up to the client's documented buffer limit of 128 KiB, are reassembled and processed, and larger announced lengths are refused with a fatal alert instead of being buffered.",
  ["inputs"],
  "all record lengths 0..65535 in both protections and all announced handshake message lengths 0..2^24-1",
  "No test reads records.",
  ["src/record.rs", "src/record/read.rs", "src/handshake.rs"],
  [("length limits", "src/record.rs: MAX_LEN, SUFFIX_SIZE; src/record/read.rs: get_raw, deprotect"), ("handshake buffer growth", "src/handshake.rs: ShakeBuf")],
  None, ["alert codes, progress of the handshake"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
