"""Which harnesses decide which property."""

def H(crate, name, bounds="", tier="quick", **kw):
    return dict(crate=crate, name=name, bounds=bounds, tier=tier, **kw)

CHECKS = {}
# Extra rustc flags per harness crate: the hooks of /repo it switches on.
RUSTFLAGS = {"tlss": "--cfg tlsn_verif_small"}
CHECKS["C01"] = dict(
    what="decode(encode(x)) == x with exact consumption; short or over-long declared lengths refused",
    harnesses=[H("tls", "wire::" + n, b) for n, b in [
        ("int_roundtrip", "all u8/u16/u24/u32/u64 values"), ("int_truncated", "all inputs of 0..=9 bytes"),
        ("reader_bounds", "inputs of 0..=6 bytes, all request sizes"), ("payload_roundtrip", "payloads of 0..=6 bytes"),
        ("payload_decode", "inputs of 0..=9 bytes"), ("payload_long_prefix", "lengths 255,256,257,300,65535 and +65536"),
        ("vec_roundtrip", "0..=3 items"), ("vec_decode", "inputs of 0..=8 bytes, all limits")]],
)
CHECKS["C02"] = dict(
    what="record accepted iff well formed",
    harnesses=[H("tls", "wire::" + n, b) for n, b in [
        ("record_read", "all inputs of 0..=12 bytes"), ("record_encode", "all types/versions, payloads of 0..=6 bytes")]],
)
CHECKS["C03"] = dict(
    what="the records delivered are those of the stream, for every way of cutting it",
    harnesses=[H("tlss", "deframe::" + n, b) for n, b in [
        *[(f"one_cut_{i}", "4 records in 20 bytes, one cut at each position") for i in range(4)],
        *[(f"two_cuts_{i}", "4 records in 20 bytes, two cuts") for i in range(3)],
        ("byte_by_byte", "13 bytes in 13 reads"), ("full_buffer", "largest record"), ("empty_stream", ""),
        ("any_type_version", "all 2^24 types and versions of the second record"), ("bad_length", "all over-long lengths"), ("stays_desynced",""),
        ("async_cut_0", "4 records in 20 bytes, two cuts"), ("async_cut_1", "4 records in 20 bytes, two cuts"), ("async_bad", "five malformed second records"), ("async_empty_stream", "")]],
)
CHECKS["C05"] = dict(
    what="fragments concatenate to the payload, keep type and version, respect the limit",
    harnesses=[H("tls", "frag::" + n, b) for n, b in [
        *[(f"{k}_{n}", "record limits 32/33, payload of 0,1,lim,lim+1,2lim,2lim+1 symbolic bytes") for k in ("owned", "borrowed") for n in ("0", "1", "lim", "lim1", "2lim", "2lim1")],
        ("owned_33", ""), ("limits", "all configured limits; payload lengths up to 20000")]],
)

# Properties without a check, and why.
NOT_APPLICABLE = {
    "C70": "Secrecy against the other party is a statement about probability distributions of two interacting parties under cryptographic assumptions; no assertion over one execution expresses it, so symbolic execution cannot decide it.",
    "C71": "The joint key derivation is a garbled circuit built and run by the mpz crates, which are git dependencies not present offline; the equivalence (SHA-256 circuits) is also far outside what a bit-blasting solver decides.",
    "C72": "Depends on asynchronous tasks over the mux and executor crates (not present offline); Kani does not model concurrency or a scheduler.",
}
CHECKS["C04"] = dict(
    what="every handshake message of the stream is delivered once, in order and unchanged, for every cut",
    harnesses=[H("tls", "join::" + n, b) for n, b in [
        *[(f"cut_{i}", "4 messages in 20 bytes, one or two cuts") for i in range(7)],
        ("byte_by_byte", "13 bytes in 13 records"), ("too_large", "all lengths above 65535"), ("not_early", "all lengths up to 65535 not yet complete"),
        ("unparsable", ""), ("corrupt_second", ""), ("want", "all content types")]]
    + [H("tls", f"join::more_{i}", "4 messages in 20 bytes, one or two cuts", "thorough") for i in range(7)],
)
CHECKS["C09"] = dict(
    what="every code point of every enumeration keeps its number, distinct numbers differ, names carry registered numbers",
    harnesses=[H("tls", "codes::" + n, "all values of the code") for n in """protocol_version hash_algorithm signature_algorithm
        client_certificate_type compression content_type handshake_type alert_level alert_description heartbeat_message_type
        extension_type server_name_type named_curve named_group cipher_suite ec_point_format heartbeat_mode ec_curve_type
        signature_scheme psk_key_exchange_mode key_update_request certificate_status_type""".split()],
)
CHECKS["C13"] = dict(
    what="the additional data of a record is seq, type, version and length, and differs when any of them differs",
    harnesses=[H("tls", "small::aad_layout", "all values, lengths up to 65535"), H("tls", "small::aad_injective", "all pairs of records")],
    outside="the call sites in mpc-tls and tlsn (see C40 and C51)",
)
CHECKS["C15"] = dict(
    what="DER tag, minimal length and unchanged content",
    harnesses=[H("tls", f"small::wrap_{n}", f"{n} symbolic bytes") for n in ("0", "0b", 3, 127, 128, 255, 256, 300)],
)

CHECKS["C16"] = dict(
    what="names accepted are exactly the DNS names, are kept unchanged, sent without a trailing dot; repeated name types are reported",
    harnesses=[H("tls", f"names::parse_{n}", f"all ASCII strings of {n} bytes") for n in (0, 1, 2, 4, 7, 8, 12)]
    + [H("tls", "names::" + n, b) for n, b in [("label_63", "any last byte"), ("label_64", "any last byte"), ("name_254", "any first byte"),
        ("received_1", "all byte strings of 1 byte"), ("received_3", "all byte strings of 3 bytes"), ("received_5", "all byte strings of 5 bytes"),
        ("keep::encode_1", ""), ("keep::encode_6", "all texts of 6 bytes"), ("keep::encode_60", "all texts of 60 bytes"), ("keep::for_sni_6", ""),
        ("keep::sni_plain", "all texts of 3 bytes"), ("keep::sni_dot", "all texts of 4 bytes"),
        ("set::duplicates", "three entries, all types"), ("set::no_duplicates_in_one", "")]]
    + [H("tls", "names::name_253", "any last byte", "thorough")],
    assumptions=["HashSet::new/insert are replaced by a list with the same contract (set::)", "in keep:: the name validator of rustls-pki-types accepts everything"],
    outside="IP addresses as tls_core ServerName values (the type cannot be built with one outside the crate)",
)
CHECKS["C12"] = dict(
    what="the suite chosen is the first acceptable one that both sides have; lists are reduced to what version and key type allow; ECDH parameters are taken only when whole",
    harnesses=[H("tls", "kx::" + n, b) for n, b in [
        ("choose_client", "3 proposed codes of 2^16, 3 enabled of all nine suites"), ("choose_server", "the same"), ("choose_empty", ""),
        ("usable_sigalg", "all suites, all 2^8 algorithms"), ("reduce_sigalg_rsa", "three suites"), ("reduce_sigalg_ecdsa", "three suites"), ("reduce_sigalg_none", "three suites"),
        ("reduce_version", "two of nine suites, all 2^16 versions"), ("sigscheme_for_suites", "all 2^16 schemes, all suites"), ("table", "all suites"),
        ("resolve", "two offered schemes of 2^16"), ("versions", "all 2^16 versions"), ("randoms", "all randoms"),
        ("m::params_4", "no point"), ("m::params_9", "5-byte point, all groups"), ("m::client_6", "5-byte point"),
        *[(f"m::exchange_good_{i}", "4-byte point, 3-byte signature") for i in range(4)], ("m::exchange_extra", "one byte too many"),
        ("m::exchange_other", "all contents"), ("m::exchange_other2", "all contents"), ("m::reencode", "all groups, 5-byte points"),
        ("bad::params_3", "all 3-byte inputs"), ("bad::params_4", "all 4-byte inputs"), ("bad::params_6", "all 6-byte inputs"),
        ("bad::client_1", "all 1-byte inputs"), ("bad::client_4", "all 4-byte inputs")]],
    outside="longer points and signatures",
)
CHECKS["C14"] = dict(
    what="prf() is P_SHA256(secret, label + seed) cut to the requested length",
    harnesses=[H("tlsuf", "prf::" + n, "all secrets, labels and seeds of these lengths") for n in
               "n0 n1 n12 n31 n32 n33 n48 n64 n65 n100 empty_seed empty_label empty_secret".split()],
    assumptions=["HMAC-SHA256 is an uninterpreted function of key and message (equal arguments give equal outputs, nothing else is known)"],
    outside="output longer than 100 bytes, secrets longer than 6 bytes; the garbled-circuit PRF of components/hmac-sha256",
)
CHECKS["C10"] = dict(
    what="accepted iff parsing, path, time, transparency policy and name all agree, and each was asked about the right thing",
    harnesses=[H("tlspki", "cert::" + n, b) for n, b in [
        ("answers", "all answers of certificate processing, all times below 2^40 s"), ("answers_text", ""), ("before_1970", "all times back to 2^40 s"),
        ("intermediates", "two intermediates"), ("no_logs", ""), ("logs_no_scts", "all times and deadlines"), ("one_sct", "all verdicts, times and deadlines"),
        ("two_scts", "all pairs of verdicts, times and deadlines")]],
    assumptions=["rustls-webpki and sct are scripted: their verdicts are arbitrary and what they were asked is recorded (stubs/webpki, stubs/sct)", "error texts are not formatted"],
    outside="path building and signature arithmetic inside rustls-webpki; sub-second times",
)
CHECKS["C11"] = dict(
    what="a handshake signature is accepted iff the presented certificate's key verifies exactly this content with an algorithm of the announced scheme; the algorithm reported is the one that verified",
    harnesses=[H("tlspki", f"sig::{h}_{a}", "all verdicts per algorithm, 3-byte content, 2-byte signature") for h in ("tls12", "tls13", "alg") for a in
               "ecdsa256 ecdsa384 ed25519 pkcs256 pkcs384 pkcs512 pss256 pss384 pss512 other".split()] + [H("tlspki", "sig::advertised", "")],
    assumptions=["rustls-webpki is scripted: the verdict of each algorithm is arbitrary", "error texts are not formatted"],
    outside="signature arithmetic",
)

import os as _os, re as _re
def _names(crate, path):
    """The harnesses of one source file: [(module path inside the file, name)]."""
    text = open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "h", crate, "src", path)).read()
    out, mods, depth = [], [], 0
    for line in text.splitlines():
        m = _re.match(r"\s*pub mod (\w+) \{", line)
        if m:
            mods.append((m[1], depth))
        m = _re.match(r"\s*fn (\w+)\(\) unwind \d+", line)
        if m:
            out.append(("::".join(x for x, _ in mods), m[1]))
        depth += line.count("{") - line.count("}")
        while mods and depth <= mods[-1][1]:
            mods.pop()
    return out

def _hs(files, pick, bounds, slow=()):
    out = []
    for f in files:
        for mod, n in _names("tls", f"hs/{f}.rs"):
            if pick(f, mod):
                full = f"hs::{f}::{mod}::{n}"
                out.append(H("tls", full, bounds, "thorough" if full in slow else "quick"))
    return out
_SLOW = {"hs::cext::bad::" + n for n in ("psk_ids", "psk_id", "status_ids", "key_share_item")} | {"hs::hello::wrong::retry_ext_len",
         "hs::body::wrong::request_types", "hs::body::wrong::ticket13_exts", "hs::body::wrong::ticket13_nonce", "hs::hello::wrong::client_ext_len_1", "hs::hello::wrong::client_ext_len_5"}
CHECKS["C06"] = dict(
    what="every kind of message and extension that a peer sends is read with exactly its fields, whole",
    harnesses=_hs(["cext", "sext", "body", "hello", "other"], lambda f, m: m in ("read", "top", "plain", "sni::plain"), "one shape per message or extension kind, all contents", _SLOW),
    assumptions=["std::collections::HashSet is replaced by a list with the same contract", "in sni:: the name validator of rustls-pki-types accepts everything"],
    outside="other shapes (longer lists, longer payloads), nesting of several extensions in one message",
)
CHECKS["C07"] = dict(
    what="every kind of message and extension built here is written with its type, exact lengths and fields in order",
    harnesses=_hs(["cext", "sext", "body", "hello", "other"], lambda f, m: m == "write", "one shape per message or extension kind, all contents", _SLOW),
    outside="other shapes; extensions of unknown type in server hellos, hello retry requests, certificates, requests and tickets",
)
CHECKS["C08"] = dict(
    what="wrong lengths, missing and extra bytes are refused; duplicates and lookups are exact",
    harnesses=_hs(["cext", "sext", "body", "hello", "other", "list"], lambda f, m: m in ("bad", "wrong", "dups", "find", "sni"), "one shape per kind, each length byte with all (or the neighbouring) wrong values", _SLOW),
    assumptions=["std::collections::HashSet is replaced by a list with the same contract", "in sni:: the name validator of rustls-pki-types accepts everything"],
    outside="other shapes",
)
