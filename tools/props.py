#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
T = "crates/tls-core/src/"
C = "crates/core/src/"
A = "crates/attestation/src/"
M = "crates/mpc-tls/src/"
N = "crates/tlsn/src/"
S = "crates/sdk-core/src/"

# ---------------------------------------------------------------- TLS wire layer
p("C01", "Wire primitives and length-prefixed fields round-trip exactly",
  "Every integer, opaque byte string and list that fits its wire length prefix encodes big-endian behind a prefix equal to its exact byte length and decodes back to the same value, consuming exactly the bytes that were written. A decoder never consumes or returns a byte beyond the field's declared length or beyond the supplied input, and a field whose declared length exceeds the input is refused.",
  ["inputs"], "every integer value, every byte string and list within the bound, every truncation of its encoding, and every declared length",
  "The unit tests encode a few literal values; the boundary lengths and truncations are almost never sampled.",
  [T+"msgs/codec.rs", T+"msgs/base.rs"],
  [("bounded reader and big-endian integer codecs", T+"msgs/codec.rs Reader, Codec for u8/u16/u24/u32/u64"),
   ("length-prefixed vectors", T+"msgs/codec.rs encode_vec_*/read_vec_*"), ("length-prefixed payloads", T+"msgs/base.rs PayloadU8/U16/U24")])
p("C02", "TLS records are framed exactly and malformed records are never accepted",
  "A record parser yields a record exactly when the input starts with a known content type, a version whose major byte is 3, a length of at most 2^14+2048 (non-zero unless the record is application data) and that many payload bytes; it reports 'need more data' exactly when the input is a proper prefix of such a record. An accepted record carries precisely the type, version and payload bytes on the wire, consumes nothing beyond them, and re-encodes to the same bytes.",
  ["inputs"], "every byte string up to the bound, including every length field value and every truncation",
  "Tests feed a handful of captured records; the refusal conditions are a conjunction over 40 header bits.",
  [T+"msgs/message.rs", T+"msgs/codec.rs"],
  [("record header parsing and limits", T+"msgs/message.rs OpaqueMessage::read"), ("record encoding", T+"msgs/message.rs OpaqueMessage::encode")])
p("C03", "Record extraction from the byte stream does not depend on chunking",
  "However the transport splits a byte stream into reads, the deframer produces the same records in the same order, loses and duplicates no byte, and flags corruption at the first malformed record, after which it never produces another record. It never panics, and reports pending data exactly when buffered bytes of an incomplete record remain.",
  ["inputs", "schedules"], "every byte stream up to the bound and every way of splitting it into reads",
  "The tests try one-byte and whole-message reads of fixed captures; splits inside headers combined with several records are not covered.",
  [T+"msgs/deframer.rs"],
  [("stateful record extraction", T+"msgs/deframer.rs MessageDeframer::read/try_deframe_one/buf_consume")])
p("C04", "Handshake messages are reassembled independently of record boundaries",
  "Handshake messages split over, or coalesced into, handshake records in any way are delivered once each, in order and with identical contents. A handshake message announcing more than 65535 body bytes, or an unparsable one, is reported as an error and never delivered, and a partially received message is never delivered early.",
  ["inputs", "schedules"], "every sequence of handshake bytes up to the bound and every split into record payloads",
  "Tests use two or three fixed fragmentations of captured messages.",
  [T+"msgs/hsjoiner.rs"],
  [("handshake reassembly buffer", T+"msgs/hsjoiner.rs HandshakeJoiner::take_message"), ("size limit", T+"msgs/hsjoiner.rs payload_size/buf_contains_message")])
p("C05", "Outgoing fragmentation preserves content and respects the record limit",
  "Splitting an outgoing message into records yields, in order, non-empty fragments whose concatenation is the original payload, each carrying the original content type and protocol version, and each no longer than the configured limit. A configured record-size limit is accepted exactly when it lies between 32 and 16389 bytes (header included) and then bounds every record including its header; without one, 16384 payload bytes is the limit.",
  ["inputs", "configurations"], "every payload up to the bound, every content type and version, and every configured limit",
  "Tests use one payload with one limit; off-by-one at multiples of the limit is an arithmetic corner.",
  [T+"msgs/fragmenter.rs"],
  [("fragment splitting", T+"msgs/fragmenter.rs MessageFragmenter::fragment/fragment_borrow"), ("limit configuration", T+"msgs/fragmenter.rs set_max_fragment_size")])
p("C06", "Parsing of peer-supplied TLS messages is total and faithful",
  "Parsing any byte string as a handshake, alert or change-cipher-spec message returns a value or an error: it never panics, overflows or reads out of bounds. If a handshake message is accepted, every byte of its declared length was consumed and re-encoding it reproduces a message that parses to the same content.",
  ["inputs"], "every handshake type and every body up to the per-type bound",
  "Hand-written test vectors are well formed; an adversarial peer chooses every byte.",
  [T+"msgs/handshake.rs", T+"msgs/message.rs", T+"msgs/alert.rs", T+"msgs/ccs.rs"],
  [("handshake body parsers", T+"msgs/handshake.rs Codec impls"), ("trailing-data checks", T+"msgs/handshake.rs HandshakeMessagePayload::read_version"), ("message dispatch", T+"msgs/message.rs MessagePayload::new")])
p("C07", "Locally built handshake messages arrive unchanged",
  "Every hello, key-exchange, certificate, certificate-request, certificate-verify, finished and extension value that fits its wire limits decodes, after encoding, to a value with the same fields in the same order, and the encoded message carries its exact type code and 24-bit body length.",
  ["inputs"], "every field value and list length within the bound",
  "Tests round-trip one sample value per message.",
  [T+"msgs/handshake.rs"],
  [("message encoders", T+"msgs/handshake.rs Codec::encode impls"), ("vector limits", T+"msgs/handshake.rs declare_u8_vec!/declare_u16_vec!")])
p("C08", "Malformed hello, extension and key-exchange content is refused or reported",
  "A session id longer than 32 bytes, an extension or hello with trailing or missing bytes, a server-name or key-exchange field inconsistent with its declared length, and a handshake body longer or shorter than its header says are refused. Duplicate extensions and duplicate key shares are reported as duplicates exactly when two entries carry the same code, and looking up an extension returns the entry with the requested code.",
  ["inputs"], "every message body and extension list up to the bound",
  "Tests contain one negative sample per rule; the rules quantify over all list contents.",
  [T+"msgs/handshake.rs"],
  [("validity rules", T+"msgs/handshake.rs SessionID::read, ClientExtension/ServerExtension::read, ServerName"), ("duplicate detection", T+"msgs/handshake.rs has_duplicate_extension, has_keyshare_extension_with_duplicates")])
p("C09", "Protocol code points are preserved and named as registered",
  "Every code point of every TLS enumeration that the library reads - content and handshake types, versions, cipher suites, groups, signature schemes, alerts, extensions - is written back as the same number, whether or not it is known. Distinct numbers never compare equal, and every code point with a name carries the number that the TLS registry assigns to that name.",
  ["inputs"], "all 256 or 65536 values of each enumeration",
  "The enumeration tests check the first and last named member; nothing compares the tables with the registry.",
  [T+"msgs/enums.rs", T+"msgs/macros.rs"],
  [("generated enumerations", T+"msgs/macros.rs enum_builder!"), ("tables", T+"msgs/enums.rs")])
p("C10", "A server certificate is accepted only if chain, name, time and CT policy agree",
  "A server certificate chain is accepted exactly when path validation to a configured root succeeds at the given time for server authentication with exactly the presented intermediates, the certificate is valid for the requested server name, and the certificate-transparency policy in force accepts the presented timestamps. Any failure of any of these yields an error and none is turned into success.",
  ["inputs", "fault_sequences"], "every combination of outcomes of path validation, name check and timestamp verification, with 0..n intermediates and timestamps and every verification time",
  "The verifier test suite uses real chains that succeed; the failure combinations of the underlying checks are never enumerated.",
  [T+"verify.rs", T+"anchors.rs"],
  [("certificate verifier", T+"verify.rs WebPkiVerifier::verify_server_cert"), ("CT policy", T+"verify.rs verify_scts, CertificateTransparencyPolicy")])
p("C11", "A handshake signature is accepted only for the right key, scheme and content",
  "A handshake signature is accepted only if it verifies, under the public key of the presented end-entity certificate, over exactly the signed content, with an algorithm that corresponds to the announced signature scheme and - for TLS 1.3 - is allowed there. Unknown or disallowed schemes are refused without consulting the key, and TLS 1.3 content is bound to the server context string.",
  ["inputs", "fault_sequences"], "every signature scheme code point, every outcome of the key's per-algorithm verification, all message and signature bytes within the bound",
  "Tests verify one valid signature; they do not enumerate schemes against algorithms.",
  [T+"verify.rs"],
  [("scheme to algorithm table", T+"verify.rs convert_scheme/convert_alg_tls13"), ("signature verification", T+"verify.rs verify_signed_struct/verify_tls13"), ("TLS 1.3 message", T+"verify.rs construct_tls13_server_verify_message")])
p("C12", "Cipher-suite and key-exchange parameter selection is sound",
  "A negotiated cipher suite is always one that is locally enabled and was proposed, compatible with the protocol version and certificate key type in use, and the first acceptable one in the preferred order; if none exists none is returned. Server key-exchange parameters are accepted only if they are a named-curve ECDH point with nothing trailing, and the group and point extracted are those on the wire.",
  ["inputs", "configurations"], "every list of offered code points within the bound, every version and key type, and every key-exchange parameter byte string within the bound",
  "Tests check a few hand-picked lists.",
  [T+"suites/mod.rs", T+"suites/tls12.rs", T+"key.rs"],
  [("suite choice", T+"suites/mod.rs choose_ciphersuite_preferring_*, reduce_given_*"), ("parameter decoding", T+"suites/tls12.rs decode_ecdh_params")])
p("C13", "Record authentication data binds type, version, length and sequence number",
  "The additional data authenticated with a TLS 1.2 record is the 8-byte big-endian sequence number, the content type, the protocol version and the 2-byte length, so two records that differ in any of these have different additional data. The length field is the plaintext length.",
  ["inputs"], "all sequence numbers, content types, versions and lengths",
  "The value is compared nowhere in the tests.",
  [T+"cipher.rs"], [("AAD layout", T+"cipher.rs make_tls12_aad")])
p("C14", "The TLS 1.2 key schedule computes the standard PRF",
  "The pseudo-random function output equals the RFC 5246 P_hash expansion of label followed by seed, for every output length, and truncation or extension of the requested length never changes the common prefix. Master secret, key block and finished values use their registered labels and the seed in the required order.",
  ["inputs"], "all labels, seeds, secrets and output lengths within the bound, for an arbitrary keyed hash",
  "Tests compare two published vectors.",
  [T+"prf.rs"], [("PRF", T+"prf.rs prf"), ("TLS 1.2 derivations", T+"suites/tls12.rs join_randoms")])
p("C15", "DER wrapping of distinguished names is correct for every length",
  "Wrapping bytes as a DER sequence yields tag 0x30, the definite length in its minimal form, and the unchanged bytes, for every length that fits; appended bytes are never lost, reordered or mis-measured.",
  ["inputs"], "every content length through the short, one-byte and two-byte long forms",
  "Tests check a few lengths.",
  [T+"x509.rs"], [("length encoding", T+"x509.rs wrap_in_asn1_len/wrap_in_sequence")])
p("C16", "Server names: only valid DNS names are sent or accepted as identities",
  "Text is accepted as a server name only if it is a syntactically valid DNS name, the accepted name is the text given, and comparison and hashing of names are consistent. An IP address or malformed host never appears in the server-name extension, and a received server-name list is reported as invalid exactly if it repeats a name type.",
  ["inputs"], "all names up to the bound",
  "Tests parse a couple of names.",
  [T+"dns.rs", T+"msgs/handshake.rs"], [("name types", T+"dns.rs ServerName"), ("SNI payload", T+"msgs/handshake.rs ServerName, ConvertServerNameList")])

# ---------------------------------------------------------------- core
p("C20", "Server identity is established only by a consistent handshake",
  "Handshake data verifies for a server name only if the certificate chain verifies for that name at the connection time, the ephemeral key is the one in the signed key-exchange parameters, and the key-exchange signature verifies over client random, server random and those parameters under the end-entity certificate. An empty certificate chain, an unsupported key group, or a mismatch in any of them is an error.",
  ["inputs", "fault_sequences"], "all randoms, parameters and keys within the bound and every combination of outcomes of the underlying verifications",
  "Tests use recorded handshakes with one field changed.",
  [C+"connection.rs", T+"handshake.rs"],
  [("handshake verification", C+"connection.rs HandshakeData::verify"), ("signature check", T+"handshake.rs HandshakeData::verify")])
p("C21", "Only authenticated data is ever revealed by a partial transcript",
  "A partial transcript built for a set of ranges contains the original bytes exactly at those positions and the fill value everywhere else, reports precisely those positions as authenticated, keeps the original length, and survives serialization unchanged. Changing the fill value changes only unauthenticated positions.",
  ["inputs"], "every transcript and every pair of range sets within the bound",
  "Tests use fixed requests with one or two ranges.",
  [C+"transcript.rs"],
  [("redaction", C+"transcript.rs Transcript::to_partial, PartialTranscript::set_unauthed*"), ("compressed form", C+"transcript.rs CompressedPartialTranscript")])
p("C22", "Merging partial transcripts never invents or destroys authenticated data",
  "The union of two partial transcripts of the same length is authenticated exactly where either was and agrees there with the source; merging transcripts of different length is refused and never silently truncates. A transcript is complete exactly when every position is authenticated, and contiguity and range accessors agree with the authenticated set.",
  ["inputs", "histories"], "every pair of partial transcripts within the bound, in either order",
  "Tests merge one pair.",
  [C+"transcript.rs"], [("merge", C+"transcript.rs PartialTranscript::union_transcript/union_subsequence/is_complete")])
p("C23", "A Merkle proof admits only the committed leaves at their positions",
  "A proof produced by a tree for a set of leaves verifies against that tree's root exactly for those leaves at those positions, for every tree size and index set. A proof is refused if a leaf, position, leaf count or hash algorithm differs, unless the hash itself collides.",
  ["inputs"], "all tree sizes, index sets and leaf values within the bound",
  "Tests try one tree with one wrong leaf.",
  [C+"merkle.rs"], [("proof verification", C+"merkle.rs MerkleProof::verify"), ("tree", C+"merkle.rs MerkleTree::proof/insert")])
p("C24", "A hash opening is accepted only for the committed direction, range and bytes",
  "Opening a plaintext hash commitment succeeds only if the recomputed hash of the opened bytes and blinder equals the commitment made for that direction and range; altering data, blinder, range, direction or algorithm is refused unless the hash itself collides. Blinders are always part of the hashed input.",
  ["inputs"], "all data and blinders within the bound",
  "Tests flip one byte.",
  [C+"transcript/proof.rs", C+"transcript/hash.rs", C+"hash.rs"],
  [("opening check", C+"transcript/proof.rs TranscriptProof::verify_with_provider"), ("plaintext hashing", C+"transcript/hash.rs hash_plaintext")])
p("C25", "A transcript proof reveals exactly what its commitments authenticate",
  "Verification of a transcript proof returns a transcript of the attested length in which every authenticated byte is covered by a commitment made in the attestation and equals the committed data, and fails if any disclosed range is not covered, any opening fails or lengths differ. A proof built for requested ranges discloses no byte outside them.",
  ["inputs"], "every set of commitments, openings and disclosed ranges within the bound",
  "Tests use one commitment layout.",
  [C+"transcript/proof.rs"],
  [("verification", C+"transcript/proof.rs TranscriptProof::verify_with_provider"), ("construction", C+"transcript/proof.rs TranscriptProofBuilder")])
p("C26", "Commitment and disclosure requests outside the transcript are refused",
  "A request to commit or reveal a range is accepted exactly if the range is non-empty as required and lies within the transcript of that direction; the resulting configuration holds the union of the accepted requests, each commitment with its direction, algorithm and kind.",
  ["inputs", "configurations"], "all transcript lengths and ranges within the bound, and request sequences",
  "Tests check one out-of-bounds range.",
  [C+"transcript/commit.rs", C+"config/prove.rs", C+"transcript/proof.rs"],
  [("bounds checks", C+"transcript/commit.rs TranscriptCommitConfigBuilder, "+C+"config/prove.rs ProveConfigBuilder")])
p("C27", "A TLS transcript is only built from a well-formed record sequence",
  "A connection transcript is accepted only if the records of each direction carry consecutive sequence numbers, handshake and application data appear in the required phases with the finished messages first, and nothing follows a close alert; application data returned is the concatenation of application-data records in order.",
  ["inputs", "histories"], "every record sequence within the bound, every type and sequence-number assignment",
  "Tests use one recorded session.",
  [C+"transcript/tls/builder.rs", C+"transcript/tls.rs"],
  [("sequence validation", C+"transcript/tls/builder.rs"), ("application data", C+"transcript/tls.rs TlsTranscript::to_transcript")])
p("C28", "Connection limits are validated before they are agreed",
  "A connection configuration is accepted only if its sent/received byte and record limits are consistent - online limits never exceed totals, and defaults never weaken an explicit limit - and the values agreed are those requested.",
  ["configurations"], "all limit values",
  "Tests use defaults.",
  [C+"config/tls_commit/mpc.rs", M+"config.rs"],
  [("configuration builder", C+"config/tls_commit/mpc.rs MpcTlsConfigBuilder::build")])

# ---------------------------------------------------------------- attestation
p("C30", "An attestation's signed header commits to every field of its body",
  "Two attestation bodies that differ in any field value, in the kind of any field or in the position of any field have different roots, unless the hash collides; every field present in the body is covered.",
  ["inputs"], "every pair of bodies within the bound",
  "Tests never compare roots of near-identical bodies.",
  [A+"lib.rs"], [("field hashing", A+"lib.rs Body::hash_fields/root")])
p("C31", "An attestation is issued only for a supported, consistent request",
  "The notary signs only if the request's signature and hash algorithms are supported and its extensions are accepted; the signed attestation contains the connection info, ephemeral key, certificate commitment and transcript commitments supplied by the notary, with distinct field identifiers, and its header's root matches its body. A missing required field is an error.",
  ["inputs", "configurations", "histories"], "every subset of supplied fields, every algorithm identifier and extension set within the bound",
  "Tests build one complete attestation.",
  [A+"builder.rs"], [("builder checks", A+"builder.rs AttestationBuilder::accept_request/build")])
p("C32", "An attestation proof verifies only with valid signature and field inclusion",
  "An attestation proof is accepted only if every disclosed field is proven included under the header's root and the header's signature verifies under the verifying key in the body with the attested algorithm; the accepted attestation's contents are those proven.",
  ["inputs", "fault_sequences"], "every combination of outcomes and alterations within the bound",
  "Tests alter the signature only.",
  [A+"proof.rs"], [("proof verification", A+"proof.rs AttestationProof::verify, BodyProof")])
p("C33", "A presentation yields only data backed by its attestation",
  "A presentation's output exists only if its attestation verifies; a server name is output only if the identity proof verifies against the attested certificate commitment, ephemeral key and time; a transcript only if its proof verifies against the attested lengths and commitments; a failure of any supplied part fails the whole.",
  ["inputs", "fault_sequences"], "all combinations of parts present and of their verification outcomes",
  "Tests build only presentations that succeed.",
  [A+"presentation.rs", A+"connection.rs"], [("presentation verification", A+"presentation.rs Presentation::verify"), ("identity proof", A+"connection.rs ServerIdentityProof::verify_with_provider")])
p("C34", "A client accepts only the attestation it asked for",
  "Validation of a received attestation succeeds only if its signature algorithm, hash algorithm and certificate commitment are the requested ones, every requested extension is present, and the signature over the header verifies.",
  ["inputs"], "every combination of mismatches within the bound",
  "Tests alter one field at a time.",
  [A+"request.rs"], [("validation", A+"request.rs Request::validate")])
p("C35", "Signature verification is dispatched on algorithm and key type",
  "A signature verifies only with the verifier registered for its algorithm and only with a key of that verifier's type; unknown algorithms and foreign keys are refused, and signers announce the algorithm, key type and key bytes of the key they sign with.",
  ["inputs", "configurations"], "every algorithm and key-type identifier",
  "Tests verify matching pairs only.",
  [A+"signing.rs", A+"provider.rs"], [("verifiers", A+"signing.rs SignatureVerifierProvider, *Verifier::verify")])

# ---------------------------------------------------------------- mpc-tls
p("C40", "TLS record nonces and sequence numbers are never reused or skipped",
  "Each record sent or received gets the next sequence number of its direction, starting from zero, used both in its nonce and in its additional data; a limit on records or bytes is enforced before anything is encrypted or decrypted, and exceeding it is an error that releases nothing.",
  ["histories", "configurations"], "every sequence of pushes and flushes within the bound, with every record type and length",
  "Integration tests run one session with generous limits.",
  [M+"record_layer.rs", M+"record_layer/encrypt.rs", M+"record_layer/decrypt.rs"],
  [("record layer state", M+"record_layer.rs RecordLayer::push_encrypt/push_decrypt")])
p("C41", "Application data is withheld until the handshake is complete",
  "No application-data record is released for sending or reading before traffic is started; handshake and alert records pass in order, and records are released in the order they were pushed.",
  ["histories", "schedules"], "every interleaving of pushes, starts and reads within the bound",
  "Integration tests follow the one happy order.",
  [M+"record_layer.rs"], [("release gating", M+"record_layer.rs next_encrypted/next_decrypted/start_traffic")])
p("C42", "The follower refuses a deviating handshake",
  "The verifying party accepts each handshake value at most once and in the required order, refuses a client time deviating more than five seconds, an unsupported curve, a finished value that does not match the transcript, and a session closed without all values.",
  ["histories", "inputs"], "every message order within the bound and every value",
  "Integration tests use an honest leader.",
  [M+"follower.rs", M+"utils.rs"], [("message checks", M+"follower.rs MpcTlsFollower::run"), ("finished verification", M+"utils.rs verify_transcript")])
p("C43", "Buffered TLS plaintext is a faithful bounded FIFO",
  "Bytes written to a connection buffer come out once, in order and unchanged, however reads and writes are sized; with a limit set the buffer never accepts bytes beyond it and reports exactly how many it accepted.",
  ["histories"], "every sequence of operations within the bound and every limit",
  "Tests cover one append/read sequence.",
  [M+"client/vecbuf.rs"], [("chunk buffer", M+"client/vecbuf.rs ChunkVecBuffer")])
p("C44", "The client enforces the TLS 1.2 handshake order and its checks",
  "A handshake completes only after the server's certificate verified, its key-exchange signature verified over both randoms and the parameters, and change-cipher-spec and a matching finished message arrived in order; any other message at any point aborts the connection and no application data is accepted earlier.",
  ["histories", "fault_sequences"], "every message at every state and every verification outcome",
  "Integration tests use a correct server.",
  [M+"client/tls12.rs", M+"client/hs.rs", M+"client/conn.rs"], [("state machine", M+"client/tls12.rs State impls"), ("hello checks", M+"client/hs.rs ExpectServerHello::handle")])

# ---------------------------------------------------------------- tlsn
p("C50", "Transcript references resolve every byte to its own committed memory",
  "A lookup of a range in a transcript's memory map succeeds exactly if the range lies within one mapped region, and returns the references of exactly those bytes in order; construction refuses overlapping or mis-sized regions.",
  ["inputs"], "all maps and ranges within the bound",
  "Tests use two regions.",
  [N+"map.rs"], [("range map", N+"map.rs RangeMap")])
p("C51", "Record tags are verified over the record's own sequence, type and length",
  "Authenticity of received ciphertext is established only if the tag recomputed for every record, over that record's additional data and ciphertext, equals the tag on the wire; one mismatch or a missing record fails the verification.",
  ["inputs", "fault_sequences"], "all record lists within the bound, every mismatch position",
  "Integration tests have no adversarial record.",
  [N+"tag.rs", N+"ghash.rs"], [("tag verification", N+"tag.rs TagProof::verify"), ("GHASH input", N+"ghash.rs build_ghash_data")])
p("C52", "The verifier releases a transcript only if lengths, ranges and proofs agree",
  "The verifier's output contains transcript data only if the prover revealed it, its length and ranges match the authenticated connection, and the plaintext and commitment proofs succeed; a server name only if the handshake data verifies; any mismatch is an error.",
  ["inputs", "fault_sequences"], "all reveal combinations and mismatches within the bound",
  "Integration tests have an honest prover.",
  [N+"verifier/verify.rs"], [("proof verification", N+"verifier/verify.rs verify")])
p("C53", "Revealing with keys authenticates exactly the revealed plaintext",
  "When the session key is disclosed, plaintext is accepted only if it is the decryption of the recorded ciphertext at every revealed position, record by record with that record's nonce and block counter.",
  ["inputs"], "all record splits and revealed ranges within the bound",
  "Integration tests reveal whole transcripts.",
  [N+"transcript_internal/auth.rs"], [("plaintext verification", N+"transcript_internal/auth.rs verify_plaintext_with_key")])

# ---------------------------------------------------------------- sdk
p("C60", "SDK handlers reveal or commit only the parts they name",
  "For every handler the ranges selected lie inside the message part it names, reveal ranges and commit ranges are those of the respective handlers, a handler that does not apply to the message or contradicts itself is an error, and hiding options remove what they name.",
  ["inputs", "configurations"], "all handler configurations against parsed messages within the bound",
  "Tests use a few fixed messages.",
  [S+"handler/extract.rs", S+"handler/mod.rs"], [("range extraction", S+"handler/extract.rs"), ("reveal computation", S+"handler/mod.rs compute_reveal")])

# ---------------------------------------------------------------- out of reach
p("C70", "Two-party computation reveals nothing beyond its outputs",
  "Neither party of the two-party TLS session learns the other's session-key share or private input beyond what the protocol outputs.",
  ["inputs", "histories"], "all inputs and adversary strategies", "Secrecy is a statement about distributions, not about runs.",
  ["crates/components/deap/src/lib.rs", "crates/components/key-exchange/src/exchange.rs"], [("dual execution", "crates/components/deap/src/lib.rs"), ("key exchange", "crates/components/key-exchange/src/exchange.rs")])
p("C71", "Joint key derivation equals the TLS 1.2 key schedule",
  "The session keys and finished values computed jointly equal those the TLS 1.2 key schedule yields for the combined pre-master secret.",
  ["inputs"], "all secrets and randoms", "Tests compare fixed vectors.",
  ["crates/components/hmac-sha256/src/prf.rs"], [("joint PRF", "crates/components/hmac-sha256/src/prf.rs")])
p("C72", "Proxied and multiplexed sessions deliver each channel's bytes in order",
  "Under every interleaving of the protocol's asynchronous tasks each logical channel delivers its bytes in order and a closed or failed session wakes every waiting task.",
  ["schedules", "crash_points"], "every task interleaving", "Tests run one schedule each.",
  [N+"session.rs", N+"proxy.rs"], [("session driver", N+"session.rs")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
