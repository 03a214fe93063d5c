"""The properties: what they say, where they live, which harness entries decide them.

`gen_meta.py` writes properties.jsonl and MANIFEST.json from this table; check.py
runs the entries.  `bounds` is (quick, thorough).
"""

TESTS = "The tests sample "


def M(name, where):
    return {"name": name, "where": where}


PROPS = {}

PROPS["P01"] = dict(
    title="Body canonicalization is exactly RFC 6376's, for every body and chunking",
    statement="The bytes hashed for a message body are the body's simple or relaxed canonical form as RFC 6376 "
              "sections 3.4.3 and 3.4.4 define it, truncated at the declared length if there is one. They do not depend "
              "on how the body is split into chunks, and the reported number of canonical bytes and the done/not-done "
              "stance agree with them.",
    over=["inputs", "histories"],
    text="every body, every division into chunks, both algorithms, every length limit",
    why=TESTS + "a dozen hand-written bodies and splits; CR/LF/whitespace runs across chunk edges multiply without end",
    files=["src/canonicalize.rs", "src/message_hash.rs"],
    mech=[M("chunked canonicalizer with carried whitespace, CR and empty-line state", "src/canonicalize.rs BodyCanonicalizer"),
          M("truncating body hasher and its stance", "src/message_hash.rs BodyHasher")],
    groups=[dict(entries=["h_body_simple", "h_body_relaxed", "h_body_chunks", "h_body_runs", "h_body_scale", "h_hasher"],
                 reach=["body reduced to CRLF", "body reduced to nothing", "final whitespace-only line", "three chunks",
                        "long run", "very long run", "done early", "body too short", "unsigned content", "hashed"])],
    bounds=("all bodies of up to 8 (simple) / 6 (relaxed) bytes in one chunk; 5 bytes in up to 3 chunks at all cuts; "
            "runs of up to some hundred CRLF/space with 2 arbitrary bytes, of 65537 with one; hasher: bodies up to 3 bytes, 2 chunks, every "
            "limit",
            "bodies of up to 10/8 bytes; 7 bytes in up to 3 chunks; runs with 3 arbitrary bytes; hasher bodies up to 5"),
    outside="longer bodies with more than that many non-run bytes; the canonical form of a body whose last line is "
            "unterminated and consists of whitespace only under the relaxed algorithm is not fixed by this check (only "
            "its chunk independence is)",
    assumptions=["SHA-2 is an injective model: equal digests are equal inputs"],
)

PROPS["P02"] = dict(
    title="Header canonicalization and the signed header octets are RFC 6376's",
    statement="The octets signed for the header are, field by field, the simple or relaxed canonical form of RFC 6376 "
              "sections 3.4.1 and 3.4.2, each ended by CRLF, followed by the signature field in the same form with an "
              "empty signature value and no CRLF. Two fields which differ only in ways the algorithm ignores give the "
              "same octets, and no others do.",
    over=["inputs"],
    text="every header field name and body, both algorithms",
    why=TESTS + "the RFC's examples; folding, whitespace and case variants combine without end",
    files=["src/canonicalize.rs", "src/message_hash.rs"],
    mech=[M("relaxed and simple header canonicalization", "src/canonicalize.rs canonicalize_header*"),
          M("data hash input with the b= value removed", "src/message_hash.rs compute_data_hash")],
    groups=[dict(entries=["h_hdr_canon", "h_hdr_equiv", "h_hdr_datahash", "h_sound_header", "h_large_header"], reach=["folded and squeezed", "compared", "hashed", "long field"])],
    bounds=("names of 1-2 and values of up to 5 arbitrary bytes; data hash with a 3-byte field and 4-byte signature field" "; long names, words, runs of blanks and many lines (every size to 80, then round sizes to 600) around an arbitrary octet",
            "values of up to 7 bytes; data hash with 5-byte field and 5-byte signature field" "; sizes to 4100"),
    outside="longer values",
    assumptions=["SHA-2 is an injective model"],
)

PROPS["P03"] = dict(
    title="Signed header fields are selected from the bottom up, one per mention",
    statement="For any header and any list of signed header names the fields hashed are, for each mention of a name in "
              "list order, the lowest not yet used field of that name (compared ignoring case), and nothing when none "
              "is left. Both signing and verification use this selection.",
    over=["inputs"],
    text="every arrangement of header fields and every list of names, repetitions and absent names included",
    why=TESTS + "two or three arrangements of repeated names",
    files=["src/canonicalize.rs", "src/signer/sign.rs", "src/verifier/verify.rs"],
    mech=[M("selection of header fields by name, last occurrence first", "src/canonicalize.rs canonicalize_headers")],
    groups=[dict(entries=["h_hdr_select", "h_sound_fields", "h_e2e_select", "h_sound_self", "h_large_select", "h_large_names"], reach=["nothing selected", "several selected", "same", "different", "selected"])],
    bounds=("up to 3 fields of 3 names and lists of up to 4 names; signed against received arrangements of 3 fields" "; up to 300 fields or mentions, with an arbitrary letter",
            "up to 4 fields and lists of up to 5 names; all pairs of arrangements" "; up to 1100"),
    outside="more fields",
    assumptions=["SHA-2 and the signature primitive are injective models"],
)

PROPS["P05"] = dict(
    title="A signature verifies exactly when the signed header is what was signed",
    statement="Verification succeeds only if the signature value was made with the published key over the canonical form of "
              "the received signed header fields and of the signature's own field, and it does succeed then. Any change "
              "the canonicalization does not absorb, in a signed field, in the signature field, in the signature value or "
              "in the key, makes the result a failure.",
    over=["inputs"],
    text="every change of a header field, of the signature field at any place, of the signature and hash values",
    why=TESTS + "one altered message; an acceptance bug hides in one byte position of one tag",
    files=["src/verifier/verify.rs", "src/verifier/header.rs", "src/message_hash.rs", "src/tag_list.rs", "src/crypto/mod.rs"],
    mech=[M("signature verification against the recomputed data hash", "src/verifier/verify.rs, src/crypto/"),
          M("removal of the signature value from the field", "src/message_hash.rs, src/tag_list.rs")],
    groups=[dict(entries=["h_sound_header", "h_sound_fields", "h_sound_sigfield", "h_sound_b_value", "h_sound_hash_value",
                          "h_sound_sig_bytes", "h_sound_self", "h_sound_other_tag", "h_large_b", "h_large_index"],
                 reach=["same", "different", "rejected", "ill-formed", "verified", "wrong signature", "changed", "spread", "deep signature", "signed signatures"])],
    bounds=("header values of up to 3 bytes; one arbitrary byte replaced, inserted or removed at every second place of the "
            "signature field, 3 layouts; up to 2 arbitrary bytes in the b= value at 4 places; one arbitrary character "
            "anywhere in bh= and at 8 places in b=; RSA and Ed25519" "; signature values folded at every, every 4th or 64th character with up to 130 blanks; signatures below up to 300 fields",
            "header values of up to 4 bytes; every place; up to 3 arbitrary bytes at 6 places" "; 1100 blanks or fields"),
    outside="several simultaneous edits; forgery of the primitives themselves (ideal models)",
    assumptions=["SHA-2, Ed25519 and RSA verification are injective models: a signature verifies only for the key and hash it was made for"],
)

PROPS["P06"] = dict(
    title="The body hash decides over exactly the declared part of the body",
    statement="A signature with matching header verifies exactly when its body hash equals the hash of the canonical body "
              "received, cut at the declared length; a body shorter than that is a permanent error, a longer one fails as "
              "unsigned content where the configuration forbids that. Each signature of a message is judged on its own, "
              "whatever the others are.",
    over=["inputs", "histories", "configurations"],
    text="every body signed and received, every declared length, both algorithms, several signatures in one message",
    why=TESTS + "single bodies; length limits, chunk edges and several concurrent hashes interact",
    files=["src/verifier/mod.rs", "src/message_hash.rs"],
    mech=[M("per-signature body hash comparison", "src/verifier/mod.rs finish"),
          M("shared body hashers for several signatures", "src/message_hash.rs")],
    groups=[dict(entries=["h_sound_body", "h_sound_length", "h_sound_multi", "h_hasher", "h_sound_hash_value", "h_large_length", "h_large_alone"],
                 reach=["same", "different", "too short", "unsigned content", "prefix", "success", "done early", "long enough", "many"])],
    bounds=("bodies of up to 3 arbitrary bytes signed and received; lengths 0 to 5; 2 signatures of 7 kinds each" "; lengths around every power of two and around those of bodies of up to 5000 octets; up to 7 signatures with different parts covered",
            "bodies of up to 4 bytes; up to 3 signatures" "; 9000 octets, 12 signatures"),
    outside="longer bodies (see P01 for their canonicalization)",
    assumptions=["SHA-2, Ed25519 and RSA verification are injective models"],
)

PROPS["P07"] = dict(
    title="Tag lists are parsed exactly as RFC 6376's grammar says",
    statement="A tag list is accepted exactly when it matches the tag=value grammar with folding whitespace allowed where "
              "the grammar allows it and no tag name occurs twice; accepted lists yield every tag with its exact value, "
              "and unknown tags are kept. Anything else is reported as a malformed tag list.",
    over=["inputs"],
    text="every character string",
    why=TESTS + "some good and bad lists; the grammar's whitespace places and terminators combine without end",
    files=["src/tag_list.rs", "src/parse.rs", "src/signature.rs"],
    mech=[M("tag list parser", "src/tag_list.rs TagList::from_str"), M("folding whitespace", "src/parse.rs")],
    groups=[dict(entries=["h_taglist_any", "h_taglist_after", "h_taglist_utf8", "h_taglist_fws", "h_taglist_sig",
                          "h_tag_duplicates", "h_tag_known_once", "h_large_tags"],
                 reach=["extension tag kept", "ill-formed", "repeated", "long list"])],
    bounds=("all ASCII strings of up to 5 characters, also as continuation of a valid list; values of up to 3 arbitrary bytes "
            "(UTF-8); runs of up to 6 whitespace octets; repeated names" "; long values, names, lists and runs of blanks (every size to 80, then round sizes to 1100) around an arbitrary character",
            "6 characters; 4 bytes; 8 whitespace octets" "; sizes to 4100"),
    outside="longer arbitrary strings",
)

PROPS["P08"] = dict(
    title="DKIM-Signature values are parsed and refused as the RFC requires",
    statement="Each tag of a signature field is accepted exactly when its value has the form RFC 6376 (with RFC 8463 and "
              "RFC 8616) gives it, with the stated default when absent, and the parsed value is the one written. Missing "
              "required tags, an expiration not after the timestamp, and an identity outside the signing domain are "
              "errors, each reported as what it is.",
    over=["inputs"],
    text="every value of every tag of a signature field",
    why=TESTS + "a few values per tag; numbers, whitespace, case and list separators have their own edge values",
    files=["src/signature.rs", "src/tag_list.rs"],
    mech=[M("signature parser", "src/signature.rs DkimSignature::from_tag_list"),
          M("value parsers", "src/tag_list.rs parse_*")],
    groups=[dict(entries=["h_sig_v", "h_sig_a", "h_sig_c", "h_sig_b64", "h_sig_h", "h_sig_number", "h_sig_x_after_t", "h_sig_q",
                          "h_sig_z", "h_sig_i_local", "h_sig_i_domain", "h_sig_names", "h_sig_required", "h_sig_salvage", "h_alg_names", "h_large_values"],
                 reach=["accepted", "subdomain", "mismatch", "missing", "salvaged", "algorithm", "canonicalization", "names", "copied", "data", "zeros"])],
    bounds=("per tag all values of up to 3-4 arbitrary characters (plus fixed frames that reach the long forms: 64-bit "
            "numbers, algorithm and canonicalization names, domains)" "; up to 130 signed names, 78 copied fields, 600 octets of data, 76 digits", "up to 4-5 characters" "; up to 400 names, 130 copied fields, 1100 octets"),
    outside="longer arbitrary values; internationalised domains beyond the tested shapes (see P22)",
    assumptions=["the IDNA library is replaced for ASCII domains without 'xn--' by lower-casing (compared with the original in P22)"],
)

PROPS["P09"] = dict(
    title="Key records are parsed and refused as the RFC requires",
    statement="Each tag of a public key record is accepted exactly when its value has the form RFC 6376 gives it, with the "
              "stated default when absent and unknown hash algorithms, service types and flags ignored, and the parsed "
              "value is the one written. A version tag not at the start, a missing key and an ill-formed value are errors.",
    over=["inputs"],
    text="every value of every tag of a key record",
    why=TESTS + "a few records",
    files=["src/record.rs", "src/tag_list.rs"],
    mech=[M("key record parser", "src/record.rs DkimKeyRecord::from_tag_list")],
    groups=[dict(entries=["h_rec_v", "h_rec_k", "h_rec_h", "h_rec_s", "h_rec_t", "h_rec_n", "h_rec_p", "h_rec_required", "h_large_lists"],
                 reach=["accepted", "long list"])],
    bounds=("per tag all values of up to 3-4 arbitrary characters in fixed frames" "; lists of up to 130 items with one known", "up to 4-5 characters" "; 400"),
    outside="longer arbitrary values",
)

PROPS["P14"] = dict(
    title="DKIM-Quoted-Printable encodes reversibly and decodes exactly",
    statement="Encoding any octets as DKIM-Quoted-Printable gives only characters safe in a tag value and decodes to the same "
              "octets; decoding accepts exactly the well-formed texts, ignores folding whitespace and yields the octets "
              "meant. Copied header fields and identities go through this encoding.",
    over=["inputs"],
    text="every octet string and every text",
    why=TESTS + "a few strings; each octet value and escape position is a case of its own",
    files=["src/quoted_printable.rs", "src/signature.rs", "src/signer/format.rs"],
    mech=[M("encoder and decoder", "src/quoted_printable.rs")],
    groups=[dict(entries=["h_qp_decode", "h_qp_decode_utf8", "h_qp_roundtrip", "h_qp_utf8", "h_e2e_copied", "h_large_qp"],
                 reach=["decoded", "plain", "escaped", "escape", "encoded", "long"])],
    bounds=("texts of up to 4 and data of up to 2 arbitrary bytes, in frames" "; data of up to 1100 octets ending in an arbitrary one", "texts of 5 and data of 3 bytes" "; 4100"),
    outside="longer texts; whether lower-case hexadecimal digits are accepted is not fixed by this check",
)

PROPS["P15"] = dict(
    title="Base64 values are decoded and encoded exactly",
    statement="Signature, hash and key values are decoded from base64 ignoring folding whitespace, to the octets meant, and "
              "anything that is not base64 with correct padding is refused. Encoding any octets gives text that decodes "
              "to them.",
    over=["inputs"],
    text="every octet string and every text",
    why=TESTS + "a few values",
    files=["src/util.rs", "src/tag_list.rs"],
    mech=[M("base64 coding", "src/util.rs"), M("base64 tag values with folding whitespace", "src/tag_list.rs parse_base64_value")],
    groups=[dict(entries=["h_b64_decode", "h_b64_encode", "h_sig_b64", "h_rec_p", "h_large_base64"], reach=["decoded", "accepted", "long"])],
    bounds=("texts of up to 4 arbitrary characters after a fixed prefix; data of up to 4 bytes" "; data of up to 1100 octets", "texts of 5; data of 6 bytes" "; 4100"),
    outside="longer data; non-zero unused bits in the last character are not fixed by this check",
)

PROPS["P16"] = dict(
    title="Header fields are recognised, validated and split as RFC 5322 says",
    statement="A header field name or body is accepted exactly when it is well-formed, names compare ignoring ASCII case and "
              "hash accordingly, and a text header block is split into exactly its fields with names and bodies "
              "unchanged, or refused. Accepted fields are reproduced unchanged.",
    over=["inputs"],
    text="every name, body and header text",
    why=TESTS + "a few headers; folding, bare CR or LF and whitespace-only lines combine without end",
    files=["src/header.rs"],
    mech=[M("field name and body validation", "src/header.rs FieldName, FieldBody"),
          M("header block parser", "src/header.rs HeaderFields::from_str")],
    groups=[dict(entries=["h_field_name", "h_field_name_eq", "h_field_body", "h_header_block", "h_header_block2", "h_large_field"],
                 reach=["valid name", "invalid name", "equal", "different", "folded body", "invalid body", "two fields",
                        "continuation", "rejected", "long name", "long line", "many lines", "many blanks"])],
    bounds=("names of up to 4, bodies of up to 5, header texts of 5 arbitrary bytes, plus framed two-field texts" "; long names, lines, runs of blanks and many lines (every size to 80, then round sizes to 1100) around an arbitrary octet",
            "names of 5, bodies of 7, texts of 6 bytes" "; sizes to 4100"),
    outside="longer texts",
)

MODELS = ["SHA-2, Ed25519 and RSA are injective models: a signature verifies only for the key and hash it was made for"]

PROPS["P04"] = dict(
    title="What the signer signs, any verifier accepts",
    statement="A message signed through the library, with the produced header field placed on top, verifies as a success "
              "under an independent implementation of the RFC and under the library itself, whatever the message, the "
              "signed header selection, canonicalization, algorithm, body length option, names and number of requests.",
    over=["inputs", "configurations"],
    text="every message and every accepted combination of signing options",
    why=TESTS + "a few messages with default options",
    files=["src/signer/mod.rs", "src/signer/sign.rs", "src/signer/format.rs", "src/verifier/mod.rs", "src/message_hash.rs"],
    mech=[M("signing: selection, hashing, formatting, insertion of the signature", "src/signer/sign.rs perform_signing"),
          M("verification of the produced field", "src/verifier/")],
    groups=[dict(entries=["h_e2e_content", "h_e2e_select", "h_e2e_names", "h_e2e_length", "h_e2e_multi", "h_e2e_copied",
                          "h_e2e_format", "h_e2e_width", "h_e2e_large"],
                 reach=["verified", "body too short"])],
    bounds=("header value and body of up to 3 arbitrary bytes; all canonicalizations, body lengths, header selections over "
            "up to 3 fields; up to 3 requests of 5 kinds; 14 line widths up to 120; single large messages (258 fields, long values, bodies, names) with one arbitrary byte",
            "4 bytes; 4 fields; 4 requests; line widths up to 120"),
    outside="longer messages; extension tags (P17); expiration handling (P12, P17)",
    assumptions=MODELS,
)

PROPS["P10"] = dict(
    title="A key record is applied to a signature as its tags say",
    statement="A key is used for a signature exactly when its type and hash algorithms fit the signature's algorithm, it is "
              "not revoked, a strict record does not see an identity in a subdomain, and the key is well-formed and large "
              "enough for the RFC's and the configured minimum. Of several records under the name each is tried, one "
              "success suffices, and the failure reported is that of a record tried.",
    over=["inputs", "configurations"],
    text="every combination of record tags, key, configured minimum and signature, several records included",
    why=TESTS + "a few records one by one",
    files=["src/verifier/verify.rs", "src/verifier/header.rs", "src/crypto/rsa.rs", "src/crypto/mod.rs"],
    mech=[M("checks of a key record against a signature", "src/verifier/verify.rs perform_verification"),
          M("key sizes", "src/crypto/rsa.rs, src/crypto/mod.rs validate_min_key_size")],
    groups=[dict(entries=["h_key_apply", "h_key_strict", "h_key_size", "h_key_multi", "h_key_data", "h_large_record"],
                 reach=["allowed", "refused", "same domain", "subdomain", "too small", "smaller than configured",
                        "large enough", "later record good", "none good", "each with its own record", "right key",
                        "other key", "not base64", "long record"])],
    bounds=("all combinations of types, hash lists with an arbitrary 2-byte token, flags; RSA keys of 512 to 2048 bits "
            "around 1024; every configured minimum; up to 3 records of 10 kinds, 2 signatures" "; records of up to 2100 octets",
            "3-byte tokens; up to 4 records" "; 17000 octets"),
    outside="other key sizes; more records than three are not all tried by design (first two and last)",
    assumptions=MODELS,
)

PROPS["P11"] = dict(
    title="Local policy on signed headers is enforced exactly",
    statement="With a valid signature, verification succeeds exactly when every header name the configuration requires is in "
              "the signed list and no occurrence of the names that must not be unsigned is left out of it, names compared "
              "ignoring case; otherwise the result is a policy failure that says which rule. A header field added to a "
              "protected name never goes unnoticed.",
    over=["inputs", "configurations"],
    text="every configuration of names, every header and every signed header list",
    why=TESTS + "two or three configurations",
    files=["src/verifier/header.rs", "src/verifier/mod.rs"],
    mech=[M("required and forbidden-unsigned header names", "src/verifier/header.rs validate_signed_headers")],
    groups=[dict(entries=["h_policy_required", "h_policy_unsigned", "h_policy_from", "h_large_unsigned", "h_large_names"],
                 reach=["signed", "not signed", "all signed", "unsigned occurrence", "added From", "added other", "many signed", "one of many unsigned"])],
    bounds=("up to 3 configured names and headers of up to 5 fields, with arbitrary names of 1 byte, arbitrary signed name" "; up to 100 occurrences, all or all but one signed, below up to 70 others",
            "names of up to 2 bytes" "; 300 occurrences below 300 others"),
    outside="longer arbitrary names, more fields",
    assumptions=MODELS,
)

PROPS["P12"] = dict(
    title="Expired and premature signatures are refused exactly as configured",
    statement="A valid signature is refused as expired exactly when the time, less the tolerance, has reached x= and expired "
              "signatures are not allowed, and as premature exactly when t= lies beyond now plus the tolerance and such "
              "timestamps are not allowed, for any times and tolerances without overflow; the fixed time of the "
              "configuration is used if set, the system clock otherwise.",
    over=["inputs", "clocks", "configurations"],
    text="every 64-bit t= and x=, every tolerance, every current time",
    why=TESTS + "a few times; the boundary seconds and the extremes are single values",
    files=["src/verifier/header.rs", "src/verifier/mod.rs"],
    mech=[M("timestamp and expiration checks", "src/verifier/header.rs validate_signature")],
    groups=[dict(entries=["h_time", "h_time_edge"], reach=["expired", "from the future", "in time", "x before t", "before the epoch"])],
    bounds=("t= and x= of up to 2 arbitrary digits at various places of the 64-bit range, all 64-bit tolerances and times",
            "more digits"),
    outside="other digits of the numbers (parsing of numbers: P08)",
    assumptions=MODELS,
)

PROPS["P13"] = dict(
    title="Key lookups use the right names, and answers reach the right signatures",
    statement="For each distinct A-label selector and domain pair of the signatures still in question, and no other, one "
              "query is made for selector._domainkey.domain. with that exact name. Each signature is judged by the answer to its own name, "
              "whatever happens to other lookups and however long they take. Not-found, timeout, invalid name and other "
              "errors become the stated results; no more than the configured number of signatures is looked at, from the "
              "top; a lookup is given up after the configured time.",
    over=["inputs", "schedules", "faults", "configurations"],
    text="every combination of signatures, names, answers, lookup errors, delays and limits",
    why=TESTS + "single lookups with one answer",
    files=["src/verifier/query.rs", "src/verifier/header.rs", "src/verifier/lookup/mod.rs"],
    mech=[M("grouping of lookups by name, distribution of answers", "src/verifier/query.rs, src/verifier/header.rs"),
          M("limit on signatures", "src/verifier/header.rs find_signatures")],
    groups=[dict(entries=["h_lookup", "h_lookup_max", "h_lookup_errors", "h_lookup_names", "h_lookup_idn", "h_lookup_answer", "h_lookup_name", "h_lookup_timeout", "h_lookup_pending", "h_key_multi", "h_large_lookup"],
                 reach=["shared name", "different answers", "no lookup for a refused signature", "limited", "all", "none",
                        "not found", "timed out", "other", "either form", "record used", "record refused", "polled", "slow success", "asked", "many keys"])],
    bounds=("up to 3 signatures over 5 domains and 3 selectors in several spellings, arbitrary bytes in names, 6 kinds of "
            "answer, delays of up to 2 polls, 4 hash seeds, every 64-bit maximum" "; up to 12 signatures with 4 keys or one key each; 6 labels in Unicode or ASCII form, two by two; records of which 2 octets are arbitrary",
            "up to 4 signatures; 8 hash seeds" "; up to 40 with 12"),
    outside="the bundled DNS resolver adapter (optional feature, needs a network)",
    assumptions=MODELS,
)

PROPS["P17"] = dict(
    title="Generated signature fields are well-formed and say what was asked",
    statement="Every header field the signer produces parses as a DKIM-Signature whose tags are exactly the requested "
              "values, keeps to the requested tag order, indentation and line width where folding can, contains no bare "
              "CR or LF nor an empty line, is ASCII only if so asked, and prints the same as it is added to the header.",
    over=["inputs", "configurations"],
    text="every request the signer accepts",
    why=TESTS + "some requests; fold points move with each length",
    files=["src/signer/format.rs", "src/signer/sign.rs", "src/signer/mod.rs", "src/quoted_printable.rs"],
    mech=[M("formatting and folding", "src/signer/format.rs"), M("insertion of the signature value", "src/signer/format.rs insert_signature_data")],
    groups=[dict(entries=["h_e2e_format", "h_e2e_width", "h_e2e_ext", "h_e2e_copied", "h_e2e_time", "h_e2e_names", "h_e2e_length", "h_e2e_select", "h_e2e_large", "h_large_names"],
                 reach=["verified", "refused", "valid", "not valid", "no time left"])],
    bounds=("6 tag orders, several indentations, 14 line widths up to 120, extension values of up to 2 "
            "arbitrary characters, copied header values of up to 3 arbitrary bytes, timestamps up to 2^64-1; names of up to 140 octets in any case",
            "one more character each"),
    outside="an extension tag called q (the request then says what it means)",
    assumptions=MODELS,
)

PROPS["P18"] = dict(
    title="Signing requests are accepted exactly when they can be honoured",
    statement="Signing requests are refused, each with the error that says why, when there are none or too many, the message "
              "has no From field, key and algorithm differ in type, From is not signed, a name, domain, identity, extension "
              "tag, header name, indentation or duration is unusable; all others are accepted.",
    over=["inputs", "configurations"],
    text="every request",
    why=TESTS + "one example per error",
    files=["src/signer/mod.rs"],
    mech=[M("request validation", "src/signer/mod.rs validate_request, Signer::prepare_signing")],
    groups=[dict(entries=["h_request", "h_request_format", "h_request_names", "h_request_identity", "h_request_count", "h_e2e_ext", "h_large_requests", "h_request_duration"],
                 reach=["accepted", "refused", "duration", "too short", "header name", "indentation", "no From", "semicolon", "too many", "verified"])],
    bounds=("arbitrary names, indentation, header name and extension tags of up to 3 bytes; up to 12 requests" "; ten requests with different parts of the body covered; 8 numbers of seconds with any fraction",
            "one more byte each"),
    outside="longer values",
    assumptions=MODELS,
)

PROPS["P19"] = dict(
    title="Each failure is reported as what it is and maps to the right result",
    statement="A fault in the signature field, the key record, the signature, the body or local policy is reported as that "
              "fault, wherever it stands and whatever else the message holds, and maps to the documented result: pass only for "
              "success, fail only for a cryptographic mismatch, temperror only for lookups that may succeed later, policy "
              "only for local policy, neutral or permerror for the rest; results print as RFC 8601 spells them.",
    over=["inputs", "faults"],
    text="every fault, in every order of tags and records",
    why=TESTS + "a few faults",
    files=["src/verifier/mod.rs", "src/signature.rs", "src/record.rs", "src/verifier/verify.rs"],
    mech=[M("classification of verification errors", "src/verifier/mod.rs VerificationStatus::to_dkim_result")],
    groups=[dict(entries=["h_class_format", "h_class_key", "h_lookup_errors", "h_key_multi"],
                 reach=["neutral", "permanent error", "fail", "policy", "not found", "timed out", "other"])],
    bounds=("31 faults of the signature field in 15 tag orders, 22 faults of key, body and policy with up to 2 other records "
            "before, 20 kinds of lookup error", "the same"),
    outside="messages with several faults at once",
    assumptions=MODELS,
)

PROPS["P20"] = dict(
    title="Stopping body processing when told so changes nothing",
    statement="Once a verifier or signer says that it needs no more of the body, it keeps saying so, and its results are the same "
              "whether the client feeds the rest or not; it never says so while the rest could matter.",
    over=["inputs", "histories"],
    text="every body, division into chunks, length limit and combination of signatures or requests",
    why=TESTS + "one early stop",
    files=["src/message_hash.rs", "src/verifier/mod.rs", "src/signer/mod.rs", "src/crypto/hash.rs"],
    mech=[M("body hasher stance", "src/message_hash.rs BodyHasher::hash_chunk"), M("counting hasher", "src/crypto/hash.rs CountingHasher")],
    groups=[dict(entries=["h_stop_verify", "h_stop_sign", "h_hasher", "h_large_alone", "h_large_requests"],
                 reach=["stopped early", "verified", "refused", "error", "done early", "many", "signed"])],
    bounds=("bodies of up to 3 arbitrary bytes in 3 chunks, limits 0 to 4, up to 2 signatures or requests, unsigned content "
            "allowed or not" "; up to 12 signatures and 10 requests with different parts covered", "bodies of up to 5 bytes" "; 12 signatures"),
    outside="longer bodies; how early the processor says so",
    assumptions=MODELS,
)

PROPS["P21"] = dict(
    title="Untrusted input never causes a panic and always gets an answer",
    statement="Whatever the header, the signature fields, the body and the key records contain, verification ends without a "
              "panic or arithmetic overflow, with exactly one result per signature, and a success always comes with the "
              "signature and key record it rests on. Parsing any text ends with a value or an error.",
    over=["inputs"],
    text="every header, body, key record and text",
    why=TESTS + "well-behaved inputs; a panic hides behind one byte at one place",
    files=["src/tag_list.rs", "src/parse.rs", "src/signature.rs", "src/record.rs", "src/header.rs", "src/verifier/mod.rs",
           "src/verifier/verify.rs", "src/canonicalize.rs", "src/crypto/mod.rs"],
    mech=[M("the whole verification path", "src/verifier/"), M("parsers", "src/tag_list.rs, src/parse.rs, src/signature.rs, src/record.rs")],
    groups=[dict(entries=["h_rob_short", "h_rob_mutated", "h_rob_record", "h_rob_numbers", "h_rob_keydata", "h_rob_text", "h_rob_message", "h_lookup", "h_sound_self"],
                 reach=["done", "success", "failure", "short", "long", "key", "no key"])],
    bounds=("signature values of up to 3 arbitrary bytes alone and next to a valid one; a complete signature or record with a "
            "byte replaced, inserted or the rest cut at every third or second place; key data with an arbitrary byte at 25 places; "
            "texts of 3-4 arbitrary bytes to every parser", "4 bytes; every place, 2 bytes"),
    outside="longer arbitrary content; panics inside the replaced cryptographic primitives and IDNA tables",
    assumptions=MODELS,
)

PROPS["P23"] = dict(
    title="With the pre-RFC 8301 option, SHA-1 is accepted only where configured",
    statement="Built with the option, RSA with SHA-1 and keys from 512 bits can be used for signing and verification with the "
              "same exactness as the others, but a SHA-1 signature is a policy failure unless the configuration allows it, "
              "and key records and configured minimum sizes are still obeyed.",
    over=["inputs", "configurations"],
    text="every combination of algorithm, key, key record and configuration",
    why=TESTS + "the hash functions only",
    files=["src/signature.rs", "src/verifier/header.rs", "src/crypto/rsa.rs", "src/crypto/hash.rs", "src/record.rs"],
    mech=[M("SHA-1 policy", "src/verifier/header.rs validate_signature"), M("algorithms behind the feature", "src/crypto/")],
    groups=[dict(entries=["h_legacy_policy", "h_legacy_sound", "h_legacy_sign", "h_legacy_names", "h_key_size"], features=("legacy",),
                 reach=["refused", "not allowed by the key", "small", "verified with SHA-1", "verified", "other body",
                        "other header", "same", "algorithm", "none supported", "large enough", "smaller than configured"])],
    bounds=("4 algorithms, 5 hash lists, 3 keys, every configured minimum; header values of up to 2 and bodies of 1 arbitrary "
            "bytes", "header values of up to 3 bytes"),
    outside="longer content (shared with the other algorithms: P01 to P06)",
    assumptions=["SHA-1 and SHA-2, Ed25519 and RSA are injective models"],
)

PROPS["P24"] = dict(
    title="Keys are read in the formats stated and refused otherwise",
    statement="Private keys are read from PKCS#8 PEM documents holding an RSA or Ed25519 key, public keys from "
              "SubjectPublicKeyInfo or the algorithm's own format; they are the keys meant, with their true size and "
              "type, and anything else is refused with the error that says why.",
    over=["inputs"],
    text="every key text and every key data",
    why=TESTS + "one key per format",
    files=["src/crypto/mod.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs"],
    mech=[M("key import", "src/crypto/mod.rs SigningKey::from_pkcs8_pem, VerifyingKey::from_key_data")],
    groups=[dict(entries=["h_key_data_ed", "h_pem", "h_key_data", "h_key_size", "h_rob_keydata", "h_key_der"],
                 reach=["accepted", "refused", "ed25519", "rsa", "right key", "other key", "not base64", "key", "no key"])],
    bounds=("an arbitrary byte at chosen places of the PEM document, at every type and length octet of the DER form of public keys, and up to 2 behind it; short arbitrary data", "more places; up to 4 behind it"),
    outside="curve points outside the prime-order group; RSA keys with unusual but valid parameters",
    assumptions=MODELS,
)

PROPS["P22"] = dict(
    title="Domain names, selectors and identities are validated and compared correctly",
    statement="A domain name, selector or identity is accepted exactly when it is well-formed within DNS length limits, in "
              "U-label or A-label form; names compare and hash ignoring ASCII case, and the subdomain relation holds "
              "exactly when one name in A-label form ends in the labels of the other.",
    over=["inputs"],
    text="every character string, every pair of names",
    why=TESTS + "a few names; label boundaries, lengths and hyphen/digit/underscore places are edge cases",
    files=["src/signature.rs"],
    mech=[M("domain and selector validation", "src/signature.rs DomainName, Selector, is_valid_domain_string"),
          M("subdomain comparison", "src/signature.rs DomainName::is_subdomain_of")],
    groups=[dict(entries=["h_domain_new", "h_domain_len", "h_domain_relations", "h_domain_idn", "h_identity_new", "h_identity_len",
                          "h_idna_model_deep"],
                 reach=["domain", "selector", "longest name", "longest label", "subdomain", "equal", "compared", "accepted",
                        "rejected", "longest"])],
    bounds=("names of up to 4 arbitrary ASCII characters plus frames, label lengths 62-64 and name lengths about 253; pairs of "
            "names of up to 3 and 2 arbitrary bytes; fixed internationalised names", "5 characters; pairs of 4 and 3"),
    outside="arbitrary non-ASCII names (IDNA tables)",
    assumptions=["the IDNA library is replaced for ASCII domains without 'xn--' by lower-casing; the thorough tier compares "
                 "this with the original library symbolically"],
)

PROPS["P25"] = dict(
    title="Printed values are faithful, read back, and free of control characters",
    statement="Names, identities, field names, algorithms and canonicalizations print as the text they are read from, and "
              "reading that text gives the same value again. The debug form of a signature or key record ends without a "
              "panic for any content, shows binary and untrusted content so that it can be read back exactly, and never "
              "contains a raw control character.",
    over=["inputs"],
    text="every value",
    why=TESTS + "a few strings; broken UTF-8, quotes and escapes meet in untrusted header content that ends up in logs",
    files=["src/util.rs", "src/signature.rs", "src/record.rs", "src/header.rs"],
    mech=[M("printing of byte strings", "src/util.rs BytesDebug, Base64Debug, next_utf8_chunk"),
          M("text forms", "src/signature.rs, src/record.rs, src/header.rs Display, FromStr, Debug")],
    groups=[dict(entries=["h_print_names", "h_print_identity", "h_print_signature", "h_print_record", "h_alg_names"],
                 reach=["domain", "selector", "field name", "identity", "bytes", "signature", "record", "algorithm", "canonicalization"])],
    bounds=("names of up to 3 arbitrary ASCII characters, copied content of one arbitrary byte (ASCII or never valid) among "
            "broken and valid multi-byte sequences, extension values of one ASCII character, key data of up to 2 bytes",
            "one more byte each"),
    outside="longer content; which non-ASCII characters are printed as they are (Unicode tables of the standard library)",
    assumptions=[],
)

PROPS["P26"] = dict(
    title="Signatures survive transit changes DKIM tolerates, and no others",
    statement="A signed message still verifies after any sequence of changes its canonicalization and declared length "
              "tolerate: unsigned fields added, removed or moved, other signatures put on top, names re-cased and fields "
              "refolded under relaxed, trailing empty lines, blanks widened under relaxed, content after the declared "
              "length. A change to a signed field, an addition where the signature states absence, or a change of "
              "covered body content breaks it, before or after any of those.",
    over=["inputs", "histories"],
    text="every sequence of relay actions",
    why=TESTS + "messages that arrive as they were sent",
    files=["src/canonicalize.rs", "src/message_hash.rs", "src/verifier/header.rs", "src/signer/sign.rs"],
    mech=[M("canonical forms", "src/canonicalize.rs"), M("header selection from the bottom", "src/canonicalize.rs canonicalize_headers"),
          M("body length", "src/message_hash.rs BodyHasher")],
    groups=[dict(entries=["h_transit", "h_transit_harm"], reach=["appended", "survived", "broken"], time=400)],
    bounds=("3 messages, 4 canonicalizations, with and without declared length; two changes of 11 kinds at all places with "
            "arbitrary bytes, or one of these and one harmful one of 8 kinds, in either order",
            "three changes"),
    outside="more changes; bytes changed within folding white space of a signed field (P02, P05)",
    assumptions=MODELS,
)

PROPS["P27"] = dict(
    title="Signatures and signing requests do not influence each other",
    statement="Whatever other signatures a message carries, each one that is looked at gets the status, signature data and key "
              "record it would get alone; whatever else is requested, each signing request gives the result, octet for octet, "
              "it would give alone.",
    over=["inputs", "configurations"],
    text="every combination of signatures and of requests",
    why=TESTS + "few messages with several signatures; shared body hashers, lookups and records couple them",
    files=["src/verifier/mod.rs", "src/verifier/header.rs", "src/verifier/verify.rs", "src/message_hash.rs", "src/signer/mod.rs", "src/signer/sign.rs"],
    mech=[M("body hashers shared by canonicalization, algorithm and length", "src/message_hash.rs BodyHasherBuilder, BodyHashResults"),
          M("lookups shared by name", "src/verifier/query.rs")],
    groups=[dict(entries=["h_alone_verify", "h_alone_sign", "h_large_alone", "h_large_requests", "h_large_index"], reach=["success", "failure", "signed", "error", "many", "deep signature"])],
    bounds=("every pair of 19 kinds of signature in 2 places and of 9 kinds of request; one arbitrary body byte (verifier), up to 2 "
            "(signer); unsigned content allowed or not" "; up to 12 signatures and 10 requests with different parts covered, the body in two chunks; signatures below up to 300 fields",
            "every triple"),
    outside="more signatures at once; signatures that sign other signatures (P05)",
    assumptions=MODELS,
)

PROPS["P28"] = dict(
    title="What is not asked for is as documented",
    statement="Without other instructions, exactly the fields whose names are in the documented set are signed, all of their "
              "occurrences, bottom up; a signature is relaxed/simple, made now, valid five days, without other tags, in the "
              "documented layout; the verifier judges every message as it would with the documented limits, tolerance and "
              "policy spelled out. Header selections give all matching fields in reverse.",
    over=["inputs", "configurations"],
    text="every field name, time and message",
    why=TESTS + "the usual field names",
    files=["src/signer/mod.rs", "src/verifier/mod.rs", "src/signer/format.rs"],
    mech=[M("default request, format and header sets", "src/signer/mod.rs SignRequest::new, default_signed_headers, select_headers"),
          M("default configuration", "src/verifier/mod.rs Config::default")],
    groups=[dict(entries=["h_default_select", "h_default_sign", "h_default_config"],
                 reach=["signed", "not signed", "accepted", "refused"])],
    bounds=("26 names with an arbitrary byte at 3 places or at the end; timestamps about the limits with one digit free; 4 kinds of message",
            "the same"),
    outside="names further away from those",
    assumptions=MODELS,
)

PROPS["P29"] = dict(
    title="The building blocks put together give what the verifier and signer give",
    statement="Clients can use the parts directly: a hasher with a limit hashes exactly the first octets up to it and says when it is "
              "full or fed too little; a body hasher answers exactly the requests registered, each as if alone, and stays done once "
              "done; exactly the signature made with a key over a hash verifies; canonicalization, hashing and signing put together "
              "by a client verify, and give the verifier's verdict.",
    over=["inputs", "configurations"],
    text="every data, chunking, limit and set of registrations",
    why=TESTS + "one use of each part",
    files=["src/message_hash.rs", "src/crypto/hash.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs", "src/canonicalize.rs", "src/quoted_printable.rs"],
    mech=[M("counting hasher", "src/crypto/hash.rs CountingHasher"),
          M("body hasher registrations", "src/message_hash.rs BodyHasherBuilder, BodyHasher, body_hasher_key, compute_data_hash"),
          M("primitives", "src/crypto sign_rsa, verify_rsa, sign_ed25519, verify_ed25519, read_*")],
    groups=[dict(entries=["h_block_counter", "h_block_hashers", "h_block_primitives", "h_block_client", "h_block_qp_section", "h_hasher"],
                 reach=["hashed", "too little", "truncated", "verified", "refused", "decoded"])],
    bounds=("4 arbitrary octets in up to 3 chunks under any limit; up to 2 registrations out of 10 kinds over a body of 3 arbitrary "
            "octets; one octet of hash or signature changed; one octet of subject and two of body in the composed message",
            "6 octets, 3 registrations, bodies of 4"),
    outside="more registrations at once",
    assumptions=MODELS,
)

PROPS["P30"] = dict(
    title="Local policy only refuses, and loosening it only accepts more",
    statement="For one message and its key record, whatever verifies under a configuration verifies with the same data under every "
              "configuration that asks for less (shorter lists, smaller minimum key size, greater tolerance, more allowed); a "
              "failure that is not a policy failure stays the same; and with nothing asked for, nothing fails for policy. The limit "
              "on signatures cuts off the results beyond it and changes no other.",
    over=["inputs", "configurations"],
    text="every message and every pair of configurations",
    why=TESTS + "a few single settings, never two configurations against each other",
    files=["src/verifier/mod.rs", "src/verifier/header.rs", "src/message_hash.rs"],
    mech=[M("policy checks on signature, key and body", "src/verifier/header.rs validate_signature, validate_verifying_key; src/verifier/mod.rs finish")],
    groups=[dict(entries=["h_strict_policy", "h_strict_limit"], reach=["refused", "accepted", "failed", "limited", "none"])],
    bounds=("17 kinds of signature, more or no more content than signed; each aspect of policy on its own and all together, with any "
            "key size, tolerance (seconds), time and limit as numbers; up to 2 signatures under the limit",
            "up to 3 signatures under the limit"),
    outside="several key records under one name, where a record refused by policy lets a later one decide (P10); SHA-1 (P23)",
    assumptions=MODELS,
)

PROPS["P31"] = dict(
    title="Nothing carries over from one message to another",
    statement="Each verification and each signing gives the result that its own message, answers, keys, configuration and time "
              "call for, whatever messages the program handled before, gave up half-way or was refused, and whatever others it "
              "handles meanwhile, in whatever order their steps are taken.",
    over=["histories", "schedules", "inputs"],
    text="every sequence and interleaving of messages",
    why=TESTS + "one message each",
    files=["src/verifier/mod.rs", "src/verifier/header.rs", "src/verifier/query.rs", "src/message_hash.rs", "src/signer/mod.rs", "src/signer/sign.rs"],
    mech=[M("verifier from lookup to finish", "src/verifier/mod.rs Verifier"), M("signer from request to signature", "src/signer/mod.rs Signer")],
    groups=[dict(entries=["h_again_before", "h_again_meanwhile"], reach=["verified", "failed", "signed", "given up"])],
    bounds=("2 in a row out of 24 kinds of verification, 7 of signing and 6 given up or refused; 2 verifications and a signer at a "
            "time, in 4 orders of lookup and 2 of body parts; one arbitrary body byte",
            "3 in a row; 6 orders of lookup and of body parts"),
    outside="longer histories; several threads (every step of one message has its own values, nothing is shared: Rust's type system)",
    assumptions=MODELS,
)

PROPS = dict(sorted(PROPS.items()))
