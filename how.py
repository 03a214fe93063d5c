"""How each property is decided (for DESIGN.md; gen_meta.py puts it there)."""
HOW = {
"P01": "`BodyCanonicalizer` is fed symbolic bytes in chunks cut at every place; the result must equal the canonical form that "
       "oracle.rs computes by splitting the whole body into lines. Chunked and whole results must agree even where the oracle is silent. "
       "`BodyHasher` gets two registrations with arbitrary limits and is stopped when it says Done. Cost 30-60 s. The state machine "
       "has 6 states with carried CR, WSP and line counts; bugs sit in three-byte sequences at a chunk edge, which the solver enumerates as path classes.",
"P02": "`canonicalize_header(s)` and `compute_data_hash` on arbitrary name and body bytes against the oracle's form (unfold, squeeze, trim). "
       "`h_hdr_equiv` also states it relationally: two symbolic fields give the same octets exactly when they are equal modulo what the algorithm ignores.",
"P03": "Symbolic one-byte names and all lists of names: the oracle picks from the bottom up with a used-set written independently. The sound "
       "and e2e entries show that verifier and signer really use that selection.",
"P04": "The signer makes a signature for a request chosen from a wide space with symbolic header and body bytes; `inspect` recomputes body hash, data "
       "hash and signature with the key library directly, then the verifier must return Success for the assembled message.",
"P05": "Signatures are made by the harness (not the crate's signer) and the message or the signature field is then changed symbolically: byte replaced, "
       "inserted, removed. Verification must be Success exactly when the oracle's canonical hash input is unchanged. Hash and signatures are injective models, so "
       "`Success` means equality of the actual inputs, for all values at once.",
"P06": "As P05 for the body: signed and received bodies are both symbolic; the result must follow the equality of their canonical prefixes.",
"P07": "Arbitrary strings through `DkimSignature` and `DkimKeyRecord` parsing (the tag list parser itself is private), so that acceptance and the "
       "extension tags are observed; oracle.rs has a grammar-directed parser of its own.",
"P08": "One tag at a time carries symbolic characters inside a complete signature field; the oracle computes acceptance, error kind and value. Separate entries "
       "for required tags, salvage of raw strings on errors, t/x order and name forms.",
"P09": "As P08 for key records.",
"P10": "A valid signature over a message and a key record assembled from parts (k, h, s, t, p, v, sizes 1016/1017/1023/1024/2048, damaged keys); the expected status comes "
       "from a decision table in the harness. Several records under one name in all orders: first success wins, else the last failure, at most three are tried.",
"P11": "Two lists of configured names against h= lists and header arrangements with symbolic names; expected policy error computed by counting occurrences.",
"P12": "Symbolic 64-bit clock and tolerance against t= and x= with symbolic digits; the oracle is the inequality in unbounded integers.",
"P13": "A scripted resolver records every name asked for; answers, errors and delays (Pending polls) are choices; each signature's status must follow the answer to its own name, "
       "for several hash seeds. Timeouts: a resolver that never answers (known finding).",
"P14": "Arbitrary bytes encoded through z= and i= and decoded by the oracle; arbitrary texts decoded by the crate against the oracle's decoder.",
"P15": "Arbitrary characters in b=, bh=, p= against an oracle decoder by definition; encodings of arbitrary bytes decode to them.",
"P16": "Arbitrary bytes to `FieldName`, `FieldBody`, `HeaderFields::from_str`; oracle predicates from RFC 5322.",
"P17": "The produced header text is parsed by the oracle's tag list parser and each tag compared with the request; layout constraints (width where folding can, indentation, order).",
"P18": "Requests with symbolic names, indentation, header names, ext tags, identities; the expected error comes from a decision list in the harness.",
"P19": "Faults by construction: 31 in the field, 22 elsewhere, placed in every tag order; expected error and RFC 8601 result in a table.",
"P20": "The same body is given to two processors, one of which is stopped when it says so; results must be equal. The stance must be monotone.",
"P21": "Panics, overflow traps (debug assertions are on in the encoded build), out-of-bounds accesses and non-termination are violations in *every* entry; these entries add arbitrary "
       "content at the untrusted edges: signature field, key record, key data, texts, numbers.",
"P22": "Arbitrary short names in frames, label and name lengths around the limits; oracle predicates for labels; subdomain relation by labels; IDN pairs with known A-labels.",
"P23": "The harness is built a second time with the feature and decides policy, soundness and sizes for rsa-sha1 too.",
"P24": "Documents and DER with an arbitrary byte at many places; what is accepted must be the key meant (it verifies a signature of the other half, and no other).",
"P25": "Values with symbolic content are printed; a reader written in the harness takes quoted text apart again and must get the same bytes.",
"P26": "Histories: a message signed by the crate goes through two (thorough: three) relay actions with symbolic bytes at chosen places. Tolerated ones must leave Success, a harmful one must not.",
"P27": "Metamorphic, no oracle: the result of each signature (request) among others is compared with the result of the same one alone.",
"P28": "Field names with a symbolic byte against the documented list; the default configuration against one with the documented values, on messages at the edge of each limit.",
"P29": "Each part is driven directly with symbolic data and limits against the definition; a client composed of the parts is compared with the verifier on messages changed by a symbolic octet.",
"P30": "Metamorphic, no oracle: one message is verified under two ordered configurations with symbolic numbers, and the results are compared.",
"P31": "Sequences of two (thorough: three) messages or signing requests out of 37 kinds sharing one key name, and pairs handled in turns with a signer among them, each with the outcome worked out from the message itself.",
}
