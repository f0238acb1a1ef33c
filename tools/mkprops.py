#!/usr/bin/env python3
"""writes properties.jsonl (the property list in one place)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, id
    P.append(d)
PSF = ["sha2_128f_simple.c", "sha2_128s_simple.c", "sha2_192f_simple.c", "sha2_192s_simple.c", "sha2_256f_simple.c", "sha2_256s_simple.c",
       "shake256_128f_simple.c", "shake256_128s_simple.c", "shake256_192f_simple.c", "shake256_192s_simple.c", "shake256_256f_simple.c", "shake256_256s_simple.c"]
p("C01", "Key generation is the standard's function of the random bytes",
  "For every parameter set and every output of the random source, the private key is exactly secret seed, PRF key, public seed (the 3n random bytes in order) followed by the root of the top hypertree layer as SPHINCS+ defines it, and the public key handed out is the last 2n bytes of the private key. The call reports success exactly when the random source did.",
  ["inputs", "configurations"], "all 3n-byte random strings, both documented results of the random source (0 or 1), public key requested or not, 12 parameter sets",
  "The tests call key generation with one fixed random string per parameter set; a dependence on particular seed bytes, on the return value or on the optional public key cannot show.",
  ["key_gen.c", "tiny_sphincs.c"], [("ts_gen_key", "key_gen.c"), ("ts_wots_leaf / ts_merkle_path", "tiny_sphincs.c")], observe=["key buffers", "return value"])
p("C02", "Signatures equal the standard's signature for every key and message",
  "For every parameter set, private key, message and per-signature randomness, the bytes produced by streaming out a signature are exactly the SPHINCS+ signature (R, FORS part, hypertree part) the standard prescribes. Without a random source, or when it fails, the deterministic variant is produced.",
  ["inputs", "configurations"], "all private keys (4n arbitrary bytes), all messages of any length, all random strings and both random-source results, 12 parameter sets",
  "The tests compare the signatures of one key and one three-byte message per parameter set; a value that depends on other indices, digits, tree positions or message lengths is never reached (a 256-bit digest selects tree, leaf, indices and digits).",
  ["tiny_sphincs.c"] + PSF[:1], [("ts_init_sign / ts_sign", "tiny_sphincs.c"), ("ts_merkle_path, generate_next_wots_hash, compute_wots_digits", "tiny_sphincs.c")],
  state=[("tree_address, auth_path_node, fors_keypair_addr", "position in the hypertree", "tiny_sphincs.h struct ts_context")], observe=["signature bytes"])
p("C03", "Verification accepts exactly the signatures the standard accepts",
  "For every parameter set, public key, message and byte string of signature length, verification succeeds if and only if the SPHINCS+ verification algorithm accepts that signature for that message under that public key. No signature that leads to a different root is ever accepted and none that leads to the right root is rejected.",
  ["inputs", "configurations"], "all public keys, all messages of any length, all strings of the signature's length, 12 parameter sets",
  "The tests verify one genuine signature per set and a few single-bit corruptions of it; acceptance of structured forgeries (wrong checksum, wrong address, truncated comparison) or rejection of rare valid ones needs all values.",
  ["verify.c", "tiny_sphincs.c"], [("ts_update_verify state machine", "verify.c"), ("next_auth_path", "verify.c"), ("my_memcmp root comparison", "verify.c")], observe=["return values of the update and final calls"])
p("C04", "Every signature made with a generated key verifies under its public key",
  "For every random seed, message, signing randomness and parameter set, a signature produced with a generated private key is accepted by verification of the same message under the generated public key.",
  ["inputs"], "all seeds, messages of any length, signing randomness; WOTS+ chains for all digit values, Merkle paths for all leaf positions",
  "One seed and one message are tried per parameter set; the round trip has to hold for every chain position, checksum and tree position.",
  ["key_gen.c", "tiny_sphincs.c", "verify.c"], [("WOTS+ chains: signer walks d steps, verifier the remaining 15-d", "tiny_sphincs.c / verify.c"), ("root recomputation along authentication paths", "tiny_sphincs.c ts_merkle_path, verify.c next_auth_path")])
p("C05", "Signature bytes do not depend on how the caller splits the output",
  "However the caller divides its requests for signature bytes (any sequence of positive or zero sizes), the concatenated output is the same signature, and every request returns the full amount asked for until the signature is exhausted.",
  ["schedules", "inputs"], "all sequences of request sizes, at every position of the signature",
  "Tests use one chunk size (42 bytes); splits that fall on other element and layer boundaries are never exercised.",
  ["tiny_sphincs.c"], [("ts_sign: buffer / buffer_offset carry the undelivered part", "tiny_sphincs.c")], state=[("buffer_offset", "bytes of the current element already delivered", "tiny_sphincs.h")])
p("C06", "Verdict does not depend on how the caller splits the signature input",
  "However the caller divides the signature into successive update calls (any sizes, including empty ones), the final verdict is the same as for one call with the whole signature, and no update reports an error before the last byte.",
  ["schedules", "inputs"], "all ways of splitting a string of signature length into update calls",
  "Tests split in one pattern (Fibonacci-sized pieces) for one signature.",
  ["verify.c"], [("ts_update_verify: partial element buffering", "verify.c")], state=[("buffer, buffer_offset", "partially received element", "tiny_sphincs.h")])
p("C07", "Signing ends after exactly the announced length and never overruns",
  "Signing yields exactly the announced number of signature bytes in total, after which every request returns 0; a request never changes bytes of the caller's buffer beyond the count it returns, whatever size is requested.",
  ["inputs", "schedules"], "all request sizes (including larger than what remains), repeated calls after the end, all parameter sets",
  "Tests request the length they expect and do not look behind the returned count or call again after the end in every state.",
  ["tiny_sphincs.c", "size.c"], [("ts_sign end state", "tiny_sphincs.c"), ("ts_size_signature", "size.c")])
p("C08", "Signatures of any other length are never accepted, and failure is sticky",
  "If the total number of bytes fed to verification differs from the parameter set's signature length, the verdict is never success, even when the right-length prefix is valid; once verification has failed, no further input makes it succeed and later updates report failure.",
  ["inputs", "schedules"], "truncated inputs of every length, extensions by any number of bytes in the same or later calls, all signature values",
  "Tests feed only full-length signatures; truncation and trailing data are not tried at all.",
  ["verify.c"], [("m == 0 at the root comparison", "verify.c"), ("ts_verify: buffer_offset == 0", "verify.c"), ("ts_verify_fail state", "verify.c")])
p("C09", "Misused or unset contexts and missing arguments fail safely",
  "Asking a verification context or a zero-initialised context for signature bytes yields none, feeding a signing or zero-initialised context with a signature reports failure and never verifies, and key generation with a missing random source, private-key buffer or parameter set returns 0; none of these touches the buffers passed in, draws randomness or disturbs an operation under way.",
  ["histories"], "every reachable state of a signing or verifying context, in combination with every call of the other kind",
  "Tests never mix contexts or pass missing arguments.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c"], [("state guards at the top of ts_sign / ts_update_verify", "tiny_sphincs.c, verify.c"), ("NULL checks", "key_gen.c")])
p("C10", "No invalid memory access or undefined arithmetic in any build configuration",
  "In every build configuration, and for every parameter set that configuration supports, key generation, signing and verification only access memory inside the caller's buffers and the library's own objects (no overrun of any internal array), read no uninitialised data and perform no undefined shift or division, for all inputs.",
  ["inputs", "configurations"], "all inputs; the tuning configurations including the twelve minimal ones the RAM table is generated with; all supported parameter sets",
  "Tests run four configurations without sanitizers; an overrun inside the context stays within the structure and goes unnoticed, and the minimal configurations (smallest arrays) are never run.",
  ["tiny_sphincs.h", "tiny_sphincs.c", "verify.c", "key_gen.c", "tune.h"], [("TS_MAX_* array sizing", "tiny_sphincs.h"), ("MAX_MESSAGE_HASH", "internal.h")])
p("C11", "The library is pure: no hidden state, no writes to inputs",
  "Key generation, signing and verification never write to keys, messages, signatures or parameter sets passed in, never write static storage or allocate memory, and signing needs neither the message nor the random source after it has started.",
  ["inputs", "histories"], "all inputs and call sequences of the three operations",
  "Tests reuse their buffers and never compare them afterwards, so hidden caching or writes go unnoticed.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c"], [("all state in struct ts_context", "tiny_sphincs.h")])
p("C12", "Operations are independent of other contexts and of old context contents",
  "The result of an operation depends only on its own inputs: not on what the context structure contained before initialisation (including an abandoned earlier signing or verification), nor on operations on other contexts interleaved with it in any order.",
  ["histories", "schedules"], "arbitrary previous context contents; two operations interleaved at any element boundary",
  "Tests use fresh contexts strictly one after the other.",
  ["tiny_sphincs.c", "verify.c"], [("ts_init_sign / ts_init_verify initialise what they use", "tiny_sphincs.c, verify.c")])
p("C13", "SHA-256 equals FIPS 180-4 for every message and every split",
  "Feeding any byte string to the streaming SHA-256 in pieces of any sizes and finishing yields the FIPS 180-4 digest of the whole string, for every length below 2^61 bytes.",
  ["inputs", "schedules"], "all messages and splits: one step from an arbitrary valid streaming state, all buffered amounts, all piece sizes within the bound, all 64-bit totals",
  "SHA-256 has no test of its own; it is only reached through signatures of one short message.",
  ["sha256.c", "sha2.h"], [("compress", "sha256.c"), ("ts_SHA256_update / ts_SHA256_final_trunc", "sha256.c")], state=[("num, count, h, x.data", "buffered bytes, bit count, chaining value", "sha2.h")])
p("C14", "SHA-512 equals FIPS 180-4 for every message and every split",
  "Feeding any byte string to the streaming SHA-512 in pieces of any sizes and finishing yields the FIPS 180-4 digest of the whole string, for every length below 2^61 bytes.",
  ["inputs", "schedules"], "all messages and splits: one step from an arbitrary valid streaming state, all buffered amounts, all piece sizes within the bound, all 64-bit totals",
  "The test hashes a handful of fixed messages; block-boundary, length-encoding and large-count behaviour is sampled, not decided.",
  ["sha512.c", "sha2.h"], [("sha512_compress", "sha512.c"), ("ts_SHA512_update / ts_SHA512_final_trunc", "sha512.c")], state=[("in_buffer, count, state, x.data", "buffered bytes, bit count, chaining value", "sha2.h")])
p("C15", "SHAKE256 equals FIPS 202 for all inputs, splits and implementations",
  "For each of the selectable Keccak implementations, absorbing any byte string in pieces of any sizes and squeezing any amounts yields the FIPS 202 SHAKE256 output stream.",
  ["inputs", "schedules", "configurations"], "all inputs and splits: the permutation for all states, one absorb / finalize / squeeze step from an arbitrary valid state, three implementations",
  "The test compares a few fixed vectors for the compiled-in implementation.",
  ["fips202.c", "fips202.h"], [("KeccakF1600_StatePermute (three variants)", "fips202.c"), ("keccak_inc_absorb / finalize / squeeze", "fips202.c")], state=[("s[25]", "position within the rate", "fips202.c")])
p("C16", "SHA-2 parameter sets use the standard's SHA-2 hash constructions",
  "For SHA-2 parameter sets, every hash the schemes uses (message PRF as HMAC, message digest as MGF1, PRF, F, H and T functions) is computed over exactly the bytes the standard prescribes with the SHA-2 function prescribed for that security level, for every message length and every address.",
  ["inputs", "configurations"], "all keys, messages of any length, all addresses; with and without the prehash optimisation",
  "Each construction is reached with one message length and few addresses in tests.",
  ["sha256_L1_hash.c", "sha256_L1_hash_simple.c", "sha256_hash.c", "sha2_simple.c", "sha512_hash.c", "sha512_L35_hash_simple.c"], [("prf_msg, hash_msg, prf, f, init_t/next_t/final_t members", "internal.h struct ts_parameter_set")])
p("C17", "SHAKE parameter sets use the standard's SHAKE256 constructions",
  "For SHAKE parameter sets, every hash the scheme uses (message PRF, message digest, PRF, F, H and T) is SHAKE256 over exactly the bytes the standard prescribes, for every message length and every address.",
  ["inputs", "configurations"], "all keys, messages of any length, all addresses",
  "Each construction is reached with one message length and few addresses in tests.",
  ["shake256_hash.c", "shake256_simple.c"], [("prf_msg, hash_msg, prf, f, init_t/next_t/final_t members", "internal.h struct ts_parameter_set")])
p("C18", "Digest-to-position mapping follows the standard for every digest",
  "For every message digest and parameter set, the FORS leaf indices, hypertree leaf and tree number used are the ones the standard extracts from that digest (bit order, field boundaries, masking), both when signing and when verifying.",
  ["inputs", "configurations"], "all digest values, 12 parameter sets",
  "Two digests per parameter set occur in the tests; masking and carry across byte boundaries depend on all bits.",
  ["tiny_sphincs.c"], [("ts_convert_message_hash_to_hypertree_position, extract_int_from_hash", "tiny_sphincs.c")])
p("C19", "The random source is used exactly as documented",
  "Key generation asks the random source once for 3n bytes and signing once for n bytes, no randomness is requested elsewhere, a failing source makes key generation return 0 without a usable key being reported, and makes signing fall back to the deterministic variant unaffected by what the source wrote.",
  ["inputs", "fault_sequences"], "all contents the random source may write and both documented results, 0 and 1 (including failure after writing)",
  "The test source always succeeds with fixed bytes; failure is never injected.",
  ["key_gen.c", "tiny_sphincs.c"], [("random_function calls", "key_gen.c, tiny_sphincs.c ts_init_sign")])
p("C20", "Announced sizes equal the sizes actually read and written",
  "For every parameter set the announced private-key, public-key and signature sizes are the standard's, key generation writes exactly that many bytes, signing produces exactly that many, and verification reads no more than the announced public key.",
  ["configurations", "inputs"], "12 parameter sets, all inputs",
  "Tests size their buffers generously and never check the bytes around them.",
  ["size.c", "key_gen.c"] + PSF, [("ts_size_private_key / public_key / signature", "size.c"), ("parameter tables", "sha2_*_simple.c, shake256_*_simple.c")])
p("C21", "Tuning options never change results",
  "Every supported combination of tuning options (supported families and levels, the SHA-2 prehash optimisation, the Keccak variant) yields the same keys, signatures and verdicts for the parameter sets it supports.",
  ["configurations", "inputs"], "tuning configurations including the minimal per-parameter-set ones; all inputs",
  "Four configurations are built by the tests and only with one vector each; the minimal configurations of the RAM table are never checked for correct output.",
  ["tune.h", "tiny_sphincs.h", "fips202.c", "sha256_hash.c", "sha512_hash.c"], [("#if TS_SUPPORT_*, TS_SHA2_OPTIMIZATION, TS_SHAKE256_OPT", "tune.h")])
p("C22", "Saved SHA-2 midstates and truncated digests are exact",
  "Continuing from a saved SHA-2 state is indistinguishable from having hashed the corresponding one-block prefix, for every prefix and continuation, and a truncated digest is a prefix of the full digest that leaves all other bytes of the destination untouched.",
  ["inputs", "histories"], "all saved states and continuations (inductive step), all permitted truncation lengths",
  "No test uses these entry points directly.",
  ["sha256.c", "sha512.c"], [("save_state / restore_state_after_64 / _128", "sha256.c, sha512.c"), ("final_trunc", "sha256.c, sha512.c")])
p("C23", "Control flow and addresses never depend on secrets",
  "Which branches are taken and which addresses and lengths are used by key generation and by signing depend only on the parameter set, sizes, the message digest and what the signature and public key reveal anyway, and on whether the random source succeeded; never on the secret seed, the PRF key, the random bytes or values computed from them. The hash functions take no decision on the bytes they absorb.",
  ["inputs"], "all private keys, seeds, random bytes and messages",
  "Timing independence cannot be observed by a functional test: the output is the same.",
  ["tiny_sphincs.c", "key_gen.c", "sha256.c", "sha512.c", "fips202.c"], [("ts_gen_key", "key_gen.c"), ("ts_init_sign, ts_sign", "tiny_sphincs.c"), ("compression functions and permutation", "sha256.c, sha512.c, fips202.c")])
p("C24", "Successful verification is reported only at the end and only once earned",
  "The final verdict is success only after the last byte of a full-length valid signature has been supplied: before any input and at every earlier point of the stream, the verdict is failure, and asking for it does not disturb the ongoing verification.",
  ["histories", "schedules"], "every prefix of the input stream, verdict queried at every element boundary and in between",
  "Tests ask for the verdict once, after the whole signature.",
  ["verify.c"], [("ts_verify", "verify.c")])
p("C25", "Memory stays small and fixed: bounded stack, bounded context, no allocation",
  "Key generation, signing and verification work in a small fixed amount of memory that does not grow with the parameter set's tree sizes, the message, the signature or the pieces it is handled in: no dynamic, variable-length or writable static storage, at most 512 bytes of automatic storage in arrays, structures and objects whose address is taken (counting 16 for each active call) for signing or verifying and as much again in the hash primitives, the same plus one context for generating a key, and a context of at most 1200 bytes when everything is supported (minimal configurations: at most 64 bytes more than they need today, 472 bytes for sha2_128f, 1128 for sha2_256s).",
  ["inputs", "configurations"], "all messages and their lengths, keys, signatures, random-source results; all request sizes; 12 parameter sets, 29 tuning configurations",
  "The RAM programs of the repository print numbers and assert nothing; a test passes whether the signer keeps one hash value or a whole WOTS+ signature on the stack, and a buffer that grows with the message never shows with a three-byte message.",
  ["tiny_sphincs.h", "tiny_sphincs.c", "key_gen.c", "verify.c", "sha256.c", "sha512.c", "fips202.c", "ramspace.c"], [("struct ts_context, sized by tune.h", "tiny_sphincs.h"), ("ts_merkle_path, ts_wots_leaf: stack of tree nodes kept in the context", "tiny_sphincs.c"), ("verification consumes the signature in pieces", "verify.c")], observe=["sizeof(struct ts_context)", "stack use of the public calls"])
p("C26", "Hash work is that of the standard's algorithms, whatever the request sizes",
  "Generating a key, producing a signature and verifying one take no more hash computations, and feed them no more bytes, than computing every tree node and every chain step the result needs once: nothing is computed a second time because of the sizes of the requests, the position in the signature or the path taken, and with the midstate optimisation the padded public seed is not hashed again. The allowance is 16 hash computations and 2048 bytes per key, signature or verification.",
  ["inputs", "schedules"], "all keys, messages, signatures, digests (the largest count over all paths), request sizes, random-source results",
  "A functional test sees the same bytes whether a tree is built once or once for each request; doing work again makes no test fail.",
  ["tiny_sphincs.c", "key_gen.c", "verify.c", "sha256_hash.c", "sha512_hash.c"], [("ts_sign keeps what is not delivered yet in the context", "tiny_sphincs.c"), ("ts_update_verify", "verify.c"), ("TS_SHA2_OPTIMIZATION: saved states of the padded public seed", "sha256_hash.c, sha512_hash.c, tune.h")], observe=["number and input lengths of hash computations"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
