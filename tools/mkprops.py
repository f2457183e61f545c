#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

ML = "src/cryptokit.ml"

prop("C01", "Every hash function computes its standard digest on every message",
 "For every message of any length, SHA-1, SHA-224/256/384/512, SHA-3, Keccak, RIPEMD-160, MD5, BLAKE2b, BLAKE2s and BLAKE3 return exactly the digest their published specification defines, at every supported output size. The digest has exactly the advertised hash size.",
 ["inputs", "configurations"], "all messages (including messages longer than 2^32 bits and, for BLAKE2s, 2^32 bytes), all output sizes, accelerated and portable builds",
 "Known-answer tests sample a few short messages; defects in padding at block edges, length counters, tree hashing depth or rare output sizes need particular lengths.",
 ["src/sha1.c","src/sha256.c","src/sha512.c","src/keccak.c","src/ripemd160.c","src/stubs-md5.c","src/blake2.c","src/blake3.c","src/blake3_portable.c",ML],
 [("compression functions and finalisation", "src/sha*.c, src/keccak.c, src/ripemd160.c, src/blake2.c, src/blake3.c"), ("hash classes and hash_size", ML+" module Hash")],
 ["result returned by each hash object"])

prop("C02", "Hashes and MACs depend only on the concatenation of the data added",
 "However a message is split into pieces, and whichever of the string, substring, character and byte entry points each piece is fed through (empty pieces included), every hash and MAC returns the same result as for the whole message in one piece. Interleaving the feeding of several objects does not change any of their results.",
 ["inputs", "histories"], "all messages, all ways of cutting them into calls, all mixes of entry points, every hash and MAC",
 "Buffering bugs show only for particular combinations of buffered length, piece length and following calls; tests feed one or two pieces.",
 ["src/sha1.c","src/sha256.c","src/sha512.c","src/keccak.c","src/ripemd160.c","src/blake2.c","src/blake3.c","src/siphash.c","src/poly1305-donna.c",ML],
 [("partial-block buffering", "*_update / *_add / SHA3_absorb / blake3_hasher_update in src/*.c"), ("CBC-MAC and CMAC buffering", ML+" class Block.mac")],
 ["result after each feeding history"])

prop("C03", "Every MAC computes its standard tag for every key and message",
 "HMAC over MD5, SHA-1, SHA-256, SHA-384, SHA-512 and RIPEMD-160, AES-CMAC, CBC-MAC over AES, DES and triple DES with either padding scheme or none, the retail MAC with final triple DES, keyed BLAKE2b/BLAKE2s/BLAKE3 and SipHash-64/128 return exactly the tag their specification defines. This holds for every key length accepted (including HMAC keys longer than the hash block), every initial value and every message length.",
 ["inputs", "configurations"], "all keys, IVs and messages of every accepted length; all MAC constructions and output sizes",
 "Subkey derivation, over-long keys, exact-multiple lengths and final-block handling each need specific keys or lengths that vectors rarely contain.",
 [ML,"src/siphash.c","src/blake2.c","src/blake3.c"],
 [("HMAC functor", ML+" module HMAC"),("CBC-MAC, CMAC, retail MAC", ML+" module Block, module MAC"),("SipHash", "src/siphash.c")],
 ["result of each MAC object"])

prop("C04", "Block ciphers map every block exactly as AES, DES, 3DES, Blowfish define",
 "For every key of a supported length and every block, the AES-128/192/256, DES, two- and three-key triple DES and Blowfish encryptors return the block the standard defines, and the decryptors return its inverse. The result is the same at any source and destination offset, when source and destination are the same buffer, and on every later use of the same object.",
 ["inputs", "configurations"], "all keys (all lengths 4..56 for Blowfish, 16/24/32 for AES, 8/16/24 for DES/3DES), all blocks, offsets, in-place or not, accelerated and portable code",
 "The key and block spaces are astronomically larger than the test vectors; a wrong table entry, key-schedule word or sign extension affects few keys.",
 ["src/rijndael-alg-fst.c","src/aesni.c","src/d3des.c","src/blowfish.c","src/stubs-aes.c","src/stubs-des.c","src/stubs-blowfish.c",ML],
 [("key schedules and rounds","src/rijndael-alg-fst.c, src/aesni.c, src/d3des.c, src/blowfish.c"),("block cipher classes",ML+" module Block")],
 ["destination buffer after each block operation"])

prop("C05", "Chaining modes produce exactly the ciphertext the mode defines",
 "For every block cipher, direction, mode (ECB, CBC, CFB-n, OFB-n, CTR, CTR with an n-byte counter), feedback or counter width n, initialisation vector and input, the bytes produced equal the mode's textbook definition applied to the raw cipher. In particular counters increment big-endian with carries over exactly the last n bytes of the block, and an omitted IV means all zeros.",
 ["inputs", "configurations"], "all ciphers x modes x widths x IVs x messages x directions, any way of feeding the data",
 "Carry propagation and feedback shifting depend on specific IV values and widths; tests use one width and fixed IVs.",
 [ML,"src/stubs-misc.c"],
 [("chaining classes",ML+" module Block (cbc, cfb, ofb, ctr)"),("counter increment",ML+" increment_counter"),("byte-string xor","src/stubs-misc.c")],
 ["bytes delivered by the transform"])

prop("C06", "Decryption inverts encryption, and malformed padding or length is rejected",
 "For every cipher, mode, padding scheme, key, IV and message, decrypting what was encrypted under the same parameters returns exactly the original message. A padded decryption accepts a ciphertext only if its length is a positive multiple of the block size and its last block carries a well-formed pad, otherwise it raises the wrong-length or bad-padding error and never returns a wrong message; unpadded transforms raise the wrong-length error exactly when the total is not a multiple of the block size.",
 ["inputs", "configurations"], "all messages, keys, IVs, modes, padding schemes; all candidate final blocks",
 "The set of malformed pads and lengths is large and each must be rejected; tests decrypt only well-formed data.",
 [ML],
 [("padding schemes",ML+" module Padding"),("padded cipher wrappers",ML+" cipher_padded_encrypt / cipher_padded_decrypt")],
 ["decrypted bytes or exception"])

prop("C07", "Stream ciphers produce their standard keystream at every position",
 "ARCFOUR with any 1..256-byte key and ChaCha20 with a 16- or 32-byte key, an 8- or 12-byte IV and any starting counter (64 bits with an 8-byte IV, 32 bits with a 12-byte IV) xor the data with exactly the standard keystream, at every position and across counter carries. The result does not depend on how the data is cut into calls, and processing the result again with the same parameters restores the data.",
 ["inputs","histories"], "all keys, IVs, starting counters (including those crossing 2^32), data, offsets and call splits, in place or not",
 "Keystream position bookkeeping and 64-bit counter carries only matter at particular offsets and counters.",
 ["src/arcfour.c","src/chacha20.c","src/stubs-chacha20.c","src/stubs-arcfour.c",ML],
 [("keystream generation","src/arcfour.c, src/chacha20.c"),("stream classes",ML+" module Stream")],
 ["destination buffer / transform output"])

prop("C08", "Counter mode with an n-byte counter never reuses a keystream block",
 "A counter-mode cipher whose counter field is n bytes wide, for n below 8, raises the message-too-long error rather than deliver more than 2^(8n) blocks under one key and IV, however the data is fed. Until that point it keeps delivering correct output, and once the error has been raised further data is refused as well.",
 ["inputs","histories"], "all block sizes, counter widths, IVs and feeding histories reaching or passing the limit",
 "Only messages longer than the limit exhibit the violation, and off-by-one or per-call resets need several calls straddling it.",
 [ML],
 [("transfer limit",ML+" class Block.ctr")],
 ["blocks delivered and exception raised"], state=[dict(name="remaining-block count",meaning="blocks that may still be delivered",where=ML+" class Block.ctr")])

prop("C09", "AEAD encryption yields the standard ciphertext and tag for every input",
 "AES-GCM (any AES key size, any IV length) and ChaCha20-Poly1305 (any accepted key and IV size) return exactly the ciphertext and 16-byte tag their specifications define, for every associated header and message of any length, however the message is fed. This includes GCM counters that wrap modulo 2^32 inside a message and Poly1305 accumulators at the edge of the field.",
 ["inputs","configurations"], "all keys, IVs, headers, messages and feeding histories; accelerated and portable builds",
 "Carry and reduction corner cases have negligible probability under random testing and must be constructed; IV and header lengths are unbounded.",
 [ML,"src/ghash.c","src/pclmul.c","src/poly1305-donna.c","src/poly1305-donna-64.h","src/chacha20.c","src/aesni.c"],
 [("GCM",ML+" module AEAD, aes_gcm_*"),("GHASH","src/ghash.c, src/pclmul.c"),("Poly1305","src/poly1305-donna*.{c,h}")],
 ["ciphertext and tag"])

prop("C10", "Authenticated decryption returns the message iff nothing was altered",
 "Checked decryption of an authenticated ciphertext returns exactly the original message when key, IV, header, ciphertext and tag are all as produced. If any bit or the length of the ciphertext, tag, header, IV or key differs it returns no message, and it raises the wrong-length error when the input is shorter than a tag; the same holds for authenticated transforms composed from a cipher and a MAC.",
 ["inputs"], "all messages and all alterations: every bit position, truncations, extensions, transpositions, header/IV/key changes",
 "A verifier that ignores some bits, bytes or lengths passes all positive tests; every position has to be tampered with.",
 [ML,"src/ghash.c","src/pclmul.c","src/poly1305-donna.c"],
 [("tag check",ML+" auth_check_transform_string, string_equal"),("composition",ML+" transform_then_hash, transform_and_hash")],
 ["option returned by checked decryption"])

prop("C11", "A transform's output stream is independent of how it is fed and drained",
 "For every transform, and compositions of transforms, the concatenation of everything taken out equals the transform of the concatenation of everything put in: no byte is lost, duplicated or reordered by any sequence of put, get, flush and finish calls of any sizes. The reported amount of available output is exactly what the next get returns, getting a character from an empty buffer raises end-of-file, and after a successful flush all output for the data so far is available.",
 ["histories","inputs"], "all histories of put_*/get_*/flush/available_output/finish, all transforms and nested compositions",
 "Buffer compaction and growth bugs need particular interleavings of partial reads and writes around buffer capacity.",
 [ML],
 [("output buffering",ML+" class buffered_output"),("composition",ML+" class compose"),("cipher wrappers",ML+" Block.cipher, Stream.cipher")],
 ["every value returned by get_* and available_output"], state=[dict(name="output buffer positions",meaning="begin and end of undelivered output",where=ML+" class buffered_output"),dict(name="pending input",meaning="bytes of an incomplete block",where=ML+" class Block.cipher")])

prop("C12", "No call accesses memory outside the buffers it is given",
 "For every public operation and every buffer, offset and length (negative, overflowing or past-the-end values included), the call either completes touching only memory inside its buffers and its own objects, or raises an exception. Ranges of positive length that are not inside the buffer given to hashes, MACs, ciphers, generators and xor are reported by an exception.",
 ["inputs","histories"], "all public operations, all buffer/offset/length triples incl. extreme integers, all object histories before wiping",
 "Out-of-bounds accesses inside C stubs usually go unnoticed in a test: the heap silently absorbs them.",
 ["src/stubs-misc.c","src/stubs-zlib.c","src/stubs-chacha20.c","src/stubs-aes.c","src/sha1.c","src/sha256.c","src/sha512.c","src/keccak.c","src/blake2.c","src/blake3.c","src/siphash.c",ML],
 [("bounds checks before C primitives",ML+" invalid_arg guards"),("C stubs","src/stubs-*.c")],
 ["sanitizer reports, redzones around every byte string, exceptions"])

prop("C13", "Operations modify only their destination range, never their inputs",
 "Every operation leaves its key, IV, header, message and source buffers unchanged, except buffers the documentation says are destroyed, and writes exactly the destination range requested: bytes before and after it keep their values. When an operation fails on invalid arguments, nothing is written.",
 ["inputs"], "all operations, keys, sources, destinations, offsets and lengths",
 "Tests compare the result but not the surrounding bytes or the inputs, and strings are mutated in place behind the type system.",
 [ML,"src/stubs-misc.c","src/stubs-aes.c","src/stubs-des.c","src/stubs-rng.c","src/chacha20.c"],
 [("unsafe string/bytes aliasing",ML+" Bytes.unsafe_of_string uses"),("in-place cipher and xor stubs","src/stubs-*.c")],
 ["contents of all argument buffers before and after"])

prop("C14", "Results never depend on when the garbage collector runs",
 "Every operation returns the same results when a collection or heap compaction happens at any allocation it performs as when none happens, and contexts remain valid for as long as the object is reachable. No collection schedule makes an operation read stale memory or crash.",
 ["schedules"], "all operations x collection or compaction injected at each allocation point, both accelerated and portable builds",
 "A missing root registration misbehaves only when a collection strikes at one allocation; ordinary runs almost never do that.",
 ["src/stubs-aes.c","src/stubs-siphash.c","src/stubs-ghash.c","src/stubs-blake2.c","src/stubs-blake3.c","src/stubs-sha3.c","src/stubs-chacha20.c","src/stubs-des.c","src/stubs-zlib.c"],
 [("root registration in stubs","CAMLparam/CAMLlocal in src/stubs-*.c"),("finalised custom blocks","src/stubs-sha3.c, stubs-blake3.c, stubs-ghash.c, stubs-zlib.c")],
 ["results under injected collections"])

prop("C15", "Wiping an object erases every secret-dependent byte it holds",
 "After wiping a cipher, stream cipher, authenticated cipher, hash, MAC, encoder, pseudo-random generator or private key, nothing reachable from it depends any more on the key, the data processed or the generated output, except strings supplied by the caller that the documentation does not promise to destroy. Native memory the wiped object releases holds no such data either, and the one-shot helpers wipe the objects they consume.",
 ["inputs","histories"], "all object kinds, all keys and data, all histories before the wipe",
 "Erasure is invisible to functional tests: no result changes when a wipe forgets a buffer.",
 [ML,"src/stubs-sha3.c","src/stubs-blake3.c","src/stubs-misc.c","src/stubs-ghash.c"],
 [("wipe methods",ML+" method wipe of every class"),("private key and secret wiping",ML+" RSA.wipe_key, Paillier.wipe_key, DH.shared_secret")],
 ["object graph reachable from the wiped object; memory released by it"])

prop("C16", "Objects are independent and results depend only on the given inputs",
 "Any number of objects can be used in any interleaving, including from callbacks and threads that run in the middle of another object's operation, and each behaves exactly as if it were used alone. Results never depend on uninitialised memory, on earlier unrelated operations or on objects created, wiped or discarded in between.",
 ["schedules","histories"], "all interleavings of operations on distinct objects, at call and at allocation/poll granularity; all previous memory contents",
 "Shared scratch state or reads of uninitialised memory only matter under particular interleavings or heap contents.",
 [ML,"src/stubs-aes.c","src/stubs-ghash.c","src/d3des.c"],
 [("per-object state",ML+" val fields of all classes"),("static data in primitives","src/d3des.c, src/aesni.c, src/pclmul.c")],
 ["results of each object versus its isolated run"])

prop("C17", "Accelerated and portable code paths give identical results",
 "Every operation returns the same bytes whether the library was built with or without the hardware AES and carry-less multiplication instructions, and whether or not the processor has them; on a processor without them they are not executed. This covers key expansion for all key sizes, block encryption and decryption, GHASH multiplication and everything built on them.",
 ["configurations","inputs"], "all keys, blocks, multipliers and messages, in both build configurations",
 "The test suite only ever runs the path the build machine selects; the other one is never executed.",
 ["src/aesni.c","src/rijndael-alg-fst.c","src/ghash.c","src/pclmul.c","src/stubs-aes.c","src/stubs-ghash.c"],
 [("run-time dispatch","src/stubs-aes.c, src/stubs-ghash.c"),("portable AES and GHASH","src/rijndael-alg-fst.c, src/ghash.c")],
 ["outputs of the two builds on the same inputs"])

prop("C18", "Seeded generators emit one fixed stream per seed, however it is read",
 "The ChaCha20-based generator emits the ChaCha20 keystream for the zero nonce under its seed, of which only the first 32 bytes count, and the AES-based one emits the encryptions of 0, 1, 2, ... under the first 16 seed bytes. Successive requests of any sizes into any buffer positions return consecutive, non-overlapping pieces of that stream; seeds shorter than 16 bytes are refused.",
 ["inputs","histories"], "all seeds, all sequences of request sizes and positions",
 "Position bookkeeping between requests and counter carries appear only for particular request sequences or long outputs.",
 [ML,"src/chacha20.c"],
 [("pseudo_rng and pseudo_rng_aes_ctr",ML+" module Random"),("keystream extraction","src/chacha20.c chacha20_extract")],
 ["bytes produced"])

prop("C19", "Entropy sources fill the whole request with fresh bytes or fail loudly",
 "A request to the system, device, hardware or default secure generator either stores source bytes in every requested position, in source order where observable and never the same source byte twice, or raises an error. Short reads, end of file and failures of the source at any point never leave part of the range unfilled without an error. A hardware generator that is absent, never answers or is stuck at all ones is refused, and one that works is accepted.",
 ["fault_sequences","inputs"], "all request sizes and positions; all short-read, failure and end-of-file schedules of the source",
 "The real sources practically never fail or read short during a test, so the recovery paths are not executed.",
 [ML,"src/stubs-rng.c"],
 [("getentropy loop","src/stubs-rng.c caml_system_rng_random_bytes"),("device reads",ML+" class device_rng"),("RDRAND","src/stubs-rng.c")],
 ["requested range, bytes consumed from the source, exceptions"])

prop("C20", "RSA keys are consistent and private operations invert public ones",
 "For every even size of at least 32 bits, every generator and every valid optional public exponent, key generation returns two distinct primes of half the size whose product is the modulus, with matching exponents and CRT values encoded at fixed width. For every message below the modulus, decrypting an encryption and unwrapping a signature restore it, CRT and plain operations agree for every consistent key (imported ones included), and messages at or above the modulus raise the message-too-long error.",
 ["inputs","configurations"], "all key sizes, exponents and random sources; all messages including 0, 1, multiples of a prime factor, and values around the modulus",
 "Key generation is random and sized; encoding and CRT corner cases depend on particular bit lengths and residues.",
 [ML,"src/cryptokitBignum.ml","src/stubs-misc.c"],
 [("RSA",ML+" module RSA"),("CRT exponentiation and encoding","src/cryptokitBignum.ml")],
 ["key fields and operation results checked by independent arithmetic"])

prop("C21", "Paillier decryption inverts encryption and ciphertext products add plaintexts",
 "For every Paillier key generated at any even size of at least 32 bits, decrypting an encryption of any message below the modulus returns the message as a number, whatever randomness was drawn. Combining any number of ciphertexts decrypts to the sum of the messages modulo the modulus, and encrypting the same message twice yields unrelated ciphertexts.",
 ["inputs","configurations"], "all key sizes and random sources, all messages (0 and modulus-1 included), all sums",
 "Boundary messages and number encodings (leading zeros, odd word counts) occur only for some sizes.",
 [ML,"src/cryptokitBignum.ml"],
 [("Paillier",ML+" module Paillier")],
 ["decrypted values"])

prop("C22", "Diffie-Hellman parties always agree, and derived keys are as specified",
 "For every parameter set, however generated, both parties compute the same shared secret from each other's messages, equal to the modular exponential of the generator and encoded at the fixed width of the modulus. Key derivation returns, for every length, the requested number of bytes of the documented SHA-256 expansion of diversification, shared secret and block counter.",
 ["inputs","configurations"], "all modulus sizes, private lengths, random sources, message values; all derivation lengths and diversifiers",
 "Leading-zero secrets and odd sizes are rare and break fixed-width encoding only then.",
 [ML,"src/cryptokitBignum.ml"],
 [("DH",ML+" module DH"),("number encoding","src/cryptokitBignum.ml to_bytes/of_bytes")],
 ["messages, secrets and derived keys"])

prop("C23", "Base64 encoding is standard and decoding inverts it and rejects junk",
 "The compact, padded and multi-line encoders produce the standard Base64 text of every byte string (the multi-line one in lines of at most 76 characters with only newlines added), and decoding any of these, with white space anywhere, returns the original. Decoding raises the bad-encoding error on any character outside the alphabet, on data after the padding character and on an impossible number of characters.",
 ["inputs","histories"], "all byte strings, all feeding histories, all malformed texts",
 "Round-trip needs every length and residue class around line and buffer boundaries; rejection needs every bad character position.",
 [ML],
 [("Base64",ML+" module Base64")],
 ["encoded and decoded bytes, exceptions"])

prop("C24", "Hexadecimal encoding is standard and decoding inverts it and rejects junk",
 "Encoding every byte string gives two lower-case hexadecimal digits per byte; decoding accepts either case and white space anywhere and returns the original. Decoding raises the bad-encoding error for any other character and for an odd number of digits.",
 ["inputs","histories"], "all byte strings, all feeding histories, all malformed texts",
 "Every byte value, digit case and split position must work; tests use a handful of strings.",
 [ML],
 [("Hexa",ML+" module Hexa")],
 ["encoded and decoded bytes, exceptions"])

prop("C25", "Compression is lossless and interoperable for every input and chunking",
 "For every input, level, header option and feeding, flushing and draining history, the compressor's output is a valid deflate (or zlib) stream that any conforming decompressor expands to exactly the input, and the library's decompressor expands any conforming stream to exactly its content. After a flush, everything put so far can be recovered from the output produced so far, and flushing any number of times is harmless.",
 ["inputs","histories","configurations"], "all inputs (compressible or not, small and large), levels, header options, and put/get/flush histories",
 "Losses occur when output fills an internal buffer exactly or a call consumes only part of its input, which needs particular sizes.",
 [ML,"src/stubs-zlib.c"],
 [("compress/uncompress loops",ML+" module Zlib"),("zlib stubs","src/stubs-zlib.c")],
 ["compressed and decompressed bytes, compared with an independent zlib"])

prop("C26", "Corrupt compressed data is detected and decompression always terminates",
 "Decompressing a stream with a checksum header that was truncated, extended or altered in any byte raises a compression error or yields the original content, never different content without an error. For arbitrary input bytes, with or without header, decompression terminates with output or a compression error and stays memory safe.",
 ["inputs"], "all streams and all corruptions: bit flips, truncations at each length, trailing garbage, random bytes; all feeding histories",
 "Tests decompress valid data only; error and end-of-stream paths depend on where the corruption or the call boundary falls.",
 [ML,"src/stubs-zlib.c"],
 [("finish and error paths",ML+" class Zlib.uncompress"),("error mapping","src/stubs-zlib.c caml_zlib_error")],
 ["exception or decompressed bytes; time bound"])

prop("C27", "Native resources are acquired and released exactly once",
 "Every native context, compression state or file descriptor acquired by an object is released exactly once, by wiping, finishing or, at the latest, by collection of the unreachable object, including when a compression stream is abandoned or fails (the descriptor of a device generator is released by wiping it). Using objects, wiping them (repeatedly) and dropping them in any order neither leaks nor releases anything twice.",
 ["histories","schedules"], "all create/use/wipe/finish/abandon/collect histories of all object kinds",
 "Leaks and double releases do not change any result, so functional tests cannot see them.",
 ["src/stubs-zlib.c","src/stubs-sha3.c","src/stubs-blake3.c","src/stubs-ghash.c",ML],
 [("finalisers and wipe stubs","src/stubs-sha3.c, src/stubs-blake3.c, src/stubs-ghash.c, src/stubs-zlib.c"),("device_rng",ML+" class device_rng")],
 ["counts of native allocations, zlib states and descriptors"])

prop("C28", "Secret comparison is exact and its time is independent of the contents",
 "The string and byte comparison utilities return true exactly when both arguments have the same length and bytes. For arguments of equal length that differ, the number of instructions executed does not depend on the contents, in particular not on the position or number of differing bytes, and the same holds for the tag check of authenticated decryption.",
 ["inputs"], "all pairs of strings of all lengths, all positions and kinds of difference",
 "Timing independence is not a result a test can compare, and exactness needs every position and bit.",
 [ML],
 [("string_equal, bytes_equal",ML+" seq_equal")],
 ["boolean result; executed-instruction count under an instrumenting simulator"])

prop("C29", "XOR and modular-arithmetic utilities are exact for all operands",
 "The xor utilities combine exactly the given ranges for every length, offset pair and alignment, including disjoint or identical slices of one buffer. Modular exponentiation and multiplication return the exact residue, encoded big-endian at the length of the modulus, for every base, every exponent (zero included) and every odd modulus of any byte length.",
 ["inputs"], "all offsets, lengths, alignments and operands of all lengths",
 "Word-at-a-time loops and fixed-width encodings fail only for particular alignments, lengths and leading zeros.",
 [ML,"src/stubs-misc.c","src/cryptokitBignum.ml"],
 [("xor stub","src/stubs-misc.c caml_xor_string"),("mod_power, mod_mult",ML+" utilities"),("number encoding","src/cryptokitBignum.ml")],
 ["destination bytes / returned string"])

prop("C30", "Channel helpers process exactly the requested input",
 "Transforming or hashing a channel gives the same result as transforming or hashing the same bytes as a string, whatever sizes the channel delivers them in. With a length bound exactly that many bytes are consumed, the channel being left positioned right after them, and end-of-file is raised if fewer are available. Errors while reading are reported, never taken for the end of the data.",
 ["inputs","schedules"], "all data lengths, bounds, chunk arrival patterns, transforms and hashes",
 "Short reads and bounds around the 256-byte buffer depend on how the channel delivers data; tests read small regular files.",
 [ML],
 [("transform_channel, hash_channel",ML+" top level")],
 ["output channel contents, hash value, input channel position"])

prop("C31", "Invalid parameters are refused with the documented error, valid ones accepted",
 "Every constructor accepts exactly the documented key, IV, seed, digest and modulus sizes and raises the documented error for all others: wrong key size, wrong IV size, seed too short, incompatible block size. Invalid feedback, counter and compression parameters are refused too, so that no constructor turns an invalid parameter into a silently weaker or different algorithm.",
 ["inputs","configurations"], "all key/IV/seed lengths and size parameters around and far beyond the legal ones, for every constructor",
 "The boundary of the accepted set must be right at every length for every constructor; tests only build valid objects.",
 [ML],
 [("size checks",ML+" constructors of all modules")],
 ["constructed object or exception"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
