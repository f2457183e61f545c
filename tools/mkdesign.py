#!/usr/bin/env python3
"""Fills the generated part of DESIGN.md (properties, planted bugs) from the tables below and seeded*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
'C01': "Digests against libcrypto/reference code for every algorithm and output size; lengths 0..699 one by one in quick (0..2749 in thorough), i.e. all paddings over several blocks; BLAKE3 trees of hundreds of chunks; random content; single pieces of more than 4 GB; totals over 2^32 bits and 2^32 bytes; outputs of BLAKE3 up to 128 kB.",
'C02': "One-shot reference digest against the same message cut at random, at block boundaries ±1, into empty, one-byte, char, byte and substring pieces, objects interleaved; totals crossing 2^32 bits and 2^32 bytes, for hashes and for SipHash.",
'C03': "All MACs against libcrypto or textbook code: every key length up to past the block, every message length around blocks, IVs, paddings; CMAC subkeys with and without the top bit; keyed BLAKE3 over trees of hundreds of chunks; multi-gigabyte messages.",
'C04': "Raw block ciphers against libcrypto, each object used several times, at random offsets, source and destination aliased, canaries around the destination; single-bit keys and blocks and 1000-fold chains reach all table entries. In `sw` the portable AES is the one that runs.",
'C05': "Modes against byte-wise textbook code over libcrypto blocks; every width n, counters started just below a carry at every byte, data fed in pieces.",
'C06': "Round trips, and ciphertexts forged by encrypting chosen last blocks so that arbitrary pad byte patterns are presented, against a textbook acceptor (message, bad padding, or wrong length); all values of the last two bytes are enumerated in `exhaustive`.",
'C07': "RC4 (every key length 1..256) and ChaCha20 (key, IV, 64/32-bit counters at and around 2^32 and 2^64) against libcrypto at arbitrary positions and splits; a single piece of over 4 GB.",
'C08': "Online monitor of the counter block behind each delivered block (keystream decrypted): distinct, in order, exactly 2^(8n) of them before the error, and refusal afterwards. n=1,2,3 run to the limit; n=4 (64 GB) only in thorough; larger n checked not to stop early.",
'C09': "GCM and ChaCha20-Poly1305 against libcrypto and against the definitions over GF(2^128) and 2^130-5; all header × message lengths 0..49, IV lengths 1..300, GCM counters steered to wrap, Poly1305 accumulators steered (by solving mod 2^130-5) to the edges of the field and of each limb; header and message lengths over 2^29 and 2^32.",
'C10': "Fault injection on sealed messages: each bit of short messages, headers, IVs and keys exhaustively; bits, lengths, swaps, truncations, extensions otherwise; data opened in arbitrary pieces with an alteration at the start, end and inside of every piece; long messages; headers of more than 2^29 (GCM) and 2^32 bytes; composed authenticated transforms. Oracle: no message (or a different tag).",
'C11': "Conservation monitor: the concatenation of everything taken out equals the reference transform of everything put in, `available_output` equals the next get, over random histories of all transforms and compositions; after a flush of a compressor (alone or feeding another transform) an independent inflater must recover everything put so far.",
'C12': "`asan`, `asansw` (ASan+UBSan), `hw` and `bc`, with red zones or guard pages around every byte string and red zones around every big number; hostile ranges (negative, overflowing, past the end) on each entry point, plus the via families. Oracles: sanitizers, canaries, page faults, and “an invalid range of positive length raises”.",
'C13': "All inputs are digested before and after; destinations lie inside larger patterned buffers; failing calls must leave everything as it was; constants of the library stay constant.",
'C14': "Each scenario is run undisturbed, then with a collection/compaction at each native allocation point in turn (enumerated) and at all of them; results must be equal. The via families repeat all other workloads with a collection at every native allocation. A reachability monitor scans roots after each stub. Large buffers (above the sizes from which a stub might release the runtime lock), entropy requests.",
'C15': "Two executions that differ only in the secret: after wipe, snapshots of all that is reachable from the object, and of native blocks it released, must be equal (including objects inside one-shot helpers, caught through the allocation hooks); objects wiped when fresh, mid-block, after whole blocks, after the result.",
'C16': "Interleaved, re-entrant (objects used from user-supplied hash/cipher/rng callbacks, signal handlers), threaded (also with large buffers), and recycled-memory (new key at the address of an old one) histories against solo runs; fresh memory and uninitialised C variables filled with garbage.",
'C17': "Offline checker: result logs of five configurations (hw, sw, and hw with AES, PCLMUL or both hidden) must be identical; online comparison with references; single stepping shows that no AES/PCLMUL instruction is executed when the processor does not announce it, and that the accelerated path is really taken when it does.",
'C18': "Position bookkeeping: each request is the next piece of the reference stream, for any request size, offset, interleaving and seed length.",
'C19': "Injected getentropy/read/RDRAND results are unique patterned bytes, so that each delivered byte can be traced to its source position: complete, in order, never twice; failures (single, or n in a row) injected at each call must raise or be survived without a gap. Requests up to 1.1 MB, two above 2^31 and 2^32 bytes; absent, dead, stuck and working hardware generators, each processor in a process of its own.",
'C20': "Generated and imported keys: every field recomputed with GMP; messages 0, 1, n-1, n, ≥ n, random; plain against CRT; generators that return chosen bytes.",
'C21': "As C20 for Paillier: sums of many ciphertexts, the message 0, blinding values, non-units, tiny keys.",
'C22': "Parameters of many sizes, secrets and messages against GMP, leading-zero secrets, derive_key against SHA-256 expansions.",
'C23': "Encoders against a textbook encoder, decoders against a textbook acceptor, all 256 bytes at all positions mod 4, junk, padding misuse; random histories.",
'C24': "As C23 for hexadecimal.",
'C25': "Streams checked in both directions with an independent zlib instance; flush prefixes recoverable; levels, raw or zlib; window-sized distances; pieces of over 4 GB.",
'C26': "Every byte of short streams altered in several ways, truncations, extensions, preset dictionaries, arbitrary bytes: error or original content; termination by the hang detector; `asan` variant.",
'C27': "Resource ledger: acquired = released after collection for create/use/wipe/double wipe/finish/fail/abandon histories; no bad release; descriptors counted.",
'C28': "Single-stepped instruction counts of string_equal/bytes_equal and of the tag check, equal for all contents of a length; exactness against structural equality at every position and length.",
'C29': "xor at all alignments, lengths and slices with canaries; mod_power, mod_mult, mod_inv and sign-edge operands against GMP.",
'C30': "Channels over pipes and files with injected short reads, errors and bursts; position after a bounded read.",
'C31': "Every constructor at every size in and around the domain (also sizes congruent to valid ones mod 2^8..2^32) against the documented table of results.",
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    out.append('* **%s — %s.** %s' % (p['id'], p['title'], P[p['id']]))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')) + sorted(glob.glob(V + '/seeded_ml/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.relpath(d, V), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
s = open(V + '/DESIGN.md').read()
def fill(s, tag, text):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    return s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(b):]
s = fill(s, 'properties', '\n'.join(out)); s = fill(s, 'planted', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
