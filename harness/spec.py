"""Per-property configuration of the check driver."""
DEFAULT_RULE = ("Cases are drawn by a deterministic generator from the property's families; an evaluation is one "
                "oracle comparison; distinct counts the different situation keys (operation, parameters, size class, history "
                "shape) in which the oracle was evaluated.")
HWSW = ["hw", "sw"]
R = "differential runtime monitor: real objects against independent reference implementations"
SPEC = {
 "C01": dict(variants=["hw"], thorough_variants=HWSW, technique=R + " (libcrypto 3.0 and textbook code)"),
 "C02": dict(variants=HWSW, technique="runtime monitor of feeding histories against one-shot reference digests"),
 "C03": dict(variants=HWSW, technique=R + " (libcrypto 3.0 and textbook code)"),
 "C04": dict(variants=HWSW, technique=R + " (libcrypto block ciphers), with destination/offset/aliasing monitors"),
 "C05": dict(variants=HWSW, technique=R + " (textbook chaining modes over libcrypto block ciphers)"),
 "C06": dict(variants=HWSW, technique="runtime monitor: round trips and mutated ciphertexts against a textbook padding acceptor"),
 "C07": dict(variants=HWSW, technique=R + " (libcrypto RC4 and ChaCha20)"),
 "C08": dict(variants=HWSW, technique="online monitor of delivered counter blocks (uniqueness and limit) over feeding histories"),
 "C09": dict(variants=HWSW, technique=R + " (libcrypto GCM/ChaCha20-Poly1305, GF(2^128) and 2^130-5 definitions)"),
 "C10": dict(variants=HWSW, technique="runtime monitor with fault injection: alterations of every component of sealed messages"),
 "C11": dict(variants=HWSW, technique="online conservation monitor on put/get/flush/finish histories"),
 "C12": dict(variants=["asan", "asansw", "hw"], technique="AddressSanitizer/UBSan with red-zoned OCaml strings, guard pages and canaries under hostile ranges"),
 "C13": dict(variants=HWSW, technique="runtime write monitor: canaries around destinations and digests of all inputs before/after"),
 "C14": dict(variants=["hw", "sw", "asansw"], technique="fault injection: collection/compaction forced at every native allocation point, results compared"),
 "C16": dict(variants=HWSW, technique="runtime monitor: interleaved, re-entrant and threaded histories with poisoned fresh memory against solo runs"),
 "C15": dict(variants=HWSW, technique="runtime secret-flow monitor: paired executions with different secrets, snapshots of everything reachable from (and released by) wiped objects compared"),
 "C17": dict(variants=["hw", "sw", "hw:VERIF_CPU_OFF=pclmul", "hw:VERIF_CPU_OFF=aes", "hw:VERIF_CPU_OFF=aes+pclmul"], post="same_transcripts",
             technique="offline checker over recorded result logs of five build/processor configurations, plus online reference comparison"),
 "C18": dict(variants=HWSW, technique="online monitor of generator streams (position bookkeeping) against reference keystreams"),
 "C19": dict(variants=["hw"], technique="fault injection on getentropy, read and RDRAND with an online conservation monitor of source bytes"),
 "C20": dict(variants=["hw"], thorough_variants=HWSW, technique=R + " (GMP arithmetic on every key field and result)"),
 "C21": dict(variants=["hw"], thorough_variants=HWSW, technique=R + " (GMP arithmetic)"),
 "C22": dict(variants=["hw"], thorough_variants=HWSW, technique=R + " (GMP arithmetic, libcrypto SHA-256)"),
 "C23": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique="runtime monitor: encoders against a textbook encoder, decoders against a textbook acceptor, over feeding histories"),
 "C24": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique="runtime monitor: encoders against a textbook encoder, decoders against a textbook acceptor, over feeding histories"),
 "C25": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique="runtime monitor of compression histories against an independent zlib instance (both directions)"),
 "C26": dict(variants=["hw", "asan"], technique="fault injection (corruptions at every position) with termination, content and AddressSanitizer monitors"),
 "C27": dict(variants=HWSW, technique="runtime resource ledger (every native allocation, zlib state and descriptor) over create/use/wipe/abandon/collect histories"),
 "C28": dict(variants=["hw"], technique="executed-instruction counting (single stepping) of the real comparison on generated pairs, plus exactness monitor"),
 "C29": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique=R + " (GMP arithmetic, bytewise xor) with canaries"),
 "C30": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique="runtime monitor with injected short reads and read errors, channel positions and outputs observed"),
 "C31": dict(variants=["hw"], thorough_variants=["hw", "asan"], technique="runtime acceptance monitor: every constructor at every size against the documented domain"),
}
# the same monitors over the library compiled to bytecode: it enters some stubs through other functions
for _k in ("C07", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C25", "C26"):
    SPEC[_k]["variants"] = SPEC[_k]["variants"] + ["bc:VERIF_SCALE=0.2"]
    if "thorough_variants" in SPEC[_k]: SPEC[_k]["thorough_variants"] = SPEC[_k]["thorough_variants"] + ["bc:VERIF_SCALE=0.1"]
for _k in ("C10", "C14", "C19", "C26"): SPEC[_k]["level"] = "fault_enumeration"
for _k, _v in SPEC.items():
    _v.setdefault("level_note", "Held on the executions observed; reach comes from the number and diversity of generated cases (counts in the evidence file).")
