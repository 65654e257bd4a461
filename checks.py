"""What every check runs: (mode of the driver, library variant, number of cases quick/thorough)."""
HARN = __file__.rsplit("/", 1)[0] + "/harness"
WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup")]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]
MSAN = ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"]

VARIANTS = {
    "plain": {"cc": "gcc", "cflags": ["-O2"]},
    "gold": {"cc": "gcc", "cflags": ["-O2"], "drv": "plain"},
    "wrap": {"cc": "gcc", "cflags": ["-O2"], "ld": WRAP, "drv": "plain"},
    # no -os option: the generator of the library itself
    "soft": {"cc": "gcc", "cflags": ["-O2", "-UKRIPTO_UNIX"], "ld": WRAP + ["-Wl,--wrap=" + f for f in ("time", "clock", "kripto_scrypt")], "drv": "plain"},
    # -os=windows: the system's calls end in harness/m_win.c
    "winrtl": {"cc": "gcc", "cflags": ["-O2", "-UKRIPTO_UNIX", "-DKRIPTO_WINDOWS", "-I" + HARN + "/win"], "ld": WRAP, "drv": "plain"},
    "wincrypt": {"cc": "gcc", "cflags": ["-O2", "-UKRIPTO_UNIX", "-DKRIPTO_WINDOWS", "-DKRIPTO_CRYPTGENRANDOM", "-I" + HARN + "/win"], "ld": WRAP, "drv": "plain"},
    "asan": {"cc": "clang", "cflags": ["-O1"] + ASAN, "drvflags": ASAN},
    "asannoasm": {"cc": "clang", "cflags": ["-O1", "-include", HARN + "/noasm.h"] + ASAN, "drv": "asan"},
    "asanle": {"cc": "clang", "cflags": ["-O1", "-DKRIPTO_LITTLE_ENDIAN"] + ASAN, "drv": "asan"},
    "tsan": {"cc": "clang", "cflags": ["-O1"] + TSAN, "drvflags": TSAN},
    "msan": {"cc": "clang", "cflags": ["-O1"] + MSAN, "drvflags": MSAN},
    # other ways to build the same sources
    "gccO0": {"cc": "gcc", "cflags": ["-O0"], "drv": "plain"},
    "gccO3": {"cc": "gcc", "cflags": ["-O3", "-funroll-loops"], "drv": "plain"},
    "gccOs": {"cc": "gcc", "cflags": ["-Os", "-funsigned-char", "-fno-strict-aliasing"], "drv": "plain"},
    "clangO2": {"cc": "clang", "cflags": ["-O2"], "drv": "plain"},
    "clangO3": {"cc": "clang", "cflags": ["-O3", "-fvisibility=default"], "drv": "plain"},
    "ndebug": {"cc": "gcc", "cflags": ["-O2", "-DNDEBUG"], "drv": "plain"},
    "le": {"cc": "gcc", "cflags": ["-O2", "-DKRIPTO_LITTLE_ENDIAN", "-fno-strict-aliasing"], "drv": "plain"},
    "noasm": {"cc": "gcc", "cflags": ["-O2", "-include", HARN + "/noasm.h"], "drv": "plain"},
    # 32-bit int, long, size_t and pointers (harness/m_ilp32.c)
    "ilp32": {"cc": "gcc", "cflags": ["-O3"], "m32": True, "drv": "plain"},
}


def J(mode, quick, thorough, variant="plain", gold=False, **kw):
    return dict(mode=mode, variant=variant, n=(quick, thorough), gold=gold, **kw)


# what the 32-bit build is put through on its own: mode, cases, reference wanted
ILP32 = (
    ("block", 60000, True), ("blockinv", 40000, False), ("stream", 4000, True), ("streamseg", 2000, False), ("modes", 30000, False),
    ("hash", 4000, True), ("hashseg", 2000, False), ("mac", 4000, True), ("macseg", 2000, False), ("ae", 4000, True), ("aeseal", 2000, False),
    ("pbkdf2", 300, False), ("scrypt", 60, False), ("recreate", 20000, False), ("oneshot", 8000, False),
)

CHECKS = {
    "C01": dict(jobs=[J("block", 2000000, 12000000, gold=True), J("orcblock", 16000, 400000)],
                rule='Case n takes cipher n mod (number of ciphers) and sweeps its key lengths; rounds (0 or supported), tweak, key and a chain of blocks are random or structured (single bits, runs of 00/FF, short keys). Non-trivial: the library computed at least one block that the oracle computed too; distinct by (cipher, rounds, key length, key prefix, tweak).'),
    "C02": dict(jobs=[J("blockinv", 2400000, 16000000), J("manyuse", 64, 1000)], rule='Every case makes one object and pushes 16 blocks through decrypt(encrypt()) and encrypt(decrypt()), in place and between buffers, interleaving directions. Distinct by (cipher, rounds, key length, key prefix).'),
    "C03": dict(jobs=[J("recreate", 1200000, 9000000), J("manyre", 80, 1600)], rule='A random history (0..12 operations, partial buffers, several recreations with other parameters), then recreate and a fresh object with the same parameters run the same operation script. Distinct by (algorithm, parameters, output hash).'),
    "C04": dict(jobs=[J("stream", 90000, 600000, gold=True), J("streamlong", 96, 2000, gold=True), J("orcstream", 8000, 200000), J("streamfar", 160, 4000, gold=True), J("streamkey", 240, 6000, gold=True)], rule='Stream, rounds, key and IV lengths swept, message up to several blocks, cut at random; compared with the oracle. streamfar: the position counter is found in the object, moved to just below 2^32 and the crossing compared; streamkey: keys and IVs of up to some 2^24 bytes where the cipher takes them. Distinct by (stream, rounds, key/IV lengths, length, key prefix).'),
    "C05": dict(jobs=[J("modes", 1500000, 9000000), J("orcstream", 8000, 200000)], rule='Mode and cipher random, IV biased to all-FF suffixes of every width, message cut at random; every byte is recomputed from single block calls. Distinct by (mode, cipher, IV, length, direction).'),
    "C06": dict(jobs=[J("streamseg", 60000, 700000), J("hugestream", 39, 39, shards=39), J("manystream", 64, 2000)], rule='One message through five passes: at once, two random segmentations, in place, decrypted back, and the generator. Distinct by (stream, key, lengths, segmentation).'),
    "C07": dict(jobs=[J("hash", 40000, 1000000, gold=True), J("hashlong", 16, 48, gold=True), J("orchash", 16000, 400000), J("hashfar", 160, 4000, gold=True), J("hashsalt", 120, 4000, gold=True), J("hashout", 80, 800, gold=True)], rule='Hash n mod (number of hashes), output length, salt and rounds swept, message length biased to block multiples +-(padding size). hashlong: one message above 2^32 bits per hash. hashfar: the length counter is moved to just below 2^32; hashsalt: long salts; hashout: outputs of over 2^8, 2^16 and 2^24 blocks. Distinct by (hash, out length, salt, rounds, message length and prefix).'),
    "C08": dict(jobs=[J("hashseg", 60000, 1000000), J("hashout", 80, 800), J("hugehash", 19, 19, shards=19), J("manyhash", 64, 2000)], rule='Three random segmentations per message against one call, plus output in pieces where supported. Distinct by (hash, parameters, length, cuts).'),
    "C09": dict(jobs=[J("mac", 90000, 1500000, gold=True), J("orcmac", 16000, 400000), J("maclong", 80, 1600, gold=True), J("orchmac", 14, 14), J("macfar", 120, 3000, gold=True), J("mackey", 300, 8000, gold=True)], rule='MAC and primitive random, key and tag lengths swept around the block size, message length biased to block boundaries; tags recomputed from the definition over public calls, and compared with the reference and OpenSSL. macfar/mackey: counters crossing 2^32, very long keys. Distinct by (MAC, parameters, message).'),
    "C10": dict(jobs=[J("macseg", 90000, 1500000), J("hugemac", 18, 18, shards=18), J("manymac", 64, 2000)], rule='Random segmentation against one call and the one-call function; verification of the right tag and of changed tags and messages. Distinct by (MAC, parameters, message, segmentation).'),
    "C11": dict(jobs=[J("ae", 90000, 1500000, gold=True), J("orceax", 8000, 200000), J("aelong", 40, 1000, gold=True)], rule='EAX/EAX2 composition, nonce, header, message and tag lengths random with zero and block boundaries; ciphertext and tag recomputed from the definition. Distinct by (composition, parameters, lengths, key prefix).'),
    "C12": dict(jobs=[J("aeseal", 80000, 1000000), J("hugeae", 6, 6, shards=6), J("manyae", 16, 400)], rule='Seal, then four openings/sealings with different segmentation and order, then up to six single changes (tag, ciphertext, header, nonce, key, length), each of which must be refused. Distinct by (composition, parameters, lengths, key prefix).'),
    "C13": dict(jobs=[J("pbkdf2", 5000, 100000), J("pbkdf2long", 1, 4), J("scrypt", 1500, 40000), J("orckdf", 2000, 60000), J("kdflong", 96, 3000, gold=True), J("kdfiter", 24, 400), J("kdfblocks", 6, 48), J("scryptwide", 64, 2000, gold=True), J("scryptbig", 1, 3, gold=True)], rule='Password, salt, iterations and output length random around MAC block and tag boundaries; result recomputed from the RFC; scrypt with small N, r, p and oversize parameters that must be refused. kdflong/scryptbig: long passwords and salts, buffers beyond 4 GiB; kdfiter: up to 2^26 iterations over a MAC that is a linear step, recomputed from the definition; kdfblocks: outputs of over 2^24 blocks and over 4 GiB; scryptwide: large N, r or p. Distinct by parameters.'),
    "C14": dict(jobs=[J("pkcs7", 200000, 8000000), J("hugemem", 2, 2)], rule='Block size 1..255, length 0..2 blocks, buffer with guard bytes; every kind of ending; hugemem: more than 4 GiB. Distinct by (block size, length, ending).'),
    "C15": dict(jobs=[J("memory", 180000, 3000000), J("ct", 24, 120), J("hugemem", 2, 2)], rule='Every single-bit difference of ranges up to 100 bytes at all alignments, longer ranges sampled; wipes between guard bytes; hugemem: ranges of more than 4 GiB. ct: two or more executions on inputs of equal lengths are single-stepped and their program-counter traces compared. Distinct by (length, alignment, content).'),
    "C16": dict(jobs=[J(m, 8 * q, 150 * q, "asan") for m, q in (
        ("life", 6000), ("oneshot", 6000), ("recreate", 4000), ("blockinv", 8000), ("streamseg", 1500), ("hashseg", 2500), ("macseg", 3000),
        ("aeseal", 2000), ("pbkdf2", 400), ("scrypt", 150), ("pkcs7", 20000), ("memory", 4000), ("meta", 144), ("random", 40), ("place", 3000))]
        + [J(m, 8 * q, 100 * q, v) for v in ("asannoasm", "asanle") for m, q in (("life", 1500), ("oneshot", 1500), ("blockinv", 2500), ("hashseg", 600), ("streamseg", 400), ("aeseal", 500))],
        rule='Generated API workloads (object lifetimes, one-call functions, segmentation, sealing, key derivation, padding, random source) in an ASan+UBSan build with exact-size heap buffers. Distinct by parameters and operation script.'),
    "C17": dict(jobs=[J("manymake", 80, 1600), J("determinism", 160000, 2000000)] + [J(m, 6 * q, 100 * q, "msan") for m, q in (
        ("life", 4000), ("oneshot", 4000), ("recreate", 3000), ("blockinv", 6000), ("hashseg", 2000), ("macseg", 2000), ("aeseal", 1500),
        ("pbkdf2", 300), ("scrypt", 100), ("pkcs7", 10000))], rule='The same script twice over heap and stack filled with different garbage (plain build), and generated workloads in a MemorySanitizer build in which every output byte is checked for being initialised. Distinct by parameters and operation script.'),
    "C18": dict(jobs=[J("wipe", 900000, 6000000, "wrap")], rule='A scenario (create, use, recreate, one-call functions, allocation failure at some point) is run twice with different secrets of equal shape; every block freed is compared byte by byte between the runs. Distinct by scenario parameters.'),
    "C19": dict(jobs=[J("oom", 400000, 3000000, "wrap")], rule='Every generated call is first run counting its allocations, then again with the k-th failing for every k (and with all from k on); afterwards the heap must be balanced and a retry must work. Distinct by (call, parameters, k).', level="fault_enumeration"),
    "C20": dict(jobs=[J("threads", 5000, 60000, shards=2), J("threads", 1500, 20000, "tsan", shards=2), J("firstuse", 136, 1360, "tsan", shards=1360), J("handover", 6000, 100000, shards=3), J("handover", 1200, 20000, "tsan", shards=3)], rule='2..8 threads run random scripts on own objects, on shared descriptors and on constant shared data, started together with injected yields; transcripts are compared with a later sequential run, and a ThreadSanitizer build watches for races; firstuse: a fresh process per case, in which all threads use one algorithm for the first time together; handover: objects created, used, recreated and destroyed each time by another thread. Distinct by scripts.'),
    "C21": dict(jobs=[J("place", 900000, 6000000)], rule='The same call with plain buffers and with buffers that end or start at an inaccessible page or have random alignment, inputs in read-only pages, key memory destroyed after create. Distinct by (algorithm, placement, lengths).'),
    "C22": dict(jobs=[J("builds", 80000, 600000, also=["gccO0", "gccO3", "gccOs", "clangO2", "clangO3", "ndebug", "le", "noasm", "ilp32"])] + [J(m, q, 30 * q, "ilp32", gold=g) for m, q, g in ILP32], rule='One script on ten builds of the same sources in one process, one of them with 32-bit pointers; all outputs must agree. Then the monitors of the other properties on the 32-bit build alone. Distinct by parameters and outputs.'),
    "C23": dict(jobs=[J("meta", 312, 3120)], rule="Every descriptor's limits against the table, then creation and use with every key, IV, salt, tweak, tag and output length within them (long ranges sampled). Distinct by (algorithm, round)."),
    "C24": dict(jobs=[J("random", 20000, 120000), J("hugerandom", 1, 3)], rule='Sources: files of random contents read in random pieces to and past the end, pipes delivering in dribbles, missing files, the system source, forks, directories, and eighteen kinds of bad source for the self test; no descriptor may stay open. hugerandom: one request beyond 2^32 bytes. Distinct by source and request pattern.'),
    "C25": dict(jobs=[J("leak", 1200000, 8000000, "wrap")], rule='Random histories on a wrapped allocator with red zones and quarantine; balance after destruction, growth over repeated recreation. Distinct by history.'),
    "C26": dict(jobs=[J("interleave", 200000, 1000000), J("manylive", 160, 1600)], rule='2..6 objects, each with a script; all scripts interleaved at random at operation granularity and compared with each object run alone. Distinct by scripts and schedule.'),
    "C28": dict(jobs=[J("soft", 1000, 20000, "soft")], rule='1..3 generators, 3..25 requests of 0 bytes to more than the 5 MB of one seed, the clock moved across the 300 s limit; one case in four fails every allocation and every seed of a creation and of a new seed in turn. Distinct by output.'),
    "C29": dict(jobs=[J("win", 100000, 1000000, "winrtl"), J("win", 100000, 1000000, "wincrypt")], rule='1..3 sources, up to 12 requests of 0 to 60000 bytes, one in five while the system fails, one case in 50 a request of 2^31 to 2^33 bytes; one in five fails creation at every point. Distinct by (handles, requests, bytes).'),
    "C30": dict(jobs=[J("iface", 16, 16, shards=1, ifaces=["%s:%d" % (c, i) for i, c in enumerate(4 * ["gcc -std=c99", "g++ -x c++", "clang -std=c11", "clang++ -x c++"])])],
        rule='Sixteen parts of a program, in C and C++ by two compilers, each including all public headers in another order (some twice), list every declaration; the dynamic linker must resolve each one to the library. Distinct by (program part, declaration).'),
    "C27": dict(jobs=[J("inline", 60 * 1700, 600 * 1700, shims=["plain", "gccO0", "gccO3", "gccOs", "clangO2", "clangO3", "le", "noasm"]),
        J("inline", 2 * 640, 100 * 640, "asan", shims=["asan", "asannoasm", "asanle"])],
        rule='Case n takes helper n mod (helpers x builds) and 600 values: random, single bits, runs; counts random, lengths 0..6 words with partial words, offsets, unaligned buffers with guard bytes. Distinct by (helper, build, round).'),
    "C31": dict(jobs=[J("pure", 24000, 400000, "wrap")], rule='Each generated scenario (creation, operations, recreation, destruction, one-call functions, key derivation, again with failed allocations, refused tags, padding) runs in a process of its own whose system calls are filtered: everything but memory is recorded, as are clock, environment and libc random reads, and the process state is compared afterwards. Distinct by (algorithm, parameters, operations).'),
}
