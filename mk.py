#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json; run after editing"""
import json, os, subprocess
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [dict(zip(("name", "where"), m)) for m in mech]}
    if state:
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note))


VEC = "The existing tests run a fixed set of published vectors"
prop("C01", "Block ciphers compute their published functions",
     "For every block cipher, every supported key length, round count (0 meaning the cipher's default for that key) and tweak, encrypting and decrypting one block gives exactly the value the cipher's specification defines. Unsupported rounds, key and tweak lengths are outside the property.",
     ["inputs"], "all ciphers x key lengths x rounds x tweaks x keys x blocks",
     VEC + " for 30-odd ciphers, mostly one or two key lengths and the default rounds; a wrong table entry, key schedule branch or round count elsewhere is invisible to them.",
     ["lib/block/*.c", "lib/block.c", "include/kripto/block.h", "include/kripto/loadstore.h", "include/kripto/rotate.h"],
     [("key schedules and round functions", "lib/block/*.c: *_recreate, *_encrypt, *_decrypt"), ("default rounds chosen from the key length", "lib/block/*.c: recreate"), ("byte order and rotations", "include/kripto/loadstore.h, rotate.h")],
     "runtime differential monitor against a reference build, OpenSSL and libgcrypt",
     "Every cipher, key length and round count swept systematically, keys and blocks random and structured. Oracles: a committed reference copy of the (repaired) library that was checked against the specifications, plus OpenSSL and libgcrypt where they implement the cipher. Sampled, not exhaustive.",
     observe=["kripto_block_create/recreate/tweak/encrypt/decrypt"])
prop("C02", "Block decryption inverts encryption and conversely",
     "For every block cipher, key, round count and tweak, decrypting the encryption of any block returns that block, and encrypting the decryption of any block returns it too, whether input and output are the same buffer or not and however often the same object has been used. Encrypting and decrypting never change what the object computes afterwards.",
     ["inputs", "histories"], "all ciphers x key lengths x rounds x tweaks x blocks, both directions, in place and not, repeatedly",
     VEC + "; they decrypt only the ciphertexts of those vectors.",
     ["lib/block/*.c", "lib/block.c"],
     [("encrypt/decrypt pairs and their key schedules", "lib/block/*.c: *_encrypt, *_decrypt"), ("decryption keys derived from encryption keys", "lib/block/*.c: *_recreate")],
     "runtime round-trip monitor over generated keys and blocks",
     "The oracle is the identity itself and needs no reference; exploration by case counts over every cipher, key length, rounds and tweak.")
prop("C03", "Recreate leaves nothing of the object's past",
     "For every block cipher, stream, hash, MAC and authenticated-encryption object, after any sequence of operations, recreating it with some parameters (other key length, rounds, IV, salt, tweak or tag length included) gives an object whose every later output equals that of a freshly created object with those parameters. This holds for any number of recreations in a row and for any point of use at which they happen.",
     ["histories", "inputs"], "all objects x operation histories x parameter pairs x later operations",
     "The tests call recreate at most once per vector, with the same key length and after complete operations.",
     ["lib/block/*.c", "lib/stream/*.c", "lib/hash/*.c", "lib/mac/*.c", "lib/ae/*.c"],
     [("recreate resets counters, buffers, rounds and derived keys", "lib/*/*.c: *_recreate"), ("composite objects recreate their parts", "lib/mac/hmac.c, omac.c, xcbc.c, lib/ae/eax.c, eax2.c, lib/stream/{cbc,cfb,ctr,ecb,ofb}.c")],
     "runtime equivalence monitor: recreated object against a fresh one on random histories",
     "Transcripts of identical operation sequences on the recreated and the fresh object are compared byte by byte; no reference needed. Histories are random, biased to partial buffers.")
prop("C04", "Native stream ciphers produce their specified keystream",
     "For ChaCha, Salsa20, RC4 and the Keccak and Skein stream generators, every supported key, IV length and round count gives exactly the specified keystream at every position, and encryption is the exclusive-or of data and keystream. The keystream continues correctly over block boundaries and counter carries.",
     ["inputs"], "all native streams x key/IV lengths x rounds x positions",
     VEC + " of one or two blocks; long outputs, other IV and key lengths and rounds are not reached.",
     ["lib/stream/chacha.c", "lib/stream/salsa20.c", "lib/stream/rc4.c", "lib/stream/keccak.c", "lib/stream/skein256.c", "lib/stream/skein512.c", "lib/stream/skein1024.c"],
     [("keystream block functions and counters", "lib/stream/*.c"), ("leftover keystream bookkeeping", "lib/stream/*.c: used/i")],
     "runtime differential monitor against a reference build, OpenSSL and libgcrypt",
     "Reference build for all, OpenSSL/libgcrypt for ChaCha20, Salsa20 and RC4. Counters beyond what a run can generate are reached only through the IV where the cipher allows it.")
prop("C05", "Block modes ECB, CBC, CFB, OFB and CTR follow their definitions",
     "For every block cipher, ECB, CBC, CFB, OFB and CTR encryption and decryption give exactly what the mode's textbook definition gives over that cipher with the given IV (shorter IVs zero-padded at the end; CFB and OFB with full-block feedback). CTR counts big-endian over the whole block, carries included, wrapping at the end.",
     ["inputs", "histories"], "modes x ciphers x keys x IVs (counters about to carry) x lengths x segmentations x directions",
     VEC + " with the AES example IVs, never near a counter carry, one cipher and one call.",
     ["lib/stream/ecb.c", "lib/stream/cbc.c", "lib/stream/cfb.c", "lib/stream/ofb.c", "lib/stream/ctr.c"],
     [("chaining value and feedback buffer", "lib/stream/{cbc,cfb,ofb}.c"), ("counter increment with carry", "lib/stream/ctr.c")],
     "online model monitor: textbook mode recomputed from single block calls; OpenSSL cross-check",
     "The model uses only the library's own single-block calls, so it is independent of the mode code; IVs are biased to carries of every width.")
prop("C06", "Stream results do not depend on how the data is cut into calls",
     "For every stream and mode, a message encrypted (or decrypted) in any sequence of calls whose sizes are allowed by the stream's block multiple gives the same bytes as in a single call, decryption of the ciphertext returns the plaintext, and the pseudo-random output of a keystream generator equals its encryption of zeros. Neither cutting, zero-length calls, nor working in place changes any byte.",
     ["inputs", "histories"], "streams x keys x messages x cut points x in place or not",
     "The tests process each vector in a fixed way; cut points inside blocks are combinatorially many.",
     ["lib/stream.c", "lib/stream/*.c"],
     [("leftover keystream/feedback index", "lib/stream/*.c: s->used, s->i"), ("block multiple declared per object", "lib/stream/*.c: multof")],
     "runtime metamorphic monitor on random segmentations",
     "Segmentations are random with bias to block boundaries +-1 and single bytes; lengths to several blocks.")
prop("C07", "Hash functions compute their published digests",
     "For every hash (MD5, SHA-1, SHA-2, SHA-3, Keccak, BLAKE, BLAKE2, Skein, Tiger, Whirlpool), every supported output length, salt and round count, and every message length including those beyond 2^32 bits, the digest is exactly the specified one.",
     ["inputs"], "hashes x output lengths x salts x rounds x message lengths and contents",
     VEC + ": short messages, default output lengths, no salts; several hashes have no test at all.",
     ["lib/hash/*.c", "lib/hash.c"],
     [("padding and length counters", "lib/hash/*.c: *_output, s->len"), ("compression functions", "lib/hash/*.c"), ("initial state from output length and salt", "lib/hash/*.c: *_recreate")],
     "runtime differential monitor against a reference build, OpenSSL and libgcrypt",
     "Message lengths concentrate around block multiples and the padding limits; one message above 512 MiB per hash covers the upper length word. OpenSSL/libgcrypt for those they implement.")
prop("C08", "Digests do not depend on how the message is cut into calls",
     "For every hash, feeding a message in any number of input calls of any sizes (zero included) gives the same digest as feeding it in one call and as the one-call function. Output read in several pieces, where the hash produces extendable output, continues where the previous piece ended and equals output read at once.",
     ["inputs", "histories"], "hashes x messages x cut points, input and output",
     "The tests feed each message in one call.",
     ["lib/hash.c", "lib/hash/*.c"],
     [("partial block buffer", "lib/hash/*.c: s->i, *_input"), ("output position", "lib/hash/*.c: *_output"), ("one-call function", "lib/hash.c: kripto_hash_all")],
     "runtime metamorphic monitor on random segmentations", "Needs no reference; segmentations biased to block boundaries.")
prop("C09", "MACs compute their published tags",
     "For HMAC over every hash, OMAC (CMAC) and XCBC over every block cipher, and the Keccak and Skein MACs, the tag is exactly the one the definition (RFC 2104, SP 800-38B, RFC 3566, Skein 1.3, Keccak prefix-MAC) gives for any key length, message length and tag length; a block-cipher MAC's shorter tag is the beginning of the full one. BLAKE2 under HMAC uses the BLAKE2 variant of the tag's length.",
     ["inputs"], "MACs x underlying primitives x key lengths x message lengths x tag lengths",
     VEC + " for HMAC, OMAC and XCBC over one or two primitives.",
     ["lib/mac.c", "lib/mac/*.c"],
     [("inner and outer keys, long keys hashed first", "lib/mac/hmac.c"), ("subkeys and last block padding", "lib/mac/omac.c, lib/mac/xcbc.c"), ("key block processing", "lib/mac/skein*.c, lib/mac/keccak.c")],
     "online model monitor: definition recomputed from public hash/block calls; OpenSSL and reference build cross-check",
     "HMAC with a tag shorter than the digest and HMAC over SHA-3 deviate from RFC 2104 (known findings); there the monitor pins the present behaviour.")
prop("C10", "MAC tags: chunking, one-call and verification agree",
     "For every MAC, any cutting of the message into input calls gives the same tag as one call and as the one-call function, and tags of every MAC but HMAC come out the same read at once or in pieces. Verification accepts exactly the tag that was computed and refuses every other tag of that length, wherever the difference lies, and messages that differ get refused.",
     ["inputs", "histories"], "MACs x keys x messages x cut points x wrong tags",
     "The tests compute tags with one or two input calls and never call verify with a wrong tag.",
     ["lib/mac.c", "lib/mac/*.c", "lib/memory.c"],
     [("one-call and verify functions", "lib/mac.c: kripto_mac_all, kripto_mac_verify"), ("partial block handling", "lib/mac/*.c: *_input"), ("comparison", "lib/memory.c: kripto_memory_equals")],
     "runtime metamorphic and accept/refuse monitor", "Every single-bit tag change is tried for part of the cases, otherwise random bits, first/last bytes and swapped halves.")
prop("C11", "EAX and EAX2 compute what their papers define",
     "For every block cipher (EAX) and every MAC and stream combination (EAX2), the ciphertext and tag of a message under a key, nonce and header are exactly those of the definition, whatever the lengths of nonce, header, message and tag and whether header or message data is supplied first.",
     ["inputs", "histories"], "ciphers/compositions x keys x nonces x headers x messages x tag lengths x call orders",
     "The tests run ten published AES-128 vectors of EAX; nothing for EAX2.",
     ["lib/ae.c", "lib/ae/eax.c", "lib/ae/eax2.c"],
     [("domain-separated MACs of nonce, header and ciphertext", "lib/ae/eax.c, eax2.c: create, recreate"), ("tag combination", "lib/ae/eax.c, eax2.c: tag")],
     "online model monitor: definition recomputed from public MAC and stream calls; libgcrypt EAX cross-check",
     "EAX2's key handling has no published vectors; the model is the composition as documented by the reference build.")
prop("C12", "Authenticated encryption round trip and tamper detection",
     "Data sealed with any authenticated-encryption object opens to the same data under the same key, nonce and header, and the tag computed while decrypting equals the tag computed while encrypting, however each side cuts its calls. Opening after any change to tag, ciphertext, header or nonce, or under a key that makes the cipher a different function, is refused by verification.",
     ["inputs", "histories"], "ciphers/compositions x messages x segmentations x single changes",
     "The tests only check fixed vectors; a tamper that goes unnoticed for some length or position is not reachable with them.",
     ["lib/ae.c", "lib/ae/eax.c", "lib/ae/eax2.c", "lib/mac.c"],
     [("tag covers nonce, header and ciphertext", "lib/ae/eax.c, eax2.c"), ("encrypt MACs output, decrypt MACs input", "lib/ae/eax.c, eax2.c: encrypt, decrypt")],
     "runtime round-trip and tamper monitor", "Tamper refusals are only demanded where an accidental collision is practically impossible (tags of at least 8 bytes).")
prop("C13", "PBKDF2 and scrypt derive exactly the specified keys",
     "PBKDF2 over any MAC gives exactly the output of RFC 8018 for any password, salt, iteration count and output length, including outputs of many blocks and partial last blocks, and scrypt that of RFC 7914 for any N, r, p. Parameters whose buffer sizes cannot be represented are reported as errors, never answered with a wrong key.",
     ["inputs", "configurations"], "MACs x passwords x salts x iterations x output lengths; N x r x p x lengths",
     VEC + " of PBKDF2-HMAC-SHA1 and scrypt with a handful of parameters.",
     ["lib/pbkdf2.c", "lib/scrypt.c"],
     [("block counter, iteration xor, partial last block", "lib/pbkdf2.c"), ("ROMix, BlockMix, integerify", "lib/scrypt.c"), ("size checks", "lib/scrypt.c")],
     "online model monitor: RFC definitions recomputed over the public MAC; OpenSSL cross-check",
     "Iteration counts and N are kept small; one output of more than 65536 blocks covers the counter's third byte.")
prop("C14", "PKCS #7 padding is added and removed exactly",
     "Adding PKCS #7 padding gives data extended to the next block multiple by n bytes of value n (a full block when already aligned), in place of nothing else, for every block size, or returns 0 and changes nothing when the given maximum leaves no room; removing padding from the result returns the original length. Removal takes the last byte as the count to remove; a count beyond the length removes nothing. No byte outside the given buffer is read or written.",
     ["inputs"], "block sizes x lengths x contents x endings",
     "There is no test of PKCS #7.",
     ["lib/pkcs7.c", "include/kripto/pkcs7.h"],
     [("padding length and check", "lib/pkcs7.c")],
     "runtime model monitor with guarded buffers", "Block sizes 1..255, lengths around multiples, endings of every value; huge buffers beyond 4 GiB.")
prop("C15", "Comparison is exact and constant-time; wipe clears the whole range",
     "Comparing two memory ranges says equal exactly when all bytes agree, for every length and position of a difference. The instructions executed by the comparison, and by MAC tag verification, depend only on the lengths, not on where or whether the contents differ. Wiping sets every byte of the given range to zero and touches no other byte, also when the buffer is not used afterwards.",
     ["inputs"], "lengths x alignments x difference positions",
     "There is no test of these functions, and timing is not a functional result.",
     ["lib/memory.c", "lib/mac.c"],
     [("accumulating comparison", "lib/memory.c: kripto_memory_equals"), ("volatile wipe", "lib/memory.c: kripto_memory_wipe")],
     "runtime monitor of results, plus single-step instruction-trace comparison",
     "Traces (the sequence of program counters from hardware single stepping) are compared between inputs of equal length on this compiler and optimisation level; data-dependent memory addresses within an instruction are not observed.")
P3 = P.pop()   # three sentences at most
P3[0]["statement"] = "Comparing two memory ranges says equal exactly when all bytes agree, for every length and position of a difference, and the instructions executed by it and by MAC tag verification depend only on the lengths, never on whether or where contents differ. Wiping sets every byte of the given range to zero and touches no other byte."
P.append(P3)
prop("C16", "No memory error or undefined behaviour on any valid use",
     "Any sequence of API calls with parameters inside the documented limits, over every algorithm and composition, reads and writes only the memory it was given, never uses freed memory, and executes no undefined behaviour (overflowing signed arithmetic, oversized shifts, misaligned access, null arithmetic). No assertion of the library fails on such calls.",
     ["inputs", "histories", "configurations"], "all algorithms x parameters x operation sequences, buffers of exact size",
     "The tests run without instrumentation and with roomy buffers; an over-read or overflow does not change their result.",
     ["lib/*.c", "lib/*/*.c", "include/kripto/*.h"],
     [("buffer sizes computed from descriptors", "lib/*/*.c: create"), ("index bookkeeping", "lib/*/*.c: input/output")],
     "AddressSanitizer and UndefinedBehaviorSanitizer under generated API workloads with exact-size buffers",
     "Covers the executions generated; clang's ASan and UBSan (without the function-type check) decide.")
prop("C17", "Results depend only on inputs, never on uninitialised memory",
     "Every output of every function is a function of its documented inputs alone: repeating the same calls after any previous use of the heap and stack gives the same bytes. No decision or output depends on memory that was not initialised.",
     ["histories", "inputs"], "all objects x operation sequences x previous memory contents",
     "Under the tests memory is mostly fresh and zero, so a missing initialisation goes unnoticed.",
     ["lib/*.c", "lib/*/*.c"],
     [("initialisation at create and recreate", "lib/*/*.c: create, recreate")],
     "MemorySanitizer under generated API workloads, plus repeat runs over differently filled heap and stack",
     "Covers the executions generated.")
prop("C18", "No key-dependent data is left in freed heap memory",
     "When an object is destroyed, when a recreate or create fails, and when a one-call function returns, every heap block the library frees contains nothing that depends on keys, messages or other secret inputs. This holds for every algorithm and composition and at every stage of use.",
     ["histories", "fault_sequences", "inputs"], "all objects and one-call functions x stages of use x allocation failures",
     "Freed memory is not observable in a functional test.",
     ["lib/memory.c", "lib/*/*.c: destroy", "lib/pbkdf2.c", "lib/scrypt.c", "lib/mac.c", "lib/hash.c"],
     [("wipe before free", "lib/*/*.c: kripto_memory_wipe in *_destroy and failure paths")],
     "runtime heap monitor: blocks captured at free in two runs that differ only in secrets",
     "Two executions with equal shapes and different secrets must leave identical bytes in every freed block. Stack residue is not covered.",
     observe=["free() through a link-time wrapper"])
prop("C19", "Allocation failure is reported cleanly, never crashes or leaks",
     "Whenever any single or several memory allocations fail during creation, recreation, a one-call function or the construction of a composite, the call reports failure by its documented null or error return, nothing is leaked, freed twice or used after free, and a later retry with memory available works normally.",
     ["fault_sequences"], "every API call that allocates x every allocation it makes, first failing and all later failing",
     "Allocation never fails in the tests.",
     ["lib/*/*.c: create, recreate", "lib/pbkdf2.c", "lib/scrypt.c", "lib/hash.c", "lib/mac.c"],
     [("null checks and unwinding", "lib/*/*.c: create, recreate")],
     "fault injection at every allocation with a heap monitor",
     "For each generated call the k-th allocation is failed for every k it performs (alone and with all later ones).")
prop("C20", "Separate objects can be used in parallel threads",
     "Threads that each work with their own objects, and threads that share only a descriptor, get exactly the results of a sequential run under every schedule, without data races. This includes the first use of any algorithm, and objects that are handed from one thread to another between calls.",
     ["schedules", "histories"], "all objects x concurrent operation sequences x schedules",
     "The tests are single-threaded.",
     ["lib/*.c", "lib/*/*.c"],
     [("no mutable global state", "lib/*/*.c: const tables, const descriptors")],
     "ThreadSanitizer and concurrent-versus-sequential transcript comparison",
     "Schedules are those the machine and injected yields produce; TSan's happens-before analysis generalises over them.")
prop("C21", "Inputs stay untouched and outputs are exactly what was asked for",
     "No function modifies the key, IV, salt, header, message or other memory it receives as input (in-place calls excepted), writes outside the requested output length, reads outside the given inputs, or keeps referring to caller memory after the call. Results are the same at every alignment of every buffer and in place.",
     ["inputs", "histories"], "all functions x alignments x buffers adjacent to inaccessible pages x in-place use",
     "The tests use aligned, padded buffers and compare only the expected bytes.",
     ["lib/*.c", "lib/*/*.c", "include/kripto/loadstore.h", "include/kripto/cast.h"],
     [("unaligned load/store macros", "include/kripto/loadstore.h"), ("const-correct inputs", "include/kripto/*.h")],
     "guard-page and read-only-input monitor with placement comparison",
     "Reads outside the buffers are seen when they cross the page; C16 adds byte precision.")
prop("C22", "Every build configuration computes the same results",
     "Compiling the same sources with any conforming compiler, optimisation level, assertions on or off, with or without inline assembly, with the declared or the portable byte-order code, and for processors with 64-bit or 32-bit words and pointers, gives bit-identical outputs for all operations.",
     ["configurations", "inputs"], "build configurations x all objects x operation sequences",
     "The tests run one configuration; the portable branches are never compiled there.",
     ["include/kripto/loadstore.h", "include/kripto/rotate.h", "lib/block/3way.c", "lib/*/*.c"],
     [("conditional code for byte order and rotations", "include/kripto/loadstore.h, rotate.h")],
     "runtime lockstep comparison of ten builds (one of them 32-bit) on identical operation scripts; the behavioural monitors again on the 32-bit build",
     "gcc and clang at -O0/-Os/-O2/-O3, NDEBUG, KRIPTO_LITTLE_ENDIAN, no inline assembly, gcc -m32; big-endian code cannot run here.")
prop("C23", "Descriptors state the true limits and sizes",
     "For every algorithm and composition, the limits a descriptor reports (maximum key, IV, salt, tweak, tag and output lengths, block size, rate, maximum rounds) are the specified ones, every value within them is accepted and usable, and an object's reported block multiple and size hold for its operations.",
     ["configurations", "inputs"], "algorithms x limits x values within them",
     "Tests pass fixed lengths and never read most limits.",
     ["include/kripto/desc/*.h", "lib/block.c", "lib/stream.c", "lib/hash.c", "lib/mac.c", "lib/ae.c", "lib/version.c", "lib/*/*.c: descriptors"],
     [("static and computed descriptors", "lib/*/*.c"), ("accessors", "lib/*.c")],
     "runtime monitor against a table of specified limits, exercising every value", "The table was taken from the specifications and headers.")
prop("C24", "The random source fills the buffer or reports failure",
     "A read from the random source fills the whole requested buffer with bytes of the source, in order, or reports how much it could deliver; missing, unreadable or exhausted sources are reported, and a destroyed source is closed. No byte of the source is delivered twice, by several objects in one process or by a parent and child after a fork. The statistical self test accepts good sources and refuses constant, counting, strongly biased, correlated and unnaturally even ones.",
     ["inputs", "fault_sequences"], "request lengths x sources (good, short, missing, bad)",
     "There is no test of the random source.",
     ["lib/random.c", "include/kripto/random.h"],
     [("read loop", "lib/random.c"), ("statistics", "lib/random.c: random_test")],
     "runtime monitor with controlled source files", "Sources are regular files of known contents and the system source.")
prop("C25", "Every allocation is released exactly once",
     "Over any history of creating, using, recreating and destroying objects and descriptors, and calling one-call functions, the memory held returns to its starting value, every block is freed exactly once, no block is written after being freed, and recreating the same object any number of times does not grow memory.",
     ["histories"], "all objects x histories",
     "The tests exit without checking and create each object once.",
     ["lib/*/*.c: create, recreate, destroy", "lib/*.c"],
     [("matching frees in destroy and recreate", "lib/*/*.c")],
     "heap conservation monitor on a link-time wrapped allocator", "Counts and red zones are exact for the executions generated.")
prop("C26", "Objects are independent of each other",
     "Interleaving operations on any number of objects of any kinds, including objects of the same algorithm and objects sharing a descriptor, gives each object exactly the outputs it gives alone.",
     ["histories", "schedules"], "sets of objects x interleavings of their operations",
     "The tests use one object at a time.",
     ["lib/*.c", "lib/*/*.c"],
     [("all state in the object", "lib/*/*.c")],
     "runtime monitor: interleaved transcripts against solo transcripts", "Interleavings are random at operation granularity.")

prop("C27", "Rotation and byte-order helpers compute exact values",
     "The public inline helpers give exactly the mathematical result for every value: rotations ROL/ROR of 8, 16, 32 and 64 bits by any count (taken modulo the width), fixed or variable, and loads and stores of words and of byte ranges as words, in both byte orders, for any length, offset and alignment. Nothing outside the named bytes is touched (array loads go into zeroed words), in assembly and portable builds alike, without undefined behaviour.",
     ["inputs", "configurations"], "helpers x values x counts, lengths, offsets, alignments x build configurations",
     "No test calls them; the algorithms' vectors reach few values, no partial words, and only the branch compiled here.",
     ["include/kripto/rotate.h", "include/kripto/loadstore.h"],
     [("per-branch definitions under compiler and architecture conditions", "include/kripto/rotate.h"), ("LOAD*_ARRAY / STORE*_ARRAY loops", "include/kripto/loadstore.h")],
     "runtime monitor: bit-by-bit model of rotations and byte order over wrapped helpers in eleven builds, three of them under ASan and UBSan", "KRIPTO_BIG_ENDIAN branches cannot run on this machine.")

prop("C28", "The built-in generator reseeds, never repeats and survives failures",
     "Built for no particular system, the library's own random generator fills every request completely with the ChaCha keystream of its seed, continuing across requests of any size, and takes a new seed before a request that exceeds 5 MB since the last one or comes more than 300 seconds after it; no output repeats, within or between generators. When a seed cannot be made, creation returns null and a request returns 0, nothing is leaked, and the generator can still be used and destroyed.",
     ["histories", "fault_sequences"], "generators x request sizes x clock movements x failing allocations and seeds",
     "The tests never use the random source, and the branch is not compiled in their configuration.",
     ["lib/random.c"],
     [("seeding by scrypt of time and clock", "lib/random.c: seed"), ("reseeding by amount and age", "lib/random.c: kripto_random_gen"), ("keystream", "lib/random.c: kripto_stream_prng")],
     "runtime monitor between the generator and the clock, scrypt and the heap: predicted keystream, reseed schedule, repeat and leak detection, fault injection",
     "scrypt is run with a small N (the real one takes a gigabyte per seed). The strength of the seed itself is not judged.")

prop("C29", "Random source on Windows: the system's bytes, and every handle given back",
     "Built for Windows, with RtlGenRandom or with CryptGenRandom, the random source delivers exactly the bytes the system gave, in order, and returns how many those are: all that were asked for, of any size, also beyond 4 GiB, unless the system failed, and then never the full count. Creation returns null if the module, the function, the context or memory cannot be had; failed creation and destruction give back every handle and block.",
     ["histories", "fault_sequences"], "sources x request sizes x failing system calls and allocations, both Windows builds",
     "The tests never use the random source, and the branch is not compiled in their configuration.",
     ["lib/random.c"],
     [("handles", "lib/random.c: kripto_random_create, kripto_random_destroy"), ("requests", "lib/random.c: kripto_random_gen")],
     "runtime monitor in place of the Windows calls (stand-in headers): log of delivered bytes and ranges, table of open handles, fault injection, heap balance",
     "The stand-ins follow the documented calls; real Windows, its calling conventions and the system's own randomness are not judged.")


prop("C30", "Everything the headers declare is in the library",
     "The public headers can be included together, in any order after those of their kind and more than once, in C and (inside extern \"C\") in C++; every function and object they declare is defined by the library and resolves to the library's own, every algorithm object names a descriptor that works and that its objects report; the version constants of header and library agree; and apart from names beginning with kripto_ the library takes no global name from the program.",
     ["configurations"], "orders of inclusion x languages x compilers x declarations",
     "Each test includes the few headers it needs, in C, and calls the few functions it needs: what no test uses need not exist.",
     ["include/kripto/", "lib/version.c"],
     [("declarations of algorithms", "include/kripto/block/, hash/, stream/, mac/, ae/"), ("version", "include/kripto/version.h, lib/version.c")],
     "runtime monitor over the dynamic linker: program parts generated from the headers list what they declare, and the monitor watches how each name resolves and uses it",
     "Sixteen orders of inclusion; declarations are found by a small reader of C.")


prop("C31", "Computing has no side effects",
     "Apart from the random source, no library function does input or output, asks the operating system for anything but memory, reads the clock, the environment or a source of randomness, changes process-wide state (floating-point control, locale, environment, signals), or ends or delays the process. This holds for every algorithm and composition, and also when a call fails, an allocation fails or verification refuses a tag.",
     ["histories", "fault_sequences"], "objects x operations x failing allocations x refused tags",
     "The tests look at results only and never meet a failing call.",
     ["lib/"],
     [("failing calls", "lib/scrypt.c, lib/pbkdf2.c, lib/mac/, lib/ae/"), ("refusals", "lib/mac.c: kripto_mac_verify, lib/ae.c: kripto_ae_verify")],
     "runtime monitor around the process: every scenario runs in a process whose system calls are filtered and recorded, with clock, environment and libc random functions interposed, the time-stamp counter trapping, and process state compared before and after",
     "Instructions that read randomness or processor features directly (rdrand, cpuid) are not trapped.")


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, t, n in P:
        i = p["id"]
        if i not in CHECKS:
            continue
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": CHECKS[i].get("level", "exploration"), "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "KRIPTO_VERIF_HOOKS", "enable": "no hooks are needed: the monitors observe the public API, the allocator through link-time wrapping, and compiler instrumentation", "source_commits": []},
         "checks": checks, "not_applicable": [],
         "notes": "Every check compiles /repo/lib itself. Known findings and repaired defects: known/KNOWN_FINDINGS. See DESIGN.md."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
