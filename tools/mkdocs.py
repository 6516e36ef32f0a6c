#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/include/sse/crypto/"


def P(id, title, statement, over, quant, why, files, mech, observe, state=(), technique=None, note=None, level="model_checking"):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                observe=observe, state=state, technique=technique, note=note, level=level)


TRUST = (" Trusted: the TLA+ specification in spec/, the reference primitives behind it (java/Prims.java, written from the "
         "standards or taken from the JDK, none of it shared with the library), TLC, the driver that records answers, the "
         "compiler. Bounded: the inputs and programs of a run are a sweep of the boundaries plus VERIF_SEED-generated ones.")

PROPS = [
    P("H01", "Hash and HMAC compute the standard functions on every input",
      "For every message of every length, Hash returns the Blake2b-512 digest and HMac the RFC 2104 HMAC (with Blake2b or SHA-512, any key size from 16 to 128 bytes), whichever overload is called and whether or not input and output share storage. "
      "Truncated variants return the prefix of the requested length and write nothing beyond it; lengths above the digest size and null pointers are rejected with std::invalid_argument without writing anything. "
      "Answers depend on the key and the message only, never on earlier calls.",
      ["inputs", "histories"], "all messages, keys, key sizes, truncation lengths, overloads and call histories",
      "The tests compare a few fixed vectors at one or two key sizes and never sweep block boundaries, truncation lengths, aliasing or repeated use.",
      [S + "hash.hpp", "src/hash.cpp", "src/hash/sha512.cpp", "src/hash/blake2b.cpp", S + "hmac.hpp"],
      [("HMac key block construction and inner/outer hashing", S + "hmac.hpp"), ("digest truncation and argument checks", "src/hash.cpp")],
      ["Hash::hash overloads", "HMac::hmac overloads"]),
    P("F01", "Prf is one fixed function of key, output size and message",
      "For every key, output size and message (the empty one included), Prf returns the value its construction defines: the HMAC truncated to the output size, or beyond one digest the concatenation of HMACs of the message followed by the block number. "
      "All overloads agree, keys derived through the Prf are exactly those bytes, and no two blocks of one output repeat. Using, moving or assigning the object never changes the function.",
      ["inputs", "histories"], "all keys, messages, output sizes (up to 20000 bytes explored) and histories of the object",
      "The tests check determinism of a few sizes and overload agreement on random inputs; they cannot see a wrong but self-consistent output, nor large outputs.",
      [S + "prf.hpp", S + "hmac.hpp"],
      [("block counter construction in Prf::prf", S + "prf.hpp"), ("derive_key", S + "prf.hpp")],
      ["Prf::prf overloads", "Prf::derive_key overloads"]),
    P("G01", "Prg returns windows of one keyed byte stream",
      "Each Prg key determines one byte stream (the ChaCha20 key stream); derive(offset, length) returns exactly its bytes [offset, offset+length), at any offset, for every overload, member or static, and writes nothing beyond them. "
      "Earlier calls never matter. A null output buffer is rejected, an empty request returns nothing and succeeds.",
      ["inputs", "histories"], "all keys, offsets (up to 2^64 explored), lengths, overloads and call sequences",
      "The tests check consistency of a handful of offsets with one length; block boundaries, large offsets and repetition are not reached.",
      [S + "prg.hpp", "src/prg.cpp"],
      [("block counter and offset handling in Prg::derive", "src/prg.cpp")],
      ["Prg::derive overloads"]),
    P("G02", "Keys derived from a Prg are the consecutive windows of its stream",
      "Key number i of size K derived from a Prg (one by one or several at once, member or static) is the window of the stream at offset i*K; so distinct indices give disjoint windows and batches agree with single derivations. "
      "Static derivations consume the seed key, also when no key is requested.",
      ["inputs", "histories"], "all key sizes, indices, batch sizes and derivation chains",
      "The tests compare derived keys with one or two offsets; they do not sweep sizes, indices above 255 or chains of derivations.",
      [S + "prg.hpp", "src/prg.cpp"],
      [("derive_key / derive_keys templates", S + "prg.hpp")],
      ["Prg::derive_key", "Prg::derive_keys", "HMAC computed with the derived keys"]),
    P("E01", "Cipher round-trips and never accepts a modified ciphertext",
      "Decrypting an encryption with the same key gives back the plaintext, for every non-empty plaintext and every overload, also when output and input are the same string; ciphertexts are exactly 32 bytes longer. "
      "Decryption of anything else (any bit changed, truncated, extended, spliced, another key) throws and discloses no plaintext. "
      "The ciphertext format is fixed: any holder of the key can open it.",
      ["inputs", "histories"], "all keys, plaintexts, lengths and alterations of ciphertexts",
      "The tests try a few plaintexts and flip one or two fixed bytes.",
      [S + "cipher.hpp", "src/cipher.cpp"],
      [("key derivation from the nonce and AEAD in Cipher::encrypt/decrypt", "src/cipher.cpp")],
      ["Cipher::encrypt", "Cipher::decrypt", "contents of the output after a failed decryption"]),
    P("W01", "Unwrapping gives back the same object",
      "For every object of every wrappable class (Prf, Prg, Cipher, Prp, RCPrf, ConstrainedRCPrf, TdpInverse) and every state it can be in, unwrap(wrap(o)) with the same wrapping key behaves exactly like o, in this process or another, and wrapping leaves o unchanged. "
      "The blob stays openable any number of times by any Wrapper of the same key; on success unwrap clears the blob it was given.",
      ["inputs", "histories"], "all classes, template sizes, object states (all ranges and tree heights), keys and chains of wrapping",
      "The tests wrap one object of most classes once and compare one output.",
      [S + "wrapper.hpp", "src/wrapper.cpp", "src/prp.cpp", S + "rcprf.hpp", S + "prf.hpp"],
      [("Wrapper::wrap/unwrap templates", S + "wrapper.hpp"), ("serialize / deserialize of each class", "src, " + S)],
      ["answers of the unwrapped object", "blob bytes"]),
    P("W02", "Unwrapping rejects every blob that is not an intact wrap of that type",
      "unwrap throws for every blob that was not made by wrapping an object of the requested class and template parameters under the same wrapping key: any alteration, truncation, extension, splice, other key, other class, other output size. "
      "It also throws for authentic payloads that represent no valid object, never crashes, and leaves the offered blob untouched.",
      ["inputs", "histories"], "all blobs, classes, alterations and malformed payloads",
      "The tests try one wrong key and one flipped byte; type confusion between classes and hostile payloads are not tried.",
      [S + "wrapper.hpp", "src/wrapper.cpp", S + "wrappable.hpp", S + "rcprf.hpp"],
      [("tag over iv, type byte, context and payload", S + "wrapper.hpp"), ("TypeByte registry and public context", S)],
      ["Wrapper::unwrap outcome", "blob after the call"]),
    P("R01", "RCPrf and all its constrained keys agree on every leaf they hold",
      "For every tree height, key and leaf, evaluation gives the value of the GGM tree at this leaf: eval, eval_range, the constrained key of any range containing the leaf, and any key obtained by constraining again (in any number of steps, through wrapping or from elements assembled by hand) all give the same value. "
      "eval_range visits every leaf of the range exactly once with its right value.",
      ["inputs", "histories"], "all heights 1..64, leaves, ranges and chains of constraints",
      "The tests check a few ranges of small trees; deep trees, nested constraints and boundaries of the 64-bit domain are not reached.",
      [S + "rcprf.hpp", "src/rcprf.cpp"],
      [("tree descent in RCPrfBase / RCPrfInnerElement", S + "rcprf.hpp"), ("range cover in generate_constrained_subkeys", S + "rcprf.hpp")],
      ["RCPrf::eval", "eval_range", "ConstrainedRCPrf::eval"]),
    P("R02", "A constrained key answers on its range and holds nothing beyond it",
      "A key constrained to a range answers exactly on the leaves of that range and throws std::out_of_range elsewhere; the material it holds determines no leaf outside the range, and constraining can only shrink a range. "
      "Leaves and ranges outside the domain, empty ranges, the whole domain and inconsistent elements (gaps, overlaps, mixed heights, wrong sizes) are rejected.",
      ["inputs", "histories"], "all heights, ranges, leaves inside and outside, and chains of constraints",
      "The tests probe a few out-of-range leaves; which subtree keys a constrained key holds is not observable in them.",
      [S + "rcprf.hpp", "src/rcprf.cpp"],
      [("range checks of eval / constrain", S + "rcprf.hpp"), ("minimal cover of subtrees", S + "rcprf.hpp"), ("element validation in ConstrainedRCPrf", S + "rcprf.hpp")],
      ["exceptions of eval/eval_range/constrain", "payload of the wrapped constrained key"],
      technique="exhaustive TLC model of trees and covers + trace validation of recorded runs"),
    P("S01", "SetHash represents the multiset, whatever the history",
      "The value of a SetHash depends only on the (signed) multiset of the elements it represents: any order and history of additions and removals of elements and of whole sets, construction from a list, copies, moves and assignments leading to the same multiset give the same value, and different multisets give different values. "
      "Adding or removing never changes the other operand, and copies are independent.",
      ["histories", "inputs"], "all programs of additions, removals, unions, differences, copies and comparisons, and all elements",
      "The tests check a handful of fixed sequences with random elements.",
      [S + "set_hash.hpp", "src/set_hash.cpp"],
      [("hash to the curve and group addition / subtraction", "src/set_hash.cpp")],
      ["SetHash::data", "operator==, operator!="],
      technique="exhaustive TLC model of multiset programs, replayed + trace validation"),
    P("S02", "SetHash survives storage and rejects bytes that are no set",
      "A SetHash rebuilt from its bytes equals the original and continues like it; bytes that do not encode a valid element of the group (non canonical, off the curve, small order, outside of the prime-order subgroup) are rejected with std::invalid_argument. "
      "The empty set is stored and restored as well.",
      ["inputs"], "all 32-byte strings (every class of malformed encoding) and all sets",
      "The tests try a couple of valid and invalid encodings.",
      [S + "set_hash.hpp", "src/set_hash.cpp"],
      [("validation of the point in the constructor from bytes", "src/set_hash.cpp")],
      ["SetHash(std::array) constructor outcome", "operator=="]),
    P("P01", "Prp is a keyed permutation of the strings of each length",
      "For every key and length, encryption is an injective map from the strings of this length to themselves and decryption is its inverse, through every overload (strings, 32- and 64-bit integers, in place). "
      "The permutation depends on the key alone: two objects with the same key agree, now and later, so that stored data stays decipherable, and different keys give different permutations.",
      ["inputs", "histories"], "all keys, lengths and strings; complete tables for 1-byte (and 2-byte in thorough) domains",
      "The tests check round trips of random strings; they see no collision, no change of format and no disagreement of overloads.",
      [S + "prp.hpp", "src/prp.cpp", "src/aez/aez.c"],
      [("AEZ encryption and decryption with a null nonce", "src/prp.cpp")],
      ["Prp::encrypt / decrypt overloads"]),
    P("U01", "strstrn finds the first occurrence within the bounds it is given",
      "strstrn returns the first occurrence of the needle in the haystack, or null if there is none, for every content (NUL bytes included) and every pair of lengths. "
      "It never reads outside of the two buffers.",
      ["inputs"], "all haystacks and needles",
      "The tests search for one or two fixed words.",
      [S + "utils.hpp", "src/utils.cpp"],
      [("bounded search loop", "src/utils.cpp")], ["strstrn result"]),
    P("T01", "Trapdoor permutation: eval, invert, invert_mult and pools agree",
      "For every 2048-bit key, message and number of steps, eval is x^e mod n, invert undoes it, invert_mult with order k undoes k evaluations, and a pool of size s evaluates any order from 1 to s exactly as that many evaluations. "
      "Public and private objects, copies, assignments and moves of the same key compute the same permutation, whatever was computed before.",
      ["inputs", "histories"], "all keys (several public exponents), messages including the edges of the group, orders and pool sizes",
      "The tests use fresh keys with the default exponent, random messages and small orders.",
      ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", S + "tdp.hpp"],
      [("CRT iterated inversion", "src/tdp_impl/tdp_impl_mbedtls.cpp"), ("table of iterated exponents of a pool", "src/tdp_impl/tdp_impl_mbedtls.cpp")],
      ["Tdp::eval", "TdpInverse::invert, invert_mult", "TdpMultPool::eval"]),
    P("T02", "TDP keys and derived messages are stable and portable",
      "Exporting the public or private key of any object gives a well-formed key, which rebuilds an object computing the same permutation and exporting the same key again. "
      "Messages generated from a Prf or key and a seed are a fixed function of modulus, key and seed, the same on public, private and pool objects, below the modulus; sampled messages are below the modulus too.",
      ["inputs", "histories"], "all keys, seeds and chains of export and import",
      "The tests export and import once; the generated messages are only compared with themselves.",
      ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", S + "tdp.hpp"],
      [("PEM export and import", "src/tdp_impl/tdp_impl_mbedtls.cpp"), ("generate from a Prf", "src/tdp_impl/tdp_impl_mbedtls.cpp")],
      ["public_key / private_key", "generate / sample"]),
    P("T03", "TDP rejects malformed keys, messages and orders without harm",
      "Malformed keys, keys of the wrong kind, private and public keys whose numbers do not fit together, messages that are not exactly one message long and orders outside of 1..maximum are rejected by an exception through every interface, without crash, out-of-bounds access or effect on the object. "
      "maximum_order reports the size the pool was created with.",
      ["inputs"], "all key strings, numbers in keys, message sizes, pool sizes and orders",
      "The tests try a few invalid keys and sizes, without a memory checker.",
      ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
      [("argument checks of each entry point", "src/tdp_impl/tdp_impl_mbedtls.cpp")],
      ["exceptions", "AddressSanitizer and UndefinedBehaviorSanitizer"]),
    P("Q01", "A punctured key opens exactly the tags it is not punctured on",
      "A puncturable-encryption key made of the initial share for d punctures and the d shares of the punctured tags opens every ciphertext of its master key under every other tag, giving back the message, and refuses every ciphertext under a punctured tag; whatever the order of punctures, encryptions and shares, however often a tag is punctured, and whether the key was made by the master key's holder or punctured with the public key. "
      "Each encryption and each puncture uses new randomness.",
      ["histories", "inputs"], "all sequences of punctures and encryptions, tags (neighbouring and reserved ones included), messages and orders of shares",
      "The tests for it are not even built without RELIC, and try a few random tags.",
      ["src/puncturable_enc.cpp", "src/ppke/GMPpke.cpp", "src/ppke/GMPpke.hpp", S + "puncturable_enc.hpp"],
      [("chain of shares l_0 .. l_d", "src/ppke/GMPpke.cpp"), ("interpolation in recoverBlind", "src/ppke/GMPpke.cpp"), ("isPuncturedOnTag", "src/ppke/GMPpke.cpp")],
      ["PuncturableDecryption::decrypt", "Gmppke::decrypt", "bytes of shares and ciphertexts"],
      technique="exhaustive TLC model of the algebra over small fields + trace validation of recorded runs (pairing library replaced by a stand-in)",
      note="The library's own sources (src/ppke, src/puncturable_enc.cpp) are compiled against a stand-in for RELIC (standin/), which represents a group element by its exponent; RELIC itself is not installed here. Every answer in the explored runs is the one the specification allows."),
    P("Q02", "Key shares are a fixed function of master key, number and tag",
      "Initial and incremental key shares and the tag they carry depend on the master key, the number of punctures and the tag only, never on earlier calls, so that a server can store them and a client remade from the master key continues where another stopped. "
      "Incomplete or mixed keys open nothing, the reserved tag is refused for encryption and puncturing by std::invalid_argument, and the master key is consumed.",
      ["inputs", "histories"], "all master keys, numbers, tags and histories; incomplete and mixed keys; altered ciphertexts",
      "The tests for it are not even built without RELIC, and compare no share with its definition.",
      ["src/puncturable_enc.cpp", "src/ppke/GMPpke.cpp", "src/ppke/GMPpke.hpp", S + "puncturable_enc.hpp"],
      [("sk0Gen, skShareGen", "src/ppke/GMPpke.cpp"), ("blind: reserved tag", "src/ppke/GMPpke.cpp")],
      ["PuncturableEncryption::initial_keyshare, inc_puncture", "PuncturableDecryption::decrypt"],
      technique="exhaustive TLC model of the algebra over small fields + trace validation of recorded runs (pairing library replaced by a stand-in)",
      note="The library's own sources (src/ppke, src/puncturable_enc.cpp) are compiled against a stand-in for RELIC (standin/), which represents a group element by its exponent; RELIC itself is not installed here. Every answer in the explored runs is the one the specification allows."),
    P("N01", "Random values are fresh in every draw, object, process and fork",
      "Random bytes, default-constructed keys and the objects made of them, encryption nonces, wrapping initialisation vectors, generated RSA keys and sampled messages never repeat, within a process, across processes and across fork, and every byte of them varies. "
      "This holds with and without memory locking.",
      ["histories", "configurations"], "all draws of all histories, in both build configurations",
      "The tests compare two draws at most; a constant suffix, a cached value or a reseeded generator passes them.",
      ["src/random.cpp", S + "random.hpp", S + "key.hpp", "src/cipher.cpp", S + "wrapper.hpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
      [("random_bytes", "src/random.cpp"), ("Key default constructor", S + "key.hpp"), ("nonce of each encryption", "src/cipher.cpp")],
      ["random_bytes", "the first 16 bytes of ciphertexts and blobs", "answers of objects with random keys"]),
    P("K01", "Secrets stay in protected memory between calls",
      "With memory locking, after every call, successful or not, all memory holding symmetric keys (of Key objects and everything built on them) is inaccessible, no such key (given, derived or intermediate) remains in readable memory outside of it, and caller buffers a key was taken from are wiped. "
      "Calls leave no secure memory behind and destroyed objects release theirs.",
      ["histories", "inputs"], "all sequences of calls of all classes, failing calls included",
      "The tests never look at memory protection or at leftovers.",
      [S + "key.hpp", S + "prf.hpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", S + "wrapper.hpp", S + "rcprf.hpp"],
      [("Key::lock / unlock around each use", S + "key.hpp"), ("secure buffers of derivations", S + "prg.hpp")],
      ["protection of each secure allocation after each call", "scan of readable memory for known secrets"],
      state=[("is_locked_", "the key memory is inaccessible", S + "key.hpp")],
      technique="trace validation with memory protection observed at each call, generated programs"),
    P("K02", "A key has one owner: moved-from and consumed keys are empty",
      "Moving, assigning or consuming a key (or an object holding one) transfers it entirely: the new owner computes exactly what the old one did, the old one is empty and every use of it throws, with both build configurations. "
      "Nothing is freed twice, leaked, or shared between two owners, in any program.",
      ["programs", "histories"], "all programs up to the bounds over all classes, and long random ones",
      "The tests move a key once or twice per class.",
      [S + "key.hpp", S + "prf.hpp", S + "hmac.hpp", S + "prg.hpp", S + "cipher.hpp", S + "wrapper.hpp", S + "rcprf.hpp", "src/prp.cpp"],
      [("Key move constructor and assignment, is_empty checks", S + "key.hpp")],
      ["answers and exceptions of both objects after each transfer", "count of secure allocations"],
      technique="exhaustive TLC exploration of client programs, each transition replayed into the library"),
    P("K03", "Failures of memory allocation or protection never corrupt or leak",
      "When any allocation or memory-protection call inside the library fails, the call either completes with the right answer or throws; it never crashes, returns wrong data or leaks secure memory, and objects it only reads keep working exactly as before. "
      "On systems without memory protection (ENOSYS) everything works.",
      ["fault_sequences", "histories"], "every call of every class, a failure at each allocation and each protection change it makes",
      "The tests never inject a failure.",
      [S + "key.hpp", S + "prg.hpp", S + "wrapper.hpp", S + "rcprf.hpp", "src/prp.cpp"],
      [("allocation and errno checks", S + "key.hpp"), ("release of temporary secure buffers", S + "prg.hpp, " + S + "wrapper.hpp")],
      ["outcome of the failing call", "later answers", "secure allocations"], level="fault_enumeration",
      technique="enumeration of injected faults, recorded runs validated against the TLA+ specification"),
    P("C01", "Threads using separate objects do not affect each other",
      "Threads that each use their own objects (of any class, with any keys) get exactly the answers they would get alone, for every interleaving: the library has no hidden state shared between objects or calls, no data race, and static functions and random generation may be called from any thread. "
      "Fresh values drawn in different threads never coincide.",
      ["schedules", "histories"], "all interleavings of all calls on objects that the threads do not share",
      "All the tests are single-threaded.",
      ["src/hash.cpp", "src/random.cpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", "src/set_hash.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", S + "hmac.hpp"],
      [("no static or global mutable state in the implementations", "src/"), ("contexts of the primitives are locals or members", "src/")],
      ["answers in each thread", "ThreadSanitizer reports"],
      technique="TLC-generated programs run in parallel threads, each thread's recorded run validated against the TLA+ specification, races observed by ThreadSanitizer"),
    P("X01", "All build configurations behave alike, and stored data stays readable",
      "With or without memory locking, with or without optimisation and assertions, every call gives the same answer or exception. "
      "Ciphertexts, wrapped objects, permuted values, set hashes and exported keys made earlier, by another build included, are still understood.",
      ["configurations", "histories", "inputs"], "all calls with all build configurations",
      "The tests run in one configuration and never read data made by another build.",
      [S + "key.hpp", S + "prf.hpp", S + "wrapper.hpp", S + "rcprf.hpp", "src/prp.cpp", "src/prg.cpp", "src/cipher.cpp", "src/set_hash.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
      [("ENABLE_MEMORY_LOCK and NDEBUG conditionals", S + "key.hpp"), ("serialisation formats", S + "wrapper.hpp, src/prp.cpp, " + S + "rcprf.hpp")],
      ["answers in each build", "answers on stored data"],
      technique="the same TLA+ behaviours replayed in each build configuration, recorded runs validated by TLC"),
    P("L01", "Initialising the library again changes nothing",
      "Initialising the library a second time, or cleaning it up and initialising it again, any number of times and at any point of a program, changes no answer: objects made before go on working as they did, new ones can be made, "
      "what was encrypted, wrapped or stored before can be read after, every primitive stays available, and random values go on being fresh.",
      ["histories"], "all programs that clean up and initialise the library between other calls",
      "The tests initialise the library once, before the first of them, and clean it up after the last.",
      ["src/utils.cpp", "src/prp.cpp"],
      [("global state set by init_crypto_lib", "src/utils.cpp"), ("Prp::is_available__", "src/prp.cpp")],
      ["answers before and after", "secure allocations"]),
    P("M01", "No call accesses memory out of bounds or has undefined behaviour",
      "Whatever the (valid or invalid) arguments and the history, no call reads or writes outside the buffers and objects it is given, uses freed or uninitialised storage, or has undefined behaviour; invalid arguments raise exceptions instead.",
      ["inputs", "histories"], "all calls, arguments and histories of calls",
      "The tests run without a memory checker and with well-formed inputs.",
      ["src/", S],
      [("pointer arithmetic in the serialisers, range covers and derivations", "src/, " + S)],
      ["AddressSanitizer and UndefinedBehaviorSanitizer", "guard bytes around buffers"],
      technique="TLA+-generated behaviours and sweeps replayed under sanitizers: a crash or report is an event the specification has no transition for"),
]
DEFAULT_TECHNIQUE = "TLA+ specification: TLC-generated behaviours replayed into the library, recorded runs validated by TLC"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "none", "enable": "No hook in /repo: the checks compile /repo's sources with a driver of /verif, "
                   "which interposes libsodium's allocator at link time.", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "technique": p["technique"] or DEFAULT_TECHNIQUE, "level": p["level"],
                     "level_note": (p["note"] or "Every answer of the real library in the explored runs is the one the "
                                    "specification allows.") + TRUST} for p in PROPS],
         "not_applicable": [],
         "notes": "Start with DESIGN.md. A violation's replay file is run again with: python3 check.py --replay <file>"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
