"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "falcon/nistfalcon/src/"
CAPI = [S+"nist.c", S+"nist16.c", S+"epervier16.c", S+"api.h"]

prop("C01", "C calls running at the same time do not disturb each other",
 "When several threads call the C library at the same time (key generation, key generation from a seed, signing and opening, in the NIST, 16-bit and Epervier encodings, normal and ETHFALCON builds), every call returns the same status and writes the same bytes as if it ran alone with the same inputs and the same random bytes. No interleaving makes a valid signature fail, a forged one pass, or a call crash or not return.",
 ["schedules", "inputs"], "every interleaving of any number of calls on separate output buffers; inputs (keys, messages, seeds) may be shared by the threads",
 "All KAT programs are single-threaded, so nothing that is shared between two calls can show up in a test.",
 CAPI+[S+"sign.c", S+"vrfy.c", S+"keygen.c", S+"codec.c", S+"fft.c", S+"fpr.c", S+"rng.c", S+"shake.c", S+"keccak_prng.c", S+"keccak256.c", S+"common.c"],
 [("temporaries on the stack of the caller (TEMPALLOC is empty)", S+"nist.c, nist16.c, epervier16.c"), ("hash and PRNG contexts owned by the call", S+"shake.c, rng.c, keccak_prng.c")],
 ["return value and output buffers of crypto_sign*, zknox_crypto_sign*, zknox_pk_epervier"])

prop("C02", "No key or signature comes out when the randomness source fails",
 "If the randomness source reports a failure at any point of a C key generation or signing call, the call returns a nonzero status and leaves the caller's key, signature and length buffers as they were. Calls made after the source has recovered work as usual.",
 ["fault_sequences", "inputs"], "every call of the library that draws randomness, every position of the failure in the call, partially filled output, single or repeated failures",
 "The tests' deterministic generator never fails, so the error path is never taken.",
 CAPI+[S+"katrng.c"], [("the status of the randomness source is checked before its output is used", S+"nist.c, nist16.c, epervier16.c")],
 ["return value and output buffers of the signing and key generation calls"])

prop("C03", "The shared random source is one sequential AES-256-CTR-DRBG",
 "Whatever threads request random bytes, for whatever lengths and at the same time, the bytes they get are those of one sequential NIST AES-256-CTR-DRBG, handed out in an order consistent with real time, each only once and up to the last requested byte. A process that never seeded the source gets it seeded from fresh operating-system entropy before the first byte, and gets an error instead of bytes while that entropy is unavailable.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of concurrent requests of 0 to several thousand bytes, every seed (also those that make the counter carry), every history of reseeding and of failures of the operating-system source",
 "The KAT programs seed the source once and draw two or three short strings from one thread.",
 [S+"katrng.c", S+"katrng.h"], [("lock around the generator state; lazy seeding by getentropy()", S+"katrng.c"), ("counter increment with carry, key and counter update after every request", S+"katrng.c")],
 ["return value and output of randombytes()"], state=[("generator state", "key, counter and request counter of the generator", S+"katrng.c")])

prop("C04", "C hash and PRNG streams do not depend on how they are cut up",
 "For the C streams (SHAKE256, the Keccak-256 PRNG, the AES seed expander, the ChaCha20 PRNG of the sampler) the output depends only on the concatenation of the input and on the position in the output: any chunking of the writes and reads, on any number of contexts used alternately, gives the bytes of the reference definition. A call that the stream has to refuse (input after the end of input, output before it, more input than its buffer holds, more output than was announced) is refused with an error, where the call can report one, and changes nothing.",
 ["histories", "inputs", "fault_sequences"], "every sequence of init, inject, flip and extract calls of any sizes (including zero and block boundaries) over several contexts, with misuse at any point",
 "The tests read each stream in one or two fixed chunk sizes and never misuse it.",
 [S+"shake.c", S+"keccak_prng.c", S+"keccak256.c", S+"rng.c", S+"katrng.c"], [("read and write pointers, refill at the end of the buffer", S+"shake.c, rng.c, keccak_prng.c"), ("finalized flag, capacity check", S+"keccak_prng.c")],
 ["output of inner_shake256_*, inner_keccak256_*, prng_*, seedexpander"])

prop("C05", "Python hash and PRNG streams do not depend on how they are cut up",
 "For the Python streams (SHAKE256, the Keccak-256 PRNG, the BLAKE2s PRNG, KeccaXOF, the AES-256-CTR-DRBG, ChaCha20) the output depends only on the concatenation of the input and on the position in the output: any chunking of the writes and reads, on any number of objects used alternately, gives the bytes of the reference definition, and a read returns exactly as many bytes as it was asked for (ChaCha20: up to its block of 512). A call that the stream refuses by raising an exception (input after the end of input, output before it, too much input) changes nothing.",
 ["histories", "inputs", "fault_sequences"], "every sequence of update, flip and read calls of any sizes (including zero and block boundaries) over several objects, with refused calls at any point; ChaCha20 for reads of up to 512 bytes and DRBG requests independent of each other as the NIST definition has it",
 "The tests read fixed sizes from one object at a time.",
 ["pythonref/shake.py", "pythonref/keccak.py", "pythonref/keccak_prng.py", "pythonref/blake2s_prng.py", "pythonref/keccaxof.py", "pythonref/drbg/aes256_ctr_drbg.py", "pythonref/rng.py"],
 [("sponge position and rate", "pythonref/keccak.py"), ("output buffer position and counter", "pythonref/keccak_prng.py, blake2s_prng.py, keccaxof.py")],
 ["return values of update, flip, read, random_bytes, randombytes"])

prop("C06", "C opens exactly the signed messages that were sent",
 "Over a network that may corrupt, cut, extend, splice, reorder, repeat or misdeliver signed messages, opening one with a public key either fails or returns exactly the bytes of a message that the owner of that key signed, and every correctly delivered one opens with its whole message and length. The network cannot make a second, different byte string that opens from one that was signed (the two-byte Epervier hint excepted), messages too long for an ETHFALCON build are refused by both sides, a failed call leaves the caller's message buffer and length as they were, and no call modifies its inputs.",
 ["fault_sequences", "inputs", "histories"], "every sequence of signings (messages of 0 to several thousand bytes, separate or overlapping input and output buffers), network faults and openings, in the NIST, 16-bit and Epervier encodings, normal and ETHFALCON builds",
 "The KAT programs open each vector once, unchanged; no test opens an altered one.",
 CAPI+[S+"codec.c", S+"vrfy.c", S+"common.c", S+"sign.c"], [("lengths and headers checked before use", S+"nist.c, nist16.c, epervier16.c"), ("unique encodings enforced when decoding", S+"codec.c"), ("norm bound and hash of nonce and message", S+"vrfy.c, common.c")],
 ["return value, message and length of crypto_sign_open, zknox_crypto_sign_open, zknox_crypto_sign_open_epervier"])

prop("C07", "Python verifiers accept only what was signed and never raise",
 "Over a network that may corrupt, cut, extend, splice, reorder, repeat or misdeliver messages and signatures, the Python verifiers (Falcon, ETHFALCON, recovery mode, Epervier) return False, without raising, for every pair that no owner of the key signed and for signatures longer than the norm bound, and True for every pair delivered intact. The header byte, and trailing zero bytes added to or missing from the padding of the compressed signature, are the only alterations of a signature that may leave it accepted.",
 ["fault_sequences", "inputs", "histories"], "every sequence of signings, network faults and verifications with any byte strings as signature and message and any of the generated keys; all ring degrees of the parameter sets",
 "The tests verify untouched signatures and a few with a flipped message.",
 ["pythonref/falcon.py", "pythonref/falcon_recovery.py", "pythonref/falcon_epervier.py", "pythonref/encoding.py"], [("decompress returns False for invalid encodings", "pythonref/encoding.py"), ("norm bound, inverse check, comparison of the recovered key", "pythonref/falcon*.py")],
 ["PublicKey.verify, RecoveryModePublicKey.verify, EpervierPublicKey.verify and recover"])

prop("C08", "Independent verifiers agree on every delivered message",
 "The C verifiers (NIST and 16-bit encodings) and the Python verifier reach the same verdict on the same key, message, salt and signature values, whether these arrive intact or altered on the way, for both SHAKE256 and Keccak hashing, wherever the values can be written in their encodings; this is the verdict of the definition (norm bound and hash). The same holds for the Epervier and recovery verifiers. Signatures made by either implementation are accepted by all the others.",
 ["fault_sequences", "inputs", "histories"], "every history of signings by any of the implementations, alterations of message, salt, signature coefficients and key between signer and verifiers, and transcodings between the encodings; signatures made by dishonest owners of a key, with norms on the bound or single large coefficients",
 "The tests compare implementations only on unaltered KAT vectors.",
 ["pythonref/falcon.py", "pythonref/encoding.py", S+"nist.c", S+"nist16.c", S+"vrfy.c", S+"codec.c", S+"common.c"], [("same norm bound, modulus, hash-to-point and encodings in both languages", "pythonref/falcon.py, "+S+"vrfy.c, common.c, codec.c")],
 ["verdicts of crypto_sign_open, zknox_crypto_sign_open, zknox_crypto_sign_open_epervier and the verify() methods of the Python public keys"])

prop("C09", "Goroutines using the Go binding do not disturb each other",
 "When several goroutines generate keys, sign and verify through the Go binding at the same time, each call returns what it would return alone with the same random bytes. Byte slices it returned do not change afterwards, and slices passed to it, with the spare capacity behind them, are not modified.",
 ["schedules", "histories"], "every interleaving of any number of calls in any number of goroutines, with results and inputs kept alive across later calls",
 "The Go program of the tests makes three calls in a row.",
 ["falcon/falcon.go"], [("buffers allocated for every call", "falcon/falcon.go")], ["results of GenerateKeypair, SignMessage and VerifySignature"])

prop("C10", "The Go binding answers every input with a verdict or an error",
 "For byte slices of any length and content (nil, empty, truncated, oversized, random, altered signatures, keys of the wrong size) the Go functions return a verdict or an error and never panic, write outside their buffers or return uninitialised data. A message of any length that was signed verifies under its key, every other message does not, and a failure of the randomness source is returned as an error without key or signature.",
 ["inputs", "fault_sequences", "histories"], "every sequence of calls with keys, messages and signatures of any length, altered on the way or not, with failures of the randomness source at any call",
 "The Go program of the tests signs and verifies one short message.",
 ["falcon/falcon.go", S+"nist.c"], [("length checks of keys; output buffers sized by the inputs", "falcon/falcon.go")], ["results of GenerateKeypair, SignMessage and VerifySignature"])

prop("C11", "Processes that restart or fork never repeat keys or nonces",
 "No two key pairs, and no two nonces of signatures, that a program obtains through the C library, the Go binding or the JavaScript build without seeding the random source itself are ever equal, across any number of starts, crashes and restarts of the process, and of processes that it forks.",
 ["crash_points", "histories"], "every sequence of key generations and signings cut by process crashes, restarts and forks at any point, for the same inputs after each of them",
 "Every test process runs once and seeds the source with a constant.",
 [S+"katrng.c", "falcon/falcon.go", "falcon/falcon.js"], [("seeding from the operating system on first use", S+"katrng.c")], ["keys and signed messages of GenerateKeypair, SignMessage, crypto_sign_keypair, crypto_sign, Module._crypto_sign_keypair"])

prop("C12", "The command line's key and signature files survive crashes whole",
 "Whatever crash, interrupt (SIGINT), power loss, full disk, read or write error hits the command line while it saves keys or a signature, each of the files afterwards is the old one (absent if there was none) or the new one as a whole, loads as exactly a key or signature that was saved, and no public key is on the disk whose private key was never completely saved. Once a command has ended successfully its files survive any later crash, a failed save is never reported as success, and a command that a read error hits fails instead of giving another answer than it would give.",
 ["crash_points", "fault_sequences", "histories"], "every sequence of genkeys and sign commands over one directory, with a crash after any file-system operation, any subset of unsynced data lost or torn, and any file-system call failing",
 "No test touches the command line or its files.",
 ["pythonref/sign_cli.py"], [("write to a temporary file, fsync, rename, fsync of the directory; private key first", "pythonref/sign_cli.py")], ["private_key.pem, public_key.pem and sig as load_sk, load_pk and load_signature see them", "exit of the command"])

prop("C13", "Deterministic signing never shares randomness between messages",
 "Signing the same data with the same key file from the command line gives the same signature in every run, and that signature verifies. Signing different data, or with a different private key (f, g), even one that has the same public key, uses an unrelated salt and sampling seed.",
 ["histories", "inputs"], "every history of sign commands and restarts over any keys and data, in particular data of equal length that differ in a few bytes at any position, and data that are prefixes of each other",
 "No test signs from the command line.",
 ["pythonref/sign_cli.py", "pythonref/shake.py"], [("salt and seed are read from a hash of the private key and of the data", "pythonref/sign_cli.py")], ["signature files and the random bytes handed to the signer"])

prop("C14", "Python signing and key generation survive a failing randomness source",
 "If the randomness source handed to Python key generation or signing raises at any of its calls, that exception reaches the caller and no key or signature is returned, and the key object still signs correctly afterwards. With a source that works, the result verifies, contains the salt it drew, and depends on nothing but the key, the message and the bytes drawn, whatever calls and failures came before or happen at the same time in other threads that use the same key objects.",
 ["fault_sequences", "histories", "inputs"], "every position of the failure, single or repeated, for each signature scheme and ring degree, interleaved with signings that succeed",
 "The tests use sources that never fail and fresh key objects.",
 ["pythonref/falcon.py", "pythonref/falcon_recovery.py", "pythonref/falcon_epervier.py", "pythonref/ffsampling.py", "pythonref/samplerz.py", "pythonref/ntrugen.py", "pythonref/rng.py"], [("signing does not modify the key object; the source is called directly", "pythonref/falcon*.py")], ["result or exception of sign() and SecretKey()"])

prop("C15", "C results depend on the inputs alone, not on earlier calls",
 "Every call of the C library gives the same status and bytes for the same inputs and random bytes, whatever calls, successful or failed, were made before in the process and whatever its memory contains. In particular a key pair made from a seed is a function of the whole seed alone, is the same key in the NIST and 16-bit encodings, is refused for seeds under 32 bytes, and signs messages that its public key opens.",
 ["histories", "inputs", "fault_sequences"], "every history of calls with valid, invalid, altered or truncated inputs and randomness failures, followed by any call; seeds of any length; any prior content of stack and output buffers",
 "The KAT programs run one fixed history; no test generates a key from a seed.",
 CAPI+[S+"keygen.c", S+"shake.c"], [("contexts initialised by every call; no state kept between calls", S+"nist.c, nist16.c, epervier16.c")], ["return value and output buffers of every call"])

prop("C16", "The Python reference and the C signer replay each other",
 "Given the same private key, message and random bytes, the Python reference and the C library produce the same salt and the same signature polynomial, for every state of the shared random generator and any sequence of signings from it, except where a centre of the sampler is exactly an integer and rounding decides; and from the same seed they generate the same private key, unless the C solver gives up on a key pair that Python solves.",
 ["histories", "inputs"], "every generator seed and every sequence of messages signed from it (0 to several thousand bytes), SHAKE256 and Keccak hashing",
 "The tests compare the Python signer with the C one only through a few fixed vectors.",
 ["pythonref/falcon.py", "pythonref/rng.py", "pythonref/samplerz.py", "pythonref/ffsampling.py", "pythonref/fft.py", "pythonref/drbg/aes256_ctr_drbg.py", S+"sign.c", S+"rng.c", S+"katrng.c", S+"fft.c", S+"fpr.c"], [("same DRBG, seeding of the sampler, ChaCha20 layout and sampler in both languages", "pythonref/rng.py, samplerz.py, "+S+"rng.c, sign.c")], ["signed messages of crypto_sign and SecretKey.sign, keys of crypto_sign_keypair and ntru_gen"])

prop("C17", "On-chain commands pass on the exact signature and verdict",
 "The arguments that the command line hands to the chain client decode to exactly the message, salt, signature coefficients, key or hint of the given files (and to the contract, RPC URL and sender key as given), for the on-chain call and the transaction alike, and so do the values that sign_tx prints for its transaction hash. What the chain answers is what the user is shown: an error, a timeout, an empty or a negative answer is never shown as a successful verification.",
 ["fault_sequences", "inputs"], "every message and key of each supported version, and every behaviour of the chain client: success, revert, wrong answer, empty output, error text, crash",
 "No test runs the command line or a chain client.",
 ["pythonref/sign_cli.py", "pythonref/common.py", "pythonref/encoding.py"], [("coefficients packed 16 to a word; client's output printed", "pythonref/sign_cli.py, common.py")], ["command line of the client, output and exit of the tool"])

prop("C18", "Hostile bytes never lead the C library outside the caller's buffers",
 "For any bytes as signed message, public key, secret key or seed, of any length, and any amount of corruption on the way, the C calls return and read only the bytes they were given and write only the bytes their interface announces. This holds for every encoding and build and for buffers of exactly the announced size.",
 ["inputs", "fault_sequences"], "every byte string, in particular corrupted, cut and spliced valid ones and headers that announce more than there is; every call of the library",
 "The KAT programs pass only valid inputs in oversized buffers and run without memory checking.",
 CAPI+[S+"codec.c", S+"vrfy.c", S+"keccak_prng.c"], [("length checks before every read", S+"nist.c, nist16.c, epervier16.c, codec.c"), ("capacity check of the Keccak buffer", S+"keccak_prng.c")], ["memory accesses of the calls"])

prop("C19", "Commands that run at the same time do not disturb each other",
 "When genkeys, sign, sign_tx and verify run at the same time in one directory, as processes of their own, each of them succeeds and answers as it would alone with the files of one moment, and what it saves is there at the end unless another one saved it anew. At every moment each key and signature file is, as a whole, one that was there before or that one of the commands saved, also if some of the commands are killed; no public key is there whose private key was never completely saved.",
 ["schedules", "crash_points"], "every interleaving of the file operations of two or three commands of every kind and version, each of them killed at any operation or not at all",
 "No test runs the command line, let alone two commands at once.",
 ["pythonref/sign_cli.py"], [("save_file replaces a file as a whole, by way of a temporary file of its own", "pythonref/sign_cli.py")], ["contents of the working directory after every operation", "output and exit status"])

# properties this family does not address (see MANIFEST.json not_applicable)
prop("C30", "Solidity verifiers decide as the C and Python ones",
 "The Solidity verifiers accept a key, message, salt and signature exactly when the C and Python verifiers do.",
 ["inputs"], "every input", "The Foundry tests run a few vectors and cannot run here.",
 ["src/ZKNOX_falcon.sol", "src/ZKNOX_ethfalcon.sol", "src/ZKNOX_epervier.sol"], [("norm bound, NTT and hash-to-point in Solidity", "src/")], ["verify(), recover()"])
prop("C31", "The NTT is exact ring arithmetic",
 "For all polynomials the NTT-based product equals the schoolbook product modulo x^n+1 and q, in C, Python and Solidity.",
 ["inputs"], "every pair of polynomials", "Tests multiply a few random polynomials.",
 [S+"vrfy.c", "src/ZKNOX_NTT.sol"], [("butterflies with tables of roots", S+"vrfy.c")], ["results of the transforms"])
prop("C32", "The signature sampler has the Gaussian distribution of the specification",
 "Signatures follow, up to the specified statistical distance, the discrete Gaussian distribution of the Falcon specification for every key.",
 ["inputs"], "every key and message; a statement about a distribution", "Tests check means and variances of a few thousand samples.",
 [S+"sign.c", "pythonref/samplerz.py"], [("base sampler table and rejection", S+"sign.c, pythonref/samplerz.py")], ["distribution of signatures"])
prop("C33", "Key and signature codecs are inverse to each other",
 "Encoding and decoding of keys and signatures are inverse bijections between the valid values and the accepted byte strings.",
 ["inputs"], "every value and byte string", "Tests encode only generated keys and signatures.",
 [S+"codec.c", "pythonref/encoding.py", "pythonref/falcon_codec.py"], [("range checks when decoding", S+"codec.c")], ["encoder and decoder results"])
prop("C34", "The geth precompile is a function of its call data",
 "Whatever calls ran before or run at the same time on the node's one instance of the precompile, and whatever becomes of standard output, Run answers every call data by themselves: an error and no output if they cannot be decoded as the ABI encoding of three bytes values, otherwise 32 bytes that are 1 if the values are a signed message, its message and the public key of its signer, and 0 if not. Run never panics, and never changes the memory of its caller or an output it has returned; equal call data give equal outputs and equal gas on every node.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every call data, every history and interleaving of calls, working, closed and broken standard output", "The precompile is not built by any test.",
 ["geth/contracts.go", "falcon/falcon.go"], [("unpacking of three byte strings and one call, nothing kept between calls", "geth/contracts.go")], ["output, error and gas of the precompile", "memory of the caller"])
prop("C35", "The Poseidon2 wrappers compute Poseidon2",
 "The Rust and Python Poseidon2 hashes equal the reference permutation for all inputs.",
 ["inputs"], "every input", "A few fixed vectors.",
 ["hash/src/python/poseidon2.py", "hash/src/poseidon2_Plonky3/src/lib.rs"], [("round constants and matrices", "hash/src")], ["hash results"])
prop("C36", "Signing time does not depend on secrets",
 "The running time and memory access pattern of C signing do not depend on the private key.",
 ["inputs"], "every pair of keys", "No test measures time.",
 [S+"sign.c", S+"fpr.c"], [("constant-time sampler and floating-point emulation", S+"sign.c, fpr.c")], ["timing"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
