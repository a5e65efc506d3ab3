TECHNIQUE = "symbolic execution of the Go SSA of the real code, decided by SMT (z3)"
TECH = {}
NOTES = ("One engine (engine/, Go) executes the SSA form of /repo's current source symbolically and decides every path and assertion with z3; "
         "bounds, functions encoded, queries and solver time are in the evidence files. Only counterexamples that also fail when compiled and run natively are reported.")
BASE = "Holds for every value within the bounds listed in the evidence file (sizes, number of steps, number of faults); nothing is claimed outside them. "
IDEAL = BASE + "Primitives are idealised on symbolic data (injective hashes and key derivation, unforgeable Ed25519/secretbox/auth); the real primitives run on concrete data and in every replay. Trusts go/ssa, the engine, z3 and the stand-ins for files, entropy and terminal."
PLAIN = BASE + "Trusts go/ssa, the engine and z3; sampled paths are replayed natively and compared."
NOTE = {}
NOTE["E01"] = PLAIN + " Field operations are used by their contracts, which are proved in the same run for all limbs within the stated bounds; the engine brings the computation into a normal form of power products (trusted), p prime and Euler's criterion are assumed."
NOTE["E03"] = PLAIN + " Machine arithmetic is translated to linear integer arithmetic (products of limbs as bounded variables); the algebra of the translation is trusted, overflow is decided by z3."
for _i in "B01 B02 B03 B04".split(): NOTE[_i] = PLAIN
for _i in ("S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 C01 C02 C03 C04 C05 C06 C07 E02 M01 M02 M03 S13 R02 R03").split(): NOTE[_i] = IDEAL

NOTE["R01"] = IDEAL + " Concurrency is decided in two parts: one operation nested in any outside call of another, and no write to shared memory on any path; such a write is confirmed by goroutines under the race detector before it is reported."

B = "base64/coding.go"; K = "signify/key.go"; C = "signify/common.go"; G = "signify/signature.go"; Y = "crypto/crypto.go"; M = "cmd/psignify/main.go"
F = "signify/internal/edwards25519/edwards25519.go"

prop("S01", "Own signatures verify",
 "For every key pair generated (with or without a passphrase, with any positive number of rounds, under any name without a newline) and every message, signing with the secret key succeeds and the signature verifies with the matching public key and message. After any sequence of signing operations with several keys and messages, every signature verifies for exactly its own key and message. The signature file's payload carries the key's algorithm and key number and the Ed25519 signature of exactly the message.",
 ["inputs", "histories"], "every message, key material, key name, passphrase or none, output path given or defaulted, and every short sequence of signing operations",
 "The tests sign one fixed text with one key; they never vary length, content, key material or operation order.",
 [("signing", K, "Sign"), ("verification", K, "Verify"), ("signature production", K, "Private.sign"), ("key generation", K, "GenerateKeypair")])
prop("S02", "Only genuine signatures are accepted",
 "Verification accepts exactly when public key file, signature file and whole message are the genuine ones: any change of any byte of the signature payload, the public key payload, or the message (including its length) makes it fail. The only exception is a key number changed identically in both files.",
 ["inputs"], "every message of the given lengths, every XOR difference of the 74 signature bytes and of the 42 public key bytes, singly and together",
 "Tests try one flipped message; a verifier that ignores part of the message, the key number or an algorithm tag passes them.",
 [("algorithm, key number and signature checks", K, "Public.verifyEd25519"), ("dispatch", K, "Public.verify"), ("verification", K, "Verify"), ("signature decoding", G, "readSignatureData"), ("key decoding", K, "readPublicKeyData")])
prop("S03", "Malformed key and signature files are refused",
 "A signature, public key or secret key file whose payload has the wrong length, whose algorithm tag is not the known one, whose payload contains characters outside the base64 alphabet, or which is arbitrary garbage never verifies, signs or yields an encryption or decryption key, and never makes the program panic. An encrypted secret key with an unknown key-derivation tag cannot be unlocked. Intact files keep being accepted.",
 ["inputs"], "payloads of every length from 0 to beyond the right one with arbitrary tags and trailing bytes, arbitrary short files, arbitrary tails, any one character replaced by any byte",
 "The tests only read well-formed files.",
 [("data file parsing", C, "readDataFileBytes"), ("signature decoding", G, "readSignatureData"), ("public key decoding", K, "readPublicKeyData"), ("secret key decoding", K, "readPrivateKeyData"), ("algorithm check before encryption", K, "Public.ToBox"), ("KDF check", K, "Private.decrypt")])
prop("S04", "Files have signify's exact layout and foreign files are understood",
 "Key and signature files consist of exactly one comment line ('untrusted comment: signify private key', '... public key', '... verify with NAME.pub') and one base64 line, whose bytes are signify's: 'Ed', 'BK', big-endian rounds (0 without passphrase, default 42), 16-byte salt, first 8 bytes of SHA-512 of the plain 64-byte key, 8-byte key number equal in both files, key XORed with the bcrypt_pbkdf stream; or 'Ed', key number, key or signature. Files of this layout made elsewhere, with any key material, salt and key number, up to three comment lines (each shorter than 64 KiB) and with or without a final newline, can be used to sign and verify.",
 ["inputs", "configurations"], "every entropy, short passphrase, message and comment text; files built independently from the definition of the format",
 "The tests compare one reference signature; byte order, salt use and checksum of generated keys are never compared with the format.",
 [("secret key encoding", K, "Private.encode"), ("public key encoding", K, "Public.encode"), ("signature encoding", G, "Signature.encode"), ("file layout", C, "dataFile.Encode"), ("file writing", C, "writeDataFile"), ("key generation", K, "GenerateKeypair"), ("file reading", C, "readDataFileBytes")])
prop("S05", "A passphrase-protected key works with exactly its passphrase",
 "A key generated with a passphrase is stored encrypted and marked so, is never stored in the clear whatever number of rounds is requested, and signs or yields a decryption key exactly when the passphrase given at the single prompt equals the original; otherwise, or when the prompt fails, no signature is written and no key returned. A key generated without a passphrase is stored plain and never causes a prompt.",
 ["inputs", "configurations"], "every passphrase, every guess (of any length within the bound) and every number of rounds including zero",
 "Tests use one passphrase and one wrong guess at most.",
 [("unlocking", K, "Private.decrypt"), ("encryption at generation", K, "GenerateKeypair"), ("signing", K, "Sign"), ("key conversion", K, "Private.ToBox"), ("encryption flag", K, "Private.IsEncrypted")])
prop("S06", "A damaged secret key is never used",
 "If the stored checksum, seed, public half, salt or (nonzero) round count of a secret key file differs in any way from what was generated, the key neither signs nor yields a decryption key, encrypted or not; signing leaves no signature file behind. The key check passes exactly when the first 8 bytes of the SHA-512 digest of the 64 key bytes equal the stored checksum.",
 ["inputs", "fault_sequences"], "every XOR difference of each region of the secret key file (changes that happen to collide in the 64-bit checksum excepted)",
 "No test damages a key file.",
 [("checksum", K, "Private.Check"), ("unlocking", K, "Private.decrypt"), ("check before signing", K, "Sign"), ("check before conversion", K, "Private.ToBox")])
prop("S07", "A failed unlock leaves the key usable",
 "After any number of attempts to unlock a loaded key with wrong passphrases or failing prompts, the key is still locked, and the right passphrase unlocks it to the same decryption key as on the first try. Once unlocked it stays unlocked without further prompts.",
 ["histories", "inputs"], "every sequence of up to three wrong passphrases of any content followed by the right one",
 "No test makes two attempts on one key object.",
 [("unlocking and restoring", K, "Private.decrypt"), ("prompting", K, "Private.ToBox")])
prop("S08", "Secret key files are private to their owner",
 "When key generation creates the secret key file, that file is at no moment readable or writable by group or others, whatever the umask, and no other file readable by them holds the secret key.",
 ["configurations"], "all umasks, with and without passphrase and options",
 "Tests never look at permissions.",
 [("file writing", C, "writeDataFile"), ("key generation", K, "GenerateKey")])
prop("S09", "Signing writes the signature only, refusal and verification write nothing",
 "A successful signing replaces the signature file entirely (also a longer old one) and changes no other file. When signing is refused (unreadable key or message, damaged key, wrong passphrase) no file is created or changed, and an existing signature file stays as it was. Verification never writes anything.",
 ["inputs", "fault_sequences"], "every message and old signature content, six kinds of refusal, five kinds of verification outcome",
 "Tests check return values only, not what is left on disk.",
 [("signing", K, "Sign"), ("file writing", C, "writeDataFile"), ("verification", K, "Verify")])
prop("S10", "Keys come from fresh entropy and entropy failures are fatal",
 "Seed, salt and key number of a generated key pair are distinct portions of what the system's entropy source delivered, so two pairs share none of them unless the source repeats itself. If the entropy source fails at any request, generation reports an error, returns no key and writes no file.",
 ["inputs", "fault_sequences"], "every entropy content and a failure at every request to the source",
 "Randomness cannot be compared by a test, and the real source never fails.",
 [("key generation", K, "GenerateKeypair"), ("key files", K, "GenerateKey")])
prop("S11", "The passphrase prompt confirms and reports faithfully",
 "The built-in prompt asks once, or twice when confirmation is wanted; with confirmation it succeeds exactly when both answers are equal, and it returns exactly the bytes typed. A terminal failure at any prompt is an error without a passphrase; signing and key conversion ask once and use that answer unchanged.",
 ["inputs", "fault_sequences"], "every pair of answers and a terminal failure at each prompt",
 "The prompt needs a terminal and is replaced in the tests.",
 [("prompt", K, "PassphrasePrompt"), ("use in signing", K, "Sign"), ("use in conversion", K, "Private.ToBox")])
prop("S12", "I/O failures in signing, verifying and generating are reported",
 "Whatever single file operation fails or writes only part of its data during signing, verification or key generation, the operation returns an error; success means that the complete files are in place. Reads that deliver their data in pieces change nothing.",
 ["fault_sequences"], "a failure (complete or partial) of every single file operation; every way of splitting reads",
 "Tests run on a working file system.",
 [("signing", K, "Sign"), ("verification", K, "Verify"), ("key generation", K, "GenerateKey"), ("file writing", C, "writeDataFile")])

prop("S13", "Passphrases are wiped from memory",
 "When signing, conversion to an encryption key or the prompt itself is over, whatever the outcome (right or wrong passphrase, damaged key, failing prompt), every buffer in which the built-in or an installed prompt delivered a passphrase to the operation holds zeros only; the built-in prompt wipes those answers it does not return.",
 ["inputs", "fault_sequences"], "every passphrase and confirmation of the given lengths, every outcome of signing, key conversion and prompting",
 "Tests look at results only, never at memory that is left behind.",
 [("signing", K, "Sign"), ("key conversion", K, "Private.ToBox"), ("unlocking", K, "Private.decrypt"), ("prompt", K, "PassphrasePrompt")])

prop("C01", "A sealed message opens to itself",
 "For every message, including the empty one and sizes at and around multiples of the chunk size, and every generated key pair, with or without passphrase, sealing for the public key and opening with the secret key yields exactly the message. Only the recipient of a message opens it, in whatever order messages are sealed and opened and whatever the output file held before. The message file itself is left untouched.",
 ["inputs", "histories"], "every message content and ephemeral key, message sizes around 0 to 5 chunk boundaries, short histories with two recipients",
 "The test round-trips one text file of a single size.",
 [("sealing", Y, "seal"), ("opening", Y, "open"), ("file sealing", Y, "Seal"), ("file opening", Y, "Open"), ("encryption key", K, "Public.ToBox"), ("decryption key", K, "Private.ToBox")])
prop("C02", "Only unmodified sealed messages open and nothing else is released",
 "Opening succeeds exactly when the sealed bytes are unchanged: any change of header, ephemeral key, tag or chunks, any truncation, any dropping, repeating, reordering or mixing of chunks between messages, any data after the last chunk, and any other secret key makes it fail. On failure nothing is written to the output but whole leading chunks of the genuine message, in order. Changing a character of the encrypted file never yields a different message.",
 ["inputs", "fault_sequences"], "every XOR difference of all sealed bytes for one and two chunks, every cut, every sequence of 0 to 4 chunks, every mixture of two messages, any appended bytes, every replaced character",
 "Tests never tamper with a sealed message.",
 [("header authentication and chunk opening", Y, "open"), ("counter", Y, "incrementNonce"), ("file opening", Y, "Open"), ("text decoding", B, "Decoder.Read")])
prop("C03", "No key and nonce pair is ever used twice",
 "Every sealing draws a fresh ephemeral key from the system's entropy source and fails, sealing nothing, if that source fails. Within a message the chunks are sealed under the 24-byte big-endian counter values 0, 1, 2, ... without repetition, and a counter about to wrap around is reported instead of reused.",
 ["inputs", "fault_sequences"], "every message, entropy content, counter value; messages of up to 258 chunks; entropy failure at every request",
 "Nonce reuse is invisible to round-trip tests, and no test has more than a few chunks.",
 [("counter", Y, "incrementNonce"), ("sealing", Y, "seal")])
prop("C04", "Sealed files have the documented format exactly",
 "A sealed message is a 72-byte header (big-endian 64-bit number of chunks, ephemeral Curve25519 public key, 32-byte nacl/auth tag of these 40 bytes under the precomputed shared key) followed by the message in pieces of 16385 bytes (the last one shorter), each sealed with nacl/box under its big-endian 24-byte index; the file is the comment line 'untrusted comment: psignify encrypted file' and this in base64 lines of 72 characters with a final newline. Conversely a message in this format made by another implementation opens, whatever its comment line.",
 ["inputs"], "every message of the given sizes, against an independent description of the format in both directions",
 "A round trip cannot notice sealing and opening changing the format together.",
 [("sealing", Y, "seal"), ("opening", Y, "open"), ("file sealing", Y, "Seal"), ("comment skipping", Y, "skipComment"), ("text encoding", B, "Encoder.Write")])
prop("C05", "Sealing and opening do not depend on how reads are split",
 "However the message source or the sealed source splits its data over reads, and whether or not the end of data comes with the last bytes, the whole message is sealed and opened. A message that turns out shorter or longer than its reported size while it is being sealed (a file that shrinks or grows, a pipe) is sealed whole or reported as an error.",
 ["schedules", "inputs"], "every way of shortening reads within the bound, bounded reads, one-byte reads, every amount by which the source shrinks or grows",
 "Local test files always deliver full reads.",
 [("sealing", Y, "seal"), ("opening", Y, "open"), ("decoding", B, "Decoder.Read")])
prop("C06", "Failures while sealing and opening are reported",
 "Whatever single read, write, open, stat or close operation fails or transfers only part of its data while sealing or opening, the operation returns an error; success means that the complete output is in place. A missing or unusable key or input, a wrong passphrase or a failing prompt is an error; without a usable key no message content is written.",
 ["fault_sequences"], "a failure, complete or partial, of every single file operation and of every read and write of a multi-chunk message",
 "Tests run on a working file system.",
 [("file sealing", Y, "Seal"), ("file opening", Y, "Open"), ("sealing", Y, "seal"), ("opening", Y, "open"), ("flushing", B, "Encoder.Close"), ("encoding", B, "Encoder.Write"), ("decoding", B, "Decoder.Read")])
prop("C07", "Opening arbitrary data fails cleanly",
 "Opening an arbitrary file or arbitrary bytes ends with an error, releases nothing and never panics or runs forever. A message whose correctly authenticated header announces more chunks than are present, however many, is refused once the chunks run out, and only genuine message bytes are released.",
 ["inputs"], "every short file content, every sealed byte string up to the bound, every 64-bit chunk count",
 "Tests open only what was just sealed.",
 [("opening", Y, "open"), ("file opening", Y, "Open"), ("comment skipping", Y, "skipComment"), ("decoding", B, "Decoder.Read")])

prop("B01", "Encoded text depends only on the bytes written",
 "Whatever bytes are written and however they are divided into writes, closing the encoder leaves standard base64 in lines of 72 characters, each full line followed by a newline, then the rest (padded) and a final newline.",
 ["inputs", "schedules"], "every content, length and division into up to three writes within the bound",
 "Tests write in one call and mostly round-trip.",
 [("encoder", B, "Encoder.Write"), ("flush", B, "Encoder.Close")])
prop("B02", "The encoder keeps the io.Writer contract",
 "Writing reports exactly the number of bytes taken, never changes or retains the caller's buffer, works with io.Copy, and reports a short count only with an error. Any failure of the underlying writer, at any point up to closing, is reported.",
 ["inputs", "fault_sequences"], "every content and length, a failing underlying write at every call with any part stored",
 "Tests ignore the count and never use a failing writer.",
 [("encoder", B, "Encoder.Write"), ("flush", B, "Encoder.Close")])
prop("B03", "The decoder keeps the io.Reader contract",
 "Whatever the sizes of the buffers passed and however the source splits its data (single bytes, empty reads, end of data with the last bytes), reading the decoder yields exactly the encoded data, never writes beyond the buffer, and ends with io.EOF, which stays. A failure of the source is reported as such, after only correct data.",
 ["inputs", "schedules", "fault_sequences"], "every content, every sequence of buffer sizes within the bound, four manners of the source, a failure at every position",
 "Tests read everything with one large buffer from a well-behaved source.",
 [("decoder", B, "Decoder.Read")])
prop("B04", "Decoding inverts encoding and rejects damaged text",
 "Decoding what the encoder wrote yields the original bytes. A character outside the base64 alphabet (other than line breaks) put in place of any character of the text or inserted anywhere in it before the final padding, or text that ends within a group of four characters, or padding that anything but line breaks follows, is an error and not the end of data; arbitrary text never makes the decoder panic or run forever.",
 ["inputs"], "every content within the bound, every foreign character at every place, every truncation, every short text",
 "Tests decode valid text only.",
 [("decoder", B, "Decoder.Read"), ("encoder", B, "Encoder.Write")])

prop("E01", "Public keys convert exactly when they are valid points",
 "A public key converts to an encryption key exactly when its low 255 bits, taken modulo p = 2^255-19, are the y-coordinate of a point of the Ed25519 curve (whatever the sign bit), and the result is the u-coordinate (1+y)/(1-y) of that point modulo p in canonical form (0 for y = 1).",
 ["inputs"], "all 2^256 encodings",
 "Tests convert two keys.",
 [("conversion", K, "Public.ToBox"), ("point decoding", F, "ExtendedGroupElement.FromBytes"), ("inversion", F, "FeInvert"), ("square root", F, "fePow22523"), ("encoding", F, "FeToBytes")])
prop("E02", "Secret keys convert to the matching Curve25519 key",
 "The decryption key of a secret key, encrypted or not, is the first half of the SHA-512 digest of its 32-byte seed, clamped (low three bits clear, top bit clear, next bit set), and converting again gives the same key. The encryption key of the public half of a generated pair belongs to it.",
 ["inputs"], "every seed and stored public half with a matching checksum; fixed pairs for the last sentence",
 "Tests convert one key and compare nothing.",
 [("conversion", K, "Private.ToBox")])
prop("E03", "Field arithmetic is exact",
 "Field addition, subtraction, negation, multiplication, squaring, doubled squaring, decoding and encoding modulo p = 2^255-19 compute the exact residue for every operand within the limb bounds they are used with, without intermediate overflow, also in place, and leave limbs the other operations accept; encoding yields the canonical residue; inversion and the square-root power are the powers p-2 and (p-5)/8 of their operand.",
 ["inputs"], "all limb values within the documented bounds",
 "Carry errors show for one operand in 2^20 or fewer.",
 [("multiplication", F, "FeMul"), ("squaring", F, "feSquare"), ("carries", F, "FeCombine"), ("encoding", F, "FeToBytes"), ("decoding", F, "FeFromBytes"), ("inversion", F, "FeInvert"), ("power", F, "fePow22523")])

prop("R01", "Operations do not interfere with one another",
 "Operations that use different files are independent however their steps interleave. Key generation, signing, verification, sealing and opening, each with its own keys, files and passphrase, succeed or fail and leave the files they do when run alone, also when another one runs from start to end while this one is inside a file operation, a request for entropy or a passphrase prompt; so do base64 encoders and decoders used in turn or inside one another's source or destination. No operation writes to package-level data, or to a public key or unencrypted secret key that several goroutines convert at the same time.",
 ["schedules", "inputs"], "every pair of operations, one nested in any call the other makes to the outside, succeeding or refused; every write to shared memory on every path of each operation, for any I/O failure",
 "Tests run one operation after the other.",
 [("key generation", K, "GenerateKey"), ("signing", K, "Sign"), ("verification", K, "Verify"), ("key conversion", K, "Public.ToBox"), ("sealing", Y, "Seal"), ("opening", Y, "Open"), ("encoder", B, "Encoder.Write"), ("decoder", B, "Decoder.Read")])

prop("R02", "Files that are read are never changed",
 "No operation changes, removes, replaces or alters the permissions of a file it reads - keys, message, signature, encrypted message - whatever its outcome, also when it fails at any point. If the output path (given or defaulted) names one of them, under the same name or another one (a link), the operation is refused and the file stays as it was.",
 ["inputs", "configurations", "fault_sequences"], "every operation, output paths naming any of its inputs directly, through a link or by default, any content, with and without passphrase, one failure of any file operation",
 "Tests use separate paths on a working file system.",
 [("signing", K, "Sign"), ("verification", K, "Verify"), ("overwrite check", C, "checkOutput"), ("sealing", Y, "Seal"), ("opening", Y, "Open")])

prop("R03", "A crash leaves nothing deceptive and can be repeated",
 "If the process dies at any point of an operation, even in the middle of a write, what it leaves behind is safe: a signature file that verifies is the complete signature of that message; an encrypted file that opens gives back a whole message (the new one or, if the output existed, the previous one); a partly recovered message is a beginning of the message or what was there before; a secret key is never readable by others, and a secret and a public key file with the same key number belong together. The files read are untouched, and running the same operation again succeeds and gives its normal result.",
 ["crash_points", "inputs", "histories"], "every operation dying at every file operation and inside every write, with and without an older output file, every short message",
 "Tests never kill an operation half-way.",
 [("signing", K, "Sign"), ("key generation", K, "GenerateKey"), ("sealing", Y, "Seal"), ("opening", Y, "Open")])

prop("M01", "The exit status tells the truth",
 "The command exits with status 0 only if the operation asked for was carried out completely: the signature is good, the key pair usable, the sealed or opened message complete; otherwise, whatever failed or however the command line is malformed, it exits with status 1 or 2, says why on standard error, and announces no success. It exits with 0 whenever nothing is wrong, and it never panics.",
 ["inputs", "fault_sequences", "configurations"], "every operation under a failure of every single file operation, every wrong passphrase, every damaged signature and sealed message, any one extra argument",
 "There are no tests of the command at all.",
 [("dispatch", M, "main"), ("usage", M, "usage")])
prop("M02", "Operations use the keys and files asked for",
 "Each operation uses exactly the key, message, signature and encrypted file given, and by default the current user's key pair ~/.signify/USER (USER alone without a home directory), MESSAGE.sig for signatures and MESSAGE.enc for encrypted output; generating without a name writes that same default pair, encrypted unless -n is given. No other file is written, and an operation that lacks an argument it needs fails.",
 ["configurations", "inputs"], "every combination of given and defaulted options, every short user name, with and without a home directory",
 "There are no tests of the command at all.",
 [("dispatch", M, "main"), ("default key", M, "defaultKeyBase"), ("default signature path", K, "Sign"), ("default output path", Y, "Seal")])
prop("M03", "The command's messages reveal no secret",
 "What the command prints on standard output and standard error does not depend on secrets: two runs that differ only in the passphrases typed, in the key material or entropy, or in the content of the message signed, sealed or opened, and that end with the same exit status after the same prompts, print the same.",
 ["inputs", "histories"], "every pair of runs of key generation, signing, sealing and opening with different passphrases, entropy, messages, or differently damaged secret keys",
 "There are no tests of the command, and a test cannot compare all pairs of runs.",
 [("dispatch", M, "main"), ("key generation", K, "GenerateKey"), ("signing", K, "Sign"), ("opening", Y, "Open"), ("sealing", Y, "Seal")])
