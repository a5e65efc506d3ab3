package main

var commonAssumptions = []string{
	"go/ssa (x/tools v0.52.0), this engine's encoding of it and the SMT solver (z3) are correct; sampled paths of every harness are replayed natively and compared",
	"64-bit Go, linux/amd64; sequential execution (R01: operations nested in one another, and no writes to shared memory)",
	"os, io/ioutil, os/user, crypto/rand, the terminal, fmt and log are replaced by stand-ins (overlay/v*): an in-memory file system with injectable faults, short reads and a umask; scripted or symbolic entropy and passphrases",
}

var cryptoAssumption = "idealised cryptography on symbolic data: SHA-512 (and its 8-byte prefix), bcrypt_pbkdf, Curve25519 and HSalsa20 are injective, Ed25519, secretbox and nacl/auth unforgeable; the real primitives are used wherever their inputs are concrete, and for every replay"

func specByID(id string) *PropSpec {
	for _, s := range specs() {
		if s.ID == id {
			return &s
		}
	}
	return nil
}

func j(h string, n ...int) JobSpec {
	js := JobSpec{Harness: h, Quick: 1}
	if len(n) > 0 {
		js.Quick = n[0]
	}
	if len(n) > 1 {
		js.Thorough = n[1]
	}
	return js
}

func mc(id, bounds string, crypto bool, jobs ...JobSpec) PropSpec {
	p := PropSpec{ID: id, Level: "model_checking", Bounds: bounds, Jobs: jobs}
	if crypto {
		p.Assumptions = []string{cryptoAssumption}
	}
	return p
}

func specs() []PropSpec {
	return []PropSpec{
		mc("B01", "input 0..~60 symbolic bytes cut into up to 3 writes at symbolic places (more in thorough), and whole lines of 54 bytes up to 6 lines +/- 1 byte; 7 sizes of 1000..65650 (12 of 1000..262300) bytes in one big write after a short one; 700 bytes in writes of 1, 2, 4 and 7, 66000 in writes of one byte", false,
			j("B01_split", 3, 4), j("B01_split3"), j("B01_line", 4), j("B01_big", 6), j("B01_huge", 7, 12), j("B01_calls", 2)),
		mc("B02", "writes of 0..120 symbolic bytes; a destination failing at any write with any of four errors; 1000, 1024, 4096 and 16401 bytes at once or by io.Copy, failing at six selected writes", false,
			j("B02_count", 2), j("B02_copy"), j("B02_fail", 2), j("B02_huge", 4, 6)),
		mc("B03", "texts of up to 2 lines of symbolic content, reads with buffers of symbolic sizes, sources that split their reads or fail at any read with any of four errors; texts of 1000, 1025, 4096 and 16401 symbolic bytes with buffers of 333..65536 bytes; 900 bytes with eight small buffers, 66000 with a buffer of one byte", false,
			j("B03_read", 2), j("B03_lines", 2, 3), j("B03_eof"), j("B03_fail"), j("B03_huge", 4, 6), j("B03_calls", 2)),
		mc("B04", "arbitrary texts of up to 6 (8) symbolic characters; one symbolic character anywhere in a valid text; padding within texts of up to 7 (10) bytes, and two texts joined; every truncation of a text; any foreign character in selected places of, or truncation of, texts of 1000, 1025 and 4096 bytes read with big buffers", false,
			j("B04_roundtrip", 2, 3), j("B04_badchar"), j("B04_insert"), j("B04_padding"), j("B04_truncated"), j("B04_any", 2), j("B04_huge", 3, 5)),

		mc("S01", "messages of 0..40, 510..514, 4095..4097, 65535..65537 and 2^20-1..2^20 symbolic bytes (thorough: up to 2^24+1); 2^24+3 and 2^28+1 (2^30+5) bytes, one of them, anywhere, symbolic; symbolic entropy (all keys); symbolic number of rounds; key names of 1..4 symbolic bytes; histories of 2 (3) signatures with 2 keys and 2 symbolic messages; two renewals of key, message or both under the same names; 130 (1100) signatures with two keys; names of 15 lengths up to 4096", true,
			j("S01_sign", 5, 7), j("S01_long", 2, 3), j("S01_entropy"), j("S01_names"), j("S01_rounds"), j("S01_history"), j("S01_renew"), j("S01_longnames"), j("S01_many")),
		mc("S02", "all XOR differences of the 74-byte signature payload and the 42-byte public key payload, separately and together; all other messages of the length ranges 0..40, 500..530, 4090..4100 (thorough: 65530..65540); arbitrary signature payloads; all key numbers against all others; messages of up to 2^28+3 bytes with any one byte changed and any length; in a fresh process or after the genuine signature was verified", true,
			j("S02_sig"), j("S02_keynum"), j("S02_pub"), j("S02_msg", 3, 4), j("S02_any", 2), j("S02_joint"), j("S02_long", 4)),
		mc("S03", "payload lengths 0..110 (signature), 0..80 (public key), 0..140 (secret key) with symbolic tags and extensions; arbitrary files of 0..9 (11) symbolic bytes; symbolic tails of 4 (6) bytes; any one character of a file replaced by any byte; a line of up to 4 symbolic bytes and one of six endings before the payload", true,
			j("S03_siglen"), j("S03_publen"), j("S03_seclen"), j("S03_kdf"), j("S03_raw", 3), j("S03_rawline", 3), j("S03_b64", 3), j("S03_extra", 3), j("S03_before", 3)),
		mc("S04", "generated and signed files with symbolic entropy and messages, byte by byte; comments of symbolic content and length around every limit; names of 1..4 symbolic bytes; all numbers of rounds; one or three comment lines of 7 lengths up to 65000; files of the reference implementation with symbolic comment, CRLF and missing final newline", true,
			j("S04_keys"), j("S04_sig"), j("S04_name"), j("S04_rounds", 3), j("S04_comments"), j("S04_longcomments"), j("S04_interop")),
		mc("S05", "symbolic passphrases of up to 6 bytes and guesses of up to 6 bytes; passphrases of 73, 300, 1025 and 65537 bytes with any one byte changed, shortened or lengthened; all round counts of -2^62..2^62; after use of the right passphrase or not", true,
			j("S05_pass"), j("S05_plain"), j("S05_stored"), j("S05_rounds", 2), j("S05_promptfail"), j("S05_long", 4)),
		mc("S06", "all XOR differences of checksum, salt, seed and public half of the stored key, encrypted or not; all pairs of round counts up to 300 (1000), and up to 3 against all above 255; checksums with a zero byte at each place", true,
			j("S06_damage", 4), j("S06_salt", 2), j("S06_check"), j("S06_rounds", 2), j("S06_zeros")),
		mc("S07", "up to three symbolic wrong passphrases of up to 4 bytes before the right one; 40 (600) wrong ones and failing prompts, then a symbolic one, then 320 (4800) conversions; failing prompts", true,
			j("S07_retry"), j("S07_many"), j("S07_promptfail")),
		mc("S08", "all 512 umasks (symbolic), with and without passphrase; names of 1..4 symbolic bytes in seven places with four endings", true,
			j("S08_perm"), j("S08_names"), j("S08_again"), j("S08_fail")),
		mc("S09", "six kinds of refusal, symbolic messages of up to 30 bytes, symbolic previous signature files of up to 300 bytes; up to 3 symbolic bytes before or after the files verified; other files in place of whatever signing creates and removes", true,
			j("S09_sign"), j("S09_long"), j("S09_verify"), j("S09_scratch")),
		mc("S10", "symbolic entropy; the entropy source failing at any call, or delivering its bytes one by one or the first three requests in pieces; 150 (1100) pairs", true,
			j("S10_fresh"), j("S10_material"), j("S10_fail"), j("S10_short"), j("S10_many")),
		mc("S11", "two symbolic answers of up to 4 (12) bytes each; answers of 73, 300, 1025 and 4095 bytes with any one byte changed, shortened or lengthened; failing terminal", true,
			j("S11_prompt"), j("S11_use"), j("S11_long", 4)),
		mc("S12", "one I/O fault at any operation, complete or partial, with any of up to five errors; files read one byte at a time or in symbolic pieces", true,
			j("S12_sign"), j("S12_verify"), j("S12_generate"), j("S12_short")),

		mc("S13", "symbolic passphrases and answers of up to 6 bytes and of ten lengths up to 65537; a failure of any file operation; damaged KDF tags; failing terminal", true,
			j("S13_sign"), j("S13_box"), j("S13_prompt"), j("S13_use"), j("S13_long"), j("S13_longprompt")),

		mc("C01", "messages of 0..120 symbolic bytes through files; symbolic content of chunk boundary sizes (16384..16386, 32769..32771, 49155..49156 bytes); fixed texts of 8 sizes up to 65536; all ephemeral keys; histories of 2 messages with 2 recipients; two renewals of key, message or both under the same names; 130 (1100) messages to three recipients; 65539 chunks", true,
			j("C01_file", 2, 3), j("C01_entropy"), j("C01_chunks", 3, 4), j("C01_big", 8), j("C01_history"), j("C01_renew"), j("C01_many"), j("C01_huge")),
		mc("C02", "all XOR differences of a whole sealed message of one and two chunks; truncation anywhere; 0..4 chunks in any order; parts of two messages mixed; any character of the file replaced by any byte; other keys; in a fresh process or after the genuine message was opened", true,
			j("C02_delta", 3), j("C02_deltas", 4), j("C02_trunc", 4), j("C02_chunks"), j("C02_mix"), j("C02_file"), j("C02_filecut"), j("C02_key"), j("C02_extra", 6), j("C02_again", 2), j("C02_fileextra", 3)),
		mc("C03", "symbolic entropy for two messages; every value of the 24-byte counter; messages of 258 and 65539 chunks; 150 (1100) messages; entropy source failing at any call", true,
			j("C03_fresh"), j("C03_chunks"), j("C03_entropyfail"), j("C03_nonce"), j("C03_many"), j("C03_short"), j("C03_messages"), j("C03_huge")),
		mc("C04", "messages of 1..60, 16384..16387 and 32770..32771 symbolic bytes against an independent description of the format, in both directions; message sizes of 1..2^46 bytes (header only), 65539 chunks (opening); comments of up to 5 symbolic characters or of 13 (16) lengths up to 9000 (70000)", true,
			j("C04_format", 3, 4), j("C04_file"), j("C04_interop", 3), j("C04_count"), j("C04_comment"), j("C04_huge")),
		mc("C05", "messages of 20, 16392 and 32771 bytes with two short reads of symbolic (small) or selected (large) length, or all reads bounded; sources that shrink or grow by a symbolic amount, files of 0..60 bytes whose size is reported wrongly, pipes; sources with idle reads", true,
			j("C05_sealshort", 3), j("C05_openshort", 3), j("C05_file"), j("C05_shrink", 2), j("C05_size"), j("C05_pipe")),
		mc("C06", "one I/O fault at any operation, complete or partial, for messages of up to two chunks (with any of up to five errors for short ones); unusable keys", true,
			j("C06_seal"), j("C06_open"), j("C06_big"), j("C06_readfail"), j("C06_keys")),
		mc("C07", "arbitrary encrypted files of up to 6 symbolic bytes after the comment line, arbitrary sealed messages of up to 120 symbolic bytes, and authenticated headers with a symbolic 64-bit chunk count", true,
			j("C07_any"), j("C07_raw"), j("C07_count", 4), j("C07_nonl")),
		func() PropSpec {
			p := mc("E01", "all 2^256 encodings of a public key, through the key file; field operations by their contracts (E03, for all limbs within 1.1*2^26/2^25, encoding 1.5*2^26/2^25), which are proved in the same run", false,
				append([]JobSpec{j("E01_point")}, fieldJobs()...)...)
			p.Assumptions = []string{"p = 2^255-19 is prime; z^(p-1) = 1 for z != 0 and Euler's criterion; the identities of powers of (y^2-1), (dy^2+1) are normalised by the engine before the solver decides the cases"}
			p.Search = "E01_search"
			return p
		}(),
		mc("E03", "all operands with limbs within 1.1*2^26/2^25 (products, squares, powers), 1.5*2^26/2^25 (encoding), 1.1*2^25/2^24 (sums); all 2^256 byte strings (decoding); results within 1.1*2^25/2^24 (sums 1.1*2^26/2^25); separate and overlapping operands", false, fieldJobs()...),
		mc("E02", "all seeds (64 symbolic key bytes)", true,
			j("E02_scalar"), j("E02_two"), j("E02_encrypted"), j("E02_pair")),
		mc("R01", "all pairs of the five operations, messages of 1..3 symbolic bytes, the inner one run to its end inside any one file operation, entropy request or prompt of the outer one (quick: inside sealing and opening, every third or sixth read or write), in the same directory or in different ones; two messages of two chunks of symbolic content; streams of 0..6 symbolic bytes; writes to shared memory under one I/O fault at any operation", true,
			j("R01_nested", 10), j("R01_shared", 7), j("R01_chunks", 2), j("R01_streams"), j("R01_decoders"), j("R01_inside"), j("R01_buffers")),
		mc("R02", "outputs naming each input by its path, a hard or symbolic link, another spelling or by default; messages of 0..3 symbolic bytes; symbolic permissions; files with other line ends and comments, or up to 3 symbolic bytes in front; inputs in place of whatever an operation creates and removes; one I/O fault at any operation, complete or partial; wrong passphrases", true,
			j("R02_same", 3), j("R02_scratch", 3), j("R02_default"), j("R02_other", 5)),
		mc("R03", "each operation dying at any operation that changes files (up to 60), each write cut off after any number of bytes (quick, sealing: 0..3 bytes, up to 6 short of the end, and every 17th between); messages of 0..3 (sealing 0..1, opening 0..12) symbolic bytes; with and without an older output; messages of up to three chunks cut off at 12 places (sealing) or between any two operations (opening)", true,
			j("R03_sign", 3), j("R03_seal", 4), j("R03_big"), j("R03_open"), j("R03_openbig", 3), j("R03_generate", 2)),
		mc("M01", "all five operations under one I/O fault at any operation, wrong passphrases of up to 5 symbolic bytes, all XOR differences of a signature and a sealed message, one extra argument of 0..3 (5) symbolic bytes at four places, six kinds of further arguments", true,
			j("M01_verify"), j("M01_sign"), j("M01_generate"), j("M01_crypt"), j("M01_tampered"), j("M01_args", 4), j("M01_none"), j("M01_extra")),
		mc("M02", "every combination of given and defaulted key and file options, symbolic messages, passphrases, user and directory names; relative paths in several directories, with ~, $ and - in front; key and message names of 1..3 symbolic characters and with seven suffixes; unknown environment variables", true,
			j("M02_sign"), j("M02_verify"), j("M02_generate"), j("M02_crypt"), j("M02_user"), j("M02_missing"), j("M02_relative"), j("M02_names", 3)),
		mc("M03", "pairs of runs that differ in passphrases of up to 4 bytes (or of 9, 12, 40, 73 and 129 in one of them), entropy, all XOR differences of the 64 stored key bytes, or message content; malformed secret key files of six kinds", true,
			j("M03_generate"), j("M03_use"), j("M03_seal"), j("M03_malformed")),
	}
}

func fieldJobs() []JobSpec {
	return []JobSpec{j("E03_to"), j("E03_mul", 3), j("E03_square", 2), j("E03_square2"), j("E03_add", 6), j("E03_from"), j("E03_constants"), j("E03_invert", 2), j("E03_pow", 2)}
}
