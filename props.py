"""Single source of the properties: their statements (gen.py writes
properties.jsonl and MANIFEST.json from here) and what each check runs."""
STK = ["stacks-core"]
SBT = ["stacks-core", "sbtc-core", "bdk"]
T_STD = "assumed contracts of std::io Read/Write over memory and of std HashMap/BTreeMap/HashSet/BTreeSet (shims/vshim: executable, association lists); payloads of io::Error, StacksError and SBTCError that wrap another error are dropped (shadow.py)"
T_FMT = "core::str::validations::run_utf8_validation (Unicode table 3-7) and std::fmt::format (text dropped, used for error messages only) replaced by their contracts"
T_REGEX = "regex crate: is_match of the contract name pattern assumed to be the SIP-004 grammar (shims/regex); hex, once_cell: executable contracts (shims/)"
T_SHA = "sha2, ripemd: uninterpreted functions of the byte string (equal inputs give equal outputs, nothing else)"
T_SECP = "secp256k1 (C library): from_compact/serialize_compact mutually inverse and Ok iff both scalars are below the group order; SecretKey::from_slice Ok iff 32 bytes in range; PublicKey::serialize some function of the key"
T_SIGN = "create_signature and recover_signature: some functions of (key or signature, payee, amount) in the callers' proofs; their own contract is only sampled, on the real library (C13 n_recover)"
T_WIT = "bitcoin Script::new_witness_program: version opcode then one push of the program"
T_KANI = "Kani 0.68 / CBMC 6.11 / CaDiCaL and rustc's MIR; Kani's pointer checks are off (the crates contain no unsafe code); unwinding assertions on, so a loop that exceeds its bound is reported as undecided, never as proved"
BASE = [T_KANI, T_STD, T_FMT]
NOTE_K = "Contracts on the real functions, discharged by Kani/CBMC per function from a copy of /repo's current text (one `extern crate` line added, error payloads dropped, dependencies replaced by contracts); byte contents unrestricted, lengths enumerated as stated; the same contracts are also evaluated on the untouched crates over random inputs. "

PROPS = {}
def P(id, title, statement, over, text, why, files, mech, parts, trusted, note, level="proof"):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     parts=parts, trusted=trusted, note=note, explanation=note, level=level)
def K(module, deps, functions, **kw):
    return dict(kind="kani", module=module, deps=deps, functions=functions, **kw)
def mechs(*a):
    return [dict(name=n, where=w) for n, w in a]

P("C01", "Fixed-width unsigned integers compute modular integer arithmetic",
  "The fixed-width unsigned integers behave as the natural numbers below 2^(64N): addition, subtraction, increment, multiplication (also by a 32-bit factor) and shifts by any amount give the mathematical result modulo 2^(64N), and division gives the quotient rounded down and panics on a zero divisor. Comparison and equality are numerical, the bitwise operations act on every bit, the bit count is the least number of bits that hold the value, the low-word accessors give its low bits, and the least, greatest and default constants have their values.",
  ["inputs"], "all operand values at 256 and 512 bits (every function is generic in the number of words; division is bounded, see the level note)",
  "the tests check a few dozen hand-picked operands; carries across words, shifts by word multiples and quotient corner cases are only hit by particular values",
  ["stacks-core/src/uint.rs"], mechs(("word-wise carry and borrow loops", "stacks-core/src/uint.rs"), ("macro-generated operators", "stacks-core/src/uint.rs")),
  [K("p01", STK, ["Uint::{add,sub,mul,div,shl,shr,bitand,bitor,bitxor,not,increment,mul_u32,bits,cmp,partial_cmp,eq,low_u32,low_u64,one,MIN,MAX,default}"],
     bounded={"b_": "quotient below 4, operands of 64 or 128 bits", "t_b_": "quotient below 4, operands of 256 bits", "n_": "sampled"})],
  BASE, NOTE_K + "256-bit operands in the quick check, 512-bit ones in thorough; full multiplication is proved modularly over the contracts of mul_u32, shift and addition; division is bounded (small quotients) plus sampled against schoolbook division.")

P("C02", "Integer conversions keep the value and refuse what does not fit",
  "Converting a fixed-width integer to little- or big-endian bytes or hex and back returns the same integer, the byte and hex forms being exactly the fixed-width positional notation, and input of any other length or with a non-hex digit is an error. Converting between widths keeps the value when it fits, panics in the checked form when it does not, and keeps the low words in the lossy form. Conversions from primitive integers keep the value, a double-SHA-256 hash is read little-endian, a word vector must have the exact length, and the text form is 0x and the big-endian hex.",
  ["inputs"], "all integers of 256 and 512 bits, all byte strings of the exact and neighbouring lengths, all hex strings of the stated lengths",
  "tests convert a handful of constants; a wrong word order, dropped word or accepted short input shows only on values with the affected words set",
  ["stacks-core/src/uint.rs", "stacks-core/src/codec.rs"], mechs(("to/from bytes, hex, word arrays", "stacks-core/src/uint.rs"), ("widening and narrowing", "stacks-core/src/uint.rs")),
  [K("p02", STK, ["Uint::{to_le_bytes,to_be_bytes,from_le_bytes,from_be_bytes,to_le_hex,to_be_hex,from_le_hex,from_be_hex,from_uint,from_uint_lossy,to_uint,to_uint_lossy,from_u64_array}", "From<u8..u128>", "From<DoubleSha256Hasher>", "TryFrom<Vec<u64>>", "Codec for Uint"])],
  BASE + [T_REGEX], NOTE_K + "Hex decoding at 64 bits in quick (128, 256 bits in thorough), sampled at 256 and 512 bits.")

T_VERUS = "Verus 0.2026.09.13 / z3; the extraction of verusc32.py (loops rewritten to indexed while loops, texts as their bytes, capacities and error payloads dropped, bit counters typed u32), whose rewrites fail closed"
T_VSTD = "assumed Verus contracts of Vec::reverse/extend_from_slice/insert, slice split_at/is_ascii/==, u8::try_from, String::from_utf8 on ASCII; lengths below 2^59"
T_MAP = "the lazily built C32_BYTE_MAP holds the digit values: assumed by the proof, checked on all 128 entries on every run (p04 n_map)"

P("C03", "C32 text denotes the bytes' number and decoding inverts encoding",
  "For every byte string, the c32 text is one '0' per leading zero byte followed by the base-32 digits, most significant first and without leading zeros, of the big-endian number the bytes denote. Decoding is defined for exactly the texts of c32 digits (either case, with o for 0 and i, l for 1), gives one zero byte per leading zero digit followed by the least bytes of the number the digits denote, and gives back any encoded bytes; a text that decodes to some bytes differs from their encoding only in case and in those aliases.",
  ["inputs"], "byte strings and texts of every length (unbounded proof)",
  "tests sample random strings of length 10; bit carries across bytes, leading zeros, aliases and rejected characters depend on values and lengths",
  ["stacks-core/src/c32.rs"], mechs(("encode and decode bit buffers", "stacks-core/src/c32.rs"), ("alphabet and byte map", "stacks-core/src/c32.rs")),
  [dict(kind="verusc32", theory="c32", functions=["c32::encode", "c32::decode", "C32_ALPHABET"]),
   K("p03", STK, ["c32::encode", "c32::decode"], bounded={"b_": "strings of 1 to 5 bytes", "n_": "sampled"}),
   K("p04", STK, ["C32_BYTE_MAP"], only=["n_map"])],
  [T_VERUS, T_VSTD, T_MAP, T_KANI], "Loop invariants and lemmas over the extracted text of the real functions, discharged by Verus for all lengths; the round-trip and normal-form theorems are proved over the two postconditions. Kani runs the same contract on the code itself for short strings (bounded), and it is sampled on the real crate up to 200 bytes.")

P("C04", "Address texts carry version, hash and checksum, and nothing else is accepted",
  "The text of a Stacks address is S, the version's character, and the c32 text of the hash followed by the first four bytes of the double SHA-256 of version and hash. Reading it back gives the same version and hash, and a text is read as an address exactly when it is the text of that version and a 20-byte hash up to case and aliases: other version characters, lengths, characters and checksums are refused. A principal's text is an address, or an address, a dot and a valid contract name.",
  ["inputs"], "data of every length, all versions, texts of every length (unbounded proof of the c32check functions); the address and principal wrappers over their contracts and by sampling",
  "tests round-trip valid addresses; a wrong checksum span or an accepted malformed text is never tried",
  ["stacks-core/src/c32.rs", "stacks-core/src/address.rs", "stacks-core/src/utils.rs"],
  mechs(("version_check_encode/decode, encode_address/decode_address", "stacks-core/src/c32.rs"), ("StacksAddress from and to text", "stacks-core/src/address.rs"), ("PrincipalData from text", "stacks-core/src/utils.rs")),
  [dict(kind="verusc32", theory="c32check", functions=["c32::{version_check_encode,version_check_decode,encode_address,decode_address,encode,decode}", "AddressVersion discriminants"]),
   K("p04", STK, ["AddressVersion::try_from", "StacksAddress::try_from(&str)", "From<StacksAddress> for String", "Display", "PrincipalData::try_from(String)"], bounded={"n_": "sampled"})],
  [T_VERUS, T_VSTD, T_MAP, T_SHA, T_KANI, T_FMT], "The checksum is an uninterpreted function of the bytes hashed. decode(encode(x)) = x, rejection of everything else, the normal form and injectivity are theorems over the contracts. Kani proves the version table and, modularly, the address conversions; principal texts are sampled on the real code (str::split is out of reach).")

P("C05", "Contract names are exactly the SIP-004 grammar",
  "A string is accepted as a contract name exactly when it is a letter followed by at most 39 letters, digits, hyphens or underscores, or the reserved name __transient; anything else, in particular an empty or longer string, is refused. An accepted name keeps exactly the text it was made from.",
  ["inputs"], "all byte strings that are UTF-8, of every length 0 to 42 and 64, 128, 255",
  "tests try a few names; a loosened bound or character class accepts only particular strings",
  ["stacks-core/src/contract_name.rs"], mechs(("length bounds and CONTRACT_NAME_REGEX", "stacks-core/src/contract_name.rs")),
  [K("p05", STK, ["ContractName::new", "TryFrom<&str>", "TryFrom<String>", "AsRef/Deref"]), dict(kind="regexeq")],
  BASE + [T_REGEX], NOTE_K + "Kani runs over the length bounds with the pattern match as its contract; that the pattern in the source denotes exactly that language is decided separately by automaton equivalence on every run (regexeq.py).")

P("C06", "Principals have one wire form, and decoding accepts only it",
  "A principal is written as its type byte, address version, 20-byte hash and, for a contract, the length-prefixed name; reading that back yields the same principal and consumes exactly those bytes. Reading fails on every other input: unknown type bytes, unknown address versions, invalid or over-long names, truncated data.",
  ["inputs"], "all principals; all byte strings as input to the decoder, by length class (names of 0 to 40 characters, over-long and truncated)",
  "tests round-trip a few well-formed principals; acceptance of malformed bytes is not tested at all",
  ["stacks-core/src/utils.rs", "stacks-core/src/address.rs", "stacks-core/src/contract_name.rs", "stacks-core/src/codec.rs"],
  mechs(("Codec for PrincipalData, StandardPrincipalData", "stacks-core/src/utils.rs"), ("Codec for StacksAddress", "stacks-core/src/address.rs"), ("Codec for ContractName", "stacks-core/src/contract_name.rs")),
  [K("p06", STK, ["PrincipalData/StandardPrincipalData/StacksAddress/ContractName ::{codec_serialize,codec_deserialize}", "Codec::serialize_to_vec"])],
  BASE + [T_REGEX], NOTE_K + "Name lengths 0, 1, 2, 11, 12, 24, 33, 39, 40, over and short in quick, every length in thorough.")

P("C07", "Stacks addresses are the right hash of the right script",
  "An address made from a public key for pay-to-public-key-hash is the Hash160 of the compressed key, for pay-to-witness-public-key-hash the Hash160 of the witness script over that hash; a multi-signature address is the Hash160 of the m-of-n redeem script over the compressed keys in the order given, and its witness form the Hash160 of the witness script over the SHA-256 of it. The address carries exactly the version it was asked for.",
  ["inputs"], "all keys, versions, and key lists of 1 to 3 keys (7 in thorough, up to 16 sampled)",
  "tests compare a few fixed vectors; key order, threshold encoding and script bytes depend on the keys and counts",
  ["stacks-core/src/address.rs", "stacks-core/src/crypto/hash160.rs", "stacks-core/src/crypto/sha256.rs"],
  mechs(("address constructors", "stacks-core/src/address.rs"), ("Hash160 as RIPEMD-160 of SHA-256", "stacks-core/src/crypto/hash160.rs")),
  [K("p07", STK, ["StacksAddress::{p2pkh,p2sh,p2wpkh,p2wsh,from_public_key,new,version,hash}", "Hash160Hasher, Sha256Hasher ::hash"])],
  BASE + [T_SHA, T_SECP], NOTE_K + "Hash functions are uninterpreted, so what is proved is the bytes that are hashed.")

P("C08", "Keys in WIF, derivation paths and credentials name the right key",
  "A wallet-import-format key round-trips its network and private key, and bytes or text are accepted exactly when they have the right length, a known network prefix, the compression flag, a valid key and the right double-SHA-256 checksum. The credentials at an index hold the keys at the standard Stacks and Bitcoin (legacy, segwit, taproot) derivation paths of that index and network, and their addresses, keys and wallet-import forms all belong to those keys and that network; only Bitcoin mainnet corresponds to the Stacks mainnet.",
  ["inputs"], "all 38-byte strings and neighbouring lengths; all keys and networks; sampled seeds, indices and texts for derivation",
  "tests use one mnemonic and one or two indices, and no malformed WIF beyond one",
  ["stacks-core/src/crypto/wif.rs", "stacks-core/src/wallet.rs", "stacks-core/src/lib.rs"],
  mechs(("WIF layout and checksum", "stacks-core/src/crypto/wif.rs"), ("derivation paths and credentials", "stacks-core/src/wallet.rs"), ("network conversions", "stacks-core/src/lib.rs")),
  [K("p08", ["stacks-core", "bdk"], ["WIF::{new,from_bytes,network,private_key}", "WIFPrefix", "Network conversions"], bounded={"n_": "sampled on the real code"})],
  BASE + [T_SHA, T_SECP], NOTE_K + "Derivation paths, credentials, wallets and text forms go through string formatting, BIP-32 and base58 of the bitcoin crate, which are out of the verifier's reach: those clauses are sampled on the real code only (bounded, not proved).")

P("C10", "A deposit is parsed from exactly the transactions that carry one",
  "A transaction is a deposit exactly when its first output is OP_RETURN with a single push of well-formed deposit data carrying the queried network's magic bytes, the deposit opcode and a principal (further bytes are ignored), and its second output pays an address. The parsed amount, wallet address, recipient and network are then exactly those of the outputs; writing deposit data gives exactly the bytes that parse to it.",
  ["inputs"], "all data bytes by shape (standard and contract recipients, every malformed head, truncations, extra bytes), all networks, amounts and address kinds; other outputs arbitrary",
  "tests parse one generated deposit; every malformed, foreign-network or hostile transaction is untested",
  ["sbtc-core/src/operations/op_return/deposit.rs", "sbtc-core/src/operations/mod.rs", "stacks-core/src/utils.rs"],
  mechs(("Deposit parsing and data codec", "sbtc-core/src/operations/op_return/deposit.rs"), ("magic bytes and opcodes", "sbtc-core/src/operations/mod.rs")),
  [K("p10", SBT, ["Deposit::parse", "DepositOutputData::{codec_serialize,codec_deserialize}", "magic_bytes", "Opcode codec"])],
  BASE + [T_REGEX, T_WIT], NOTE_K + "Contract names of 0, 1, 40 and 41 characters in quick, more in thorough, all lengths sampled.")

P("C12", "A withdrawal request is authorised by its signer, over its amount and payee",
  "A transaction is a withdrawal request exactly when its first output is OP_RETURN with a push of well-formed request data of the queried network, its second and third outputs pay addresses, and the signature recovers a public key for the amount and the payee of this very transaction. The drawee is then the pay-to-public-key-hash Stacks address, on the queried network, of that recovered key, and amount, signature, payee, wallet and fulfilment fee are exactly those of the outputs.",
  ["inputs"], "all 76-byte request data and truncations and extensions of it, all networks, amounts and address kinds; signing and recovery uninterpreted",
  "tests cover one signed request; a check against the wrong amount, output, network or version passes them",
  ["sbtc-core/src/operations/op_return/withdrawal_request.rs"],
  mechs(("try_parse_withdrawal_request", "sbtc-core/src/operations/op_return/withdrawal_request.rs"), ("recover_signature", "sbtc-core/src/operations/op_return/withdrawal_request.rs")),
  [K("p12", SBT, ["try_parse_withdrawal_request", "WithdrawalRequestDataOutputData::codec_deserialize", "StacksAddress::from_public_key"])],
  BASE + [T_SHA, T_SECP, T_SIGN, T_WIT], NOTE_K + "Also sampled end to end with real signatures and with tampered amount, payee and signature.")

P("C13", "A withdrawal request binds amount and payee and pays what it must",
  "The signed message of a withdrawal request is the SHA-256 of the length-prefixed Stacks prefix and text, the text naming the amount and the payee in words and the big-endian amount and the payee's script in hex, so a signature never fits another amount or payee. The outputs built are the data output (magic bytes, opcode, amount, signature over this amount and payee), the least non-dust payment to the payee and the fulfilment fee to the wallet, in this order, and a fee below the wallet's dust limit is refused; request data is read back exactly as written and only when well-formed.",
  ["inputs"], "all amounts, fees, keys, networks and address kinds; all 76-byte data and neighbouring lengths",
  "tests fix one amount, one address and one key",
  ["sbtc-core/src/operations/op_return/withdrawal_request.rs", "stacks-core/src/codec.rs"],
  mechs(("signing message", "sbtc-core/src/operations/op_return/withdrawal_request.rs"), ("create_outputs and data codec", "sbtc-core/src/operations/op_return/withdrawal_request.rs")),
  [K("p13", SBT, ["create_outputs", "WithdrawalRequestDataOutputData::{new,codec_serialize,codec_deserialize}", "create_signing_message", "build_op_return_script"], bounded={"n_": "sampled on the real code"})],
  BASE + [T_SHA, T_SECP, T_SIGN, T_WIT], NOTE_K + "The text of the message is produced by std formatting and bech32/base58, out of the verifier's reach: that clause is sampled (every address kind, random amounts).")

P("C14", "A withdrawal fulfilment names its block and pays the exact amount",
  "The outputs of a withdrawal fulfilment are a zero-value OP_RETURN with the network's magic bytes, the fulfilment opcode and the 32-byte big-endian Stacks block id, followed by a payment of exactly the requested amount to exactly the recipient's script. Fulfilment data is read back exactly as written, and reading fails on unknown magic bytes, another opcode or truncated data.",
  ["inputs"], "all block ids, networks, amounts and address kinds; all byte strings of length 0 to 3, 34, 35 and 37 as input to the decoder",
  "no test reaches these functions with more than one value",
  ["sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs", "stacks-core/src/lib.rs"],
  mechs(("create_outputs and data codec", "sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"), ("BlockId codec", "stacks-core/src/lib.rs")),
  [K("p14", SBT, ["create_outputs", "ParsedWithdrawalFulfillmentData::{codec_serialize,codec_deserialize}", "BlockId codec", "build_op_return_script"])],
  BASE + [T_WIT], NOTE_K)

P("C15", "Commit-reveal data round-trips and malformed data is refused",
  "Commit-reveal deposit data (opcode, principal, reveal fee) and withdrawal data (opcode, amount, signature, reveal fee) are written in exactly that layout with big-endian amounts, and read back as the same values consuming exactly those bytes. Reading fails on another opcode, on malformed or truncated parts, and on signatures whose recovery id or scalars are out of range; the primitive encodings of amounts, integers, opcodes, scripts and signatures obey the same rule.",
  ["inputs"], "all data values; all byte strings of the stated lengths as input to the decoders",
  "tests round-trip single random values and never feed malformed bytes",
  ["sbtc-core/src/operations/commit_reveal/deposit.rs", "sbtc-core/src/operations/commit_reveal/withdrawal_request.rs", "stacks-core/src/codec.rs", "sbtc-core/src/operations/mod.rs"],
  mechs(("data codecs", "sbtc-core/src/operations/commit_reveal"), ("primitive codecs", "stacks-core/src/codec.rs")),
  [K("p15", SBT, ["DepositData/WithdrawalData ::{codec_serialize,codec_deserialize}", "Codec for Amount, u64, Opcode, Script, RecoverableSignature"])],
  BASE + [T_REGEX, T_SECP], NOTE_K + "Contract names of 1 and 40 characters in quick, 11 in thorough.")

NOT_APPLICABLE = []
