#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that long statements stay readable)."""
import json, os

BP = "protocol/bin-prot/src/"
OUT = []


def P(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


P("C01", "Integers use the shortest form that holds them and read back exactly",
  "Every signed or unsigned integer (except u8, which is one raw byte) is written in bin_prot's variable-length integer form with the fewest bytes able to hold it (one byte below 128, then the 16, 32 and 64 bit codes, negatives behind their own code), byte for byte as OCaml writes it. "
  "Reading an integer into any width returns exactly the number the bytes denote when the bytes are well formed and the number fits, and an error otherwise: never a truncated, sign-changed or different number.",
  ["inputs"], "every value of i8..i64 and u8..u64 on the way out; every byte sequence of up to 10 bytes, into every destination width, on the way in",
  "the tests list a few dozen values; the boundaries at which codes change and the non-minimal and overflowing encodings are a 2^64 space",
  [BP + "write_ext.rs", BP + "read_ext.rs", BP + "integers/integer.rs", BP + "ser.rs", BP + "de.rs"],
  [("width selection on write", BP + "write_ext.rs bin_write_integer"), ("code dispatch and narrowing on read", BP + "read_ext.rs bin_read_integer")],
  ["bin_prot::to_writer", "bin_prot::from_reader", "bin_prot::WriteBinProtExt", "bin_prot::ReadBinProtExt"])
P("C02", "Lengths use the shortest form and are read back exactly",
  "Every non-negative length is written in bin_prot's variable-length natural number form with the fewest bytes able to hold it, and strings, byte strings and lists carry exactly their element count in that form. "
  "Reading a length returns exactly the number the bytes denote, or an error when the code is not one of the format or the number does not fit the destination.",
  ["inputs"], "every value of u8..u64; every byte sequence of up to 10 bytes into every width; containers of every length around each boundary of the encoding",
  "tests use short containers; the 128, 65536 and 2^32 boundaries and hostile prefixes are not sampled",
  [BP + "write_ext.rs", BP + "read_ext.rs", BP + "integers/nat0.rs", BP + "ser.rs", BP + "de.rs"],
  [("width selection", BP + "write_ext.rs bin_write_nat0"), ("code dispatch", BP + "read_ext.rs bin_read_nat0"), ("length prefixes", BP + "ser.rs serialize_seq, serialize_str, serialize_bytes")],
  ["bin_prot::to_writer", "bin_prot::from_reader", "bin_prot::WriteBinProtExt", "bin_prot::ReadBinProtExt"])
P("C03", "Decoding what was encoded returns the same value",
  "For every serializable value (numbers, booleans, characters, strings, options, lists, arrays, tuples, records, enums, polymorphic variants and any nesting of them), decoding its encoding with the plain or the strict reader returns an equal value. "
  "Values written one after another are read back one after another through one reader, each consuming exactly its own bytes.",
  ["inputs"], "every value of each instantiated type, within the stated sizes",
  "tests round-trip one or two literals per type",
  [BP + "ser.rs", BP + "de.rs", BP + "read_ext.rs", BP + "write_ext.rs"],
  [("serializer", BP + "ser.rs Serializer"), ("deserializer", BP + "de.rs Deserializer, SeqAccess, Enum")],
  ["bin_prot::to_writer", "bin_prot::from_reader", "bin_prot::from_reader_strict", "bin_prot::Deserializer"])
P("C04", "Encoding emits exactly the bytes OCaml's bin_prot defines",
  "For every serializable value the bytes written are exactly those the bin_prot format prescribes: 00/01 for booleans and option tags, the unit byte 00, characters as one Latin-1 byte (anything that does not fit is an error), u8 as one raw byte and other integers in variable length, IEEE little-endian floats, strings and lists behind their length, tuples and records as the bare sequence of their fields, enum variants behind their index (one byte, for enums of up to 256 variants) and polymorphic variants behind their four byte tag.",
  ["inputs"], "every value of each instantiated type, within the stated sizes",
  "a codec that is wrong in the same way in both directions passes every round-trip test but forks the node from the network; only a few byte literals are compared",
  [BP + "ser.rs", BP + "write_ext.rs", BP + "array/mod.rs"],
  [("serializer", BP + "ser.rs Serializer"), ("primitive writers", BP + "write_ext.rs WriteBinProtExt")],
  ["bin_prot::to_writer", "bin_prot::WriteBinProtExt"])
P("C05", "Decoding untrusted bytes always ends with a value or an error",
  "Whatever bytes are given for whatever supported type, decoding terminates with a value or an error: it never panics, never overflows, and never reserves memory that the bytes present do not pay for, whatever lengths they claim.",
  ["inputs"], "every byte sequence up to the stated length for every instantiated type; length prefixes of every size",
  "tests feed well-formed data; a node decodes bytes from the network",
  [BP + "de.rs", BP + "read_ext.rs"],
  [("bounded reads", BP + "read_ext.rs bin_read_bytes, bin_read_string"), ("size hints capped by serde", BP + "de.rs deserialize_seq")],
  ["bin_prot::from_reader", "bin_prot::from_reader_strict", "bin_prot::ReadBinProtExt"])
P("C06", "Strict decoding succeeds exactly when all input is used",
  "Strict decoding returns a value if and only if the input is exactly one well-formed encoding. When a value is followed by further bytes it fails with an error saying that bytes were left (and how many, when all of the input was at hand), however the input is delivered by the reader and wherever its chunks end.",
  ["inputs", "schedules"], "every byte sequence up to the stated length; every chunking of the input; values ending at any offset around the internal buffer's end",
  "one test appends bytes to a short in-memory slice",
  [BP + "de.rs"],
  [("end of stream check", BP + "de.rs from_reader_strict")],
  ["bin_prot::from_reader_strict"])
P("C07", "An encoding is self-delimiting: no prefix decodes, no suffix matters",
  "No proper prefix of the encoding of a value decodes as a value of its type, and bytes that follow an encoding never change the value decoded by the plain reader. A truncated message is therefore always noticed and a stream of messages has one reading only.",
  ["inputs"], "every value within the stated sizes, every cut, every continuation of one or two bytes",
  "tests never truncate",
  [BP + "de.rs", BP + "read_ext.rs"],
  [("exact reads", BP + "read_ext.rs"), ("element counting", BP + "de.rs SeqAccess")],
  ["bin_prot::from_reader", "bin_prot::from_reader_strict"])
P("C08", "Decoding accepts exactly the format's language and the value it denotes",
  "Decoding a type accepts a byte sequence exactly when it begins with a well-formed encoding of a value of that type, and returns that value. Invalid booleans, option tags, unit bytes, integer codes, variant indices, polymorphic tags, numbers out of range, invalid UTF-8 and truncated data are errors, never some other value.",
  ["inputs"], "every byte sequence up to the stated length, for every instantiated type",
  "tests check a handful of malformed inputs",
  [BP + "de.rs", BP + "read_ext.rs"],
  [("validation in the primitive readers", BP + "read_ext.rs"), ("variant selection", BP + "de.rs Enum, deserialize_enum")],
  ["bin_prot::from_reader", "bin_prot::ReadBinProtExt"])
P("C09", "Polymorphic variants carry OCaml's tag and map back to the same variant",
  "A polymorphic variant is written as the little-endian 32 bit word (hash << 1) | 1, where hash is OCaml's hash of the variant's name reduced to 31 bits, followed by its payload. Reading selects the variant whose name has that hash and fails for every other word; a variant is never confused with another, whatever the names' characters and order.",
  ["inputs"], "every name within the stated length; every 32 bit tag; every payload value",
  "tests hash a few names and read one enum",
  [BP + "polyvar/caml_hash_variant.rs", BP + "ser.rs", BP + "de.rs", BP + "read_ext.rs", BP + "write_ext.rs", "protocol/serialization-types-macros/src/"],
  [("name hash", BP + "polyvar/caml_hash_variant.rs"), ("tag framing", BP + "write_ext.rs bin_write_polyvar_tag, " + BP + "read_ext.rs bin_read_polyvar_tag"), ("tag to index", BP + "de.rs EnumAccess")],
  ["bin_prot::to_writer", "bin_prot::from_reader", "bin_prot::polyvar::caml_hash_variant"])
P("C10", "Layout-directed decoding reads the layout and re-encodes the same bytes",
  "Decoding bytes with the layout of a type yields the same fields, variants and numbers as decoding them with the type itself, for records, tuples, sums, polymorphic variants, options, lists, integers, strings, floats, references and the known custom types. "
  "Encoding a decoded value yields bytes that decode to the same value, and exactly the original bytes when these were in canonical form.",
  ["inputs"], "every byte sequence up to the stated length, for layouts using every supported rule, nested",
  "the tests read one recorded block with one layout",
  [BP + "loose_deserializer.rs", BP + "de.rs", BP + "value/visitor.rs", BP + "value/ser.rs", BP + "value/enum_data.rs"],
  [("rule interpretation", BP + "loose_deserializer.rs deserialize_any"), ("value construction", BP + "value/visitor.rs"), ("value encoding", BP + "value/ser.rs")],
  ["bin_prot::Deserializer::with_layout", "bin_prot::Value", "bin_prot::to_writer"])
P("C11", "Layout-directed decoding of untrusted bytes ends with a value or an error",
  "Whatever bytes are decoded with whatever layout, decoding terminates with a value or an error: unknown sum indices, unknown polymorphic tags, invalid tags, truncated data and enormous claimed lengths are errors, never a panic and never memory that the bytes do not pay for. A custom type that is not known, a rule the crate cannot decode and a sum whose index does not fit are errors too, wherever they stand in the layout, once decoding reaches them.",
  ["inputs"], "every byte sequence up to the stated length for layouts using every supported rule; list lengths of every size",
  "the tests decode valid recordings",
  [BP + "loose_deserializer.rs", BP + "value/visitor.rs", BP + "de.rs"],
  [("rule stack", BP + "loose_deserializer.rs"), ("variant lookup", BP + "loose_deserializer.rs Sum, Polyvar")],
  ["bin_prot::Deserializer::with_layout"])
P("C12", "Indexing a decoded value returns the named element or fails",
  "Indexing a decoded value by position or field name returns exactly the element at that position or under that name, looking through the payload of a sum, and fails for a position or name that is not there. It never returns another element.",
  ["inputs"], "every index and key, for lists, tuples, records and sums of the stated sizes",
  "tests index two paths of one recording",
  [BP + "value/index.rs", BP + "value/mod.rs"],
  [("index", BP + "value/index.rs index_into"), ("sum payload", BP + "value/mod.rs inner")],
  ["bin_prot::Value (Index)"])
P("C13", "Results do not depend on how the stream delivers or accepts bytes",
  "Encoding writes the same complete byte sequence and decoding returns the same result however few bytes each call of the underlying stream transfers and however often it is interrupted. A stream that fails, ends or accepts nothing makes the operation report an error: never a success with missing bytes or an invented value.",
  ["schedules", "fault_sequences"], "every schedule of partial reads and writes and interruptions within the stated bounds; a fault at any call",
  "tests use in-memory slices and vectors, which never transfer partially or fail",
  [BP + "write_ext.rs", BP + "read_ext.rs", BP + "de.rs", BP + "ser.rs"],
  [("complete writes", BP + "write_ext.rs write_all"), ("complete reads", BP + "read_ext.rs read_exact"), ("buffering", BP + "de.rs BufReader")],
  ["bin_prot::to_writer", "bin_prot::from_reader", "bin_prot::from_reader_strict"])
P("C15", "A versioned value is its version byte followed by the value, at each level",
  "A value wrapped in one or more version levels is written as each level's version number from the outside in, followed by the value's own encoding, and reads back to the same versions and value. Wrapping and unwrapping, by hand or through the macros that declare versioned and proxied types, keep the inner value and the declared version numbers unchanged.",
  ["inputs"], "every inner value of five types, 1 to 4 levels, versions from 0 to 65535; every input of up to 8 bytes on the way in",
  "tests check two literals",
  ["protocol/versioned/src/lib.rs", "protocol/versioned/src/macros.rs"],
  [("wrapper", "protocol/versioned/src/lib.rs Versioned"), ("declarations", "protocol/versioned/src/macros.rs")],
  ["versioned::Versioned", "versioned macros"])
P("C16", "Derived conversions between mirrored types keep every field and variant",
  "The derived conversion from one type to its mirror carries every field into the field of the same name (or position) and every variant into the variant of the same name, converting lists, options, boxes and version wrappers element by element. Converting there and back returns the original value.",
  ["inputs", "programs"], "every value of mirrored records, tuple structs and enums of the stated shapes, with 0 to 4 version levels",
  "tests convert one instance of each of a few shapes",
  ["protocol/serialization-types-macros/src/", "protocol/versioned/src/lib.rs"],
  [("derive", "protocol/serialization-types-macros/src/auto_from.rs")],
  ["mina_serialization_types_macros::AutoFrom"])

MK = "merkle/src/"
P("C17", "A merkle tree's root depends only on its leaves",
  "After any sequence of additions (one by one or in batches, with the root read or not in between), the tree's root is the one a tree built from scratch over the same leaves in the same order has, and its count and height are those of that tree: "
  "variable height trees have the least height with room for all leaves, fixed height trees keep theirs and merge missing subtrees as absent. The height each node is hashed with is its distance to the leaves.",
  ["histories", "inputs"], "every history of a few batches with the root read or not after each; variable and fixed height; mergers that treat absent subtrees differently",
  "tests add a fixed list and compare one root; caching makes the result depend on when the root was read, which only histories show",
  [MK + "tree_impl.rs", MK + "metadata.rs", MK + "tree.rs"],
  [("cached hashes and what invalidates them", MK + "tree_impl.rs add, add_batch, calculate_hash_if_needed"), ("node positions", MK + "metadata.rs")],
  ["mina_merkle::MinaMerkleTree", "mina_merkle::MerkleTree::root", "mina_merkle::MerkleTree::height", "mina_merkle::MerkleTree::count", "mina_merkle::MerkleTreeNodeMetadata"])
P("C18", "Merkle proofs verify for the leaves of a tree and for nothing else",
  "For every leaf of a tree get_proof yields a proof whose root hash is the tree's root and which verifies against it, and none for a place without a leaf. "
  "A proof that verifies against the root of a tree names a leaf of that tree at its place: altering item, index, a peer or the length makes verification fail, and no proof, however malformed, makes it panic.",
  ["inputs", "histories"], "every leaf of trees of several sizes and both kinds; every index, item and list of peers",
  "tests verify proofs the tree itself produced; forged ones are an adversary's choice",
  [MK + "proof.rs", MK + "tree_impl.rs"],
  [("verification", MK + "proof.rs root_hash, verify"), ("construction", MK + "tree_impl.rs get_proof")],
  ["mina_merkle::MerkleTree::get_proof", "mina_merkle::MerkleProof::verify", "mina_merkle::MerkleProof::root_hash"])
P("C19", "Ledger merkle paths become proofs of the same place and root",
  "A merkle path as nodes send it (one node per level, each holding either the left or the right sibling) becomes a proof whose index is the place the directions spell out and whose root hash is the fold of the siblings with the leaf, each level hashed under its own prefix (MinaMklTree000, 001, ...); "
  "missing siblings of a ledger tree stand for the root of an empty subtree of that height. A path that is empty, too long or has a node with no or two siblings is an error, not a panic.",
  ["inputs"], "every path of a few nodes with symbolic siblings; every uniform path of up to 69 nodes; prefixes and empty subtrees up to height 40",
  "tests convert one captured path",
  [MK + "path.rs", MK + "merger_poseidon.rs", MK + "prefixes.rs"],
  [("directions to index", MK + "path.rs to_proof"), ("prefix per height", MK + "prefixes.rs")],
  ["mina_merkle::MerklePath::to_proof", "mina_merkle::MinaPoseidonMerkleMerger"])
CO = "consensus/src/common.rs"
P("C20", "Chain selection follows the Samasika fork rules",
  "Offered candidate chains one after the other, the node keeps its chain unless the candidate is better. A fork is short range when both chains have the same epoch count and the same staking lock checkpoint, or one is exactly one epoch ahead, the other's epoch slot is past two thirds of the epoch and the former's staking lock checkpoint is the latter's next epoch lock checkpoint; this does not depend on the order of the chains. "
  "Short range: the greater blockchain length wins, then the greater digest of the last VRF output, then the greater state hash. "
  "Long range: a candidate with other than 11 sub window densities, or one above 7, is ignored; otherwise the greater relative minimum window density wins and ties are decided by length as above. "
  "So two nodes holding one chain each and offered the other's agree. An empty candidate is an error that changes nothing; no candidate, whatever its numbers, makes selection panic.",
  ["inputs", "histories"], "every pair of chains over symbolic lengths, epochs, slots, checkpoints, VRF outputs, hashes and densities; three candidates in sequence",
  "tests choose a handful of pairs; the rules are a case split over a dozen fields under an adversary's control",
  [CO, "base/src/consensus_state.rs", "base/src/protocol_state.rs"],
  [("fork choice", CO + " select_secure_chain, select_longer_chain"), ("range of a fork", CO + " is_short_range")],
  ["mina_consensus::common::ChainSelection"])
P("C21", "Relative minimum window density follows the specification",
  "relative_min_window_density(A, B) is A's minimum window density while both chains are within the grace period (slot 1440), and otherwise the lesser of that and the density of A's window projected to the later of the two slots: the sub windows that pass empty in between, counted from the one after A's current sub window, at most all 11, count as zero. "
  "It never exceeds A's minimum window density, and a density list too short for the projection is an error, not a panic. "
  "(The current code counts the empty sub windows and finds A's sub window by other formulas than the linked specification; its results are pinned as a known finding.)",
  ["inputs"], "every list of 11 densities and every minimum at many pairs of slots; slots around every boundary",
  "tests check two block pairs",
  [CO], [("projection", CO + " relative_min_window_density")], ["mina_consensus::common::ChainSelection::relative_min_window_density"])
P("C22", "A chain of blocks grows by one height at a time",
  "push accepts a block on an empty chain, or one whose height is exactly one more than the top's, and refuses any other with InvalidHeight leaving the chain as it was. "
  "top, consensus_state, length, global slot, epoch slot (slot modulo slots per epoch) and genesis block are those of the blocks pushed; on an empty chain they are absent. No height or slot makes any of them panic.",
  ["histories", "inputs"], "four blocks of any height; every slot and every number of slots per epoch below 65536",
  "tests push four consecutive blocks",
  [CO], [("height rule", CO + " push"), ("epoch slot", CO + " epoch_slot")], ["mina_consensus::common::ProtocolStateChain"])

BA = "base/src/"
P("C23", "Random oracle inputs are packed as the protocol prescribes",
  "A chunked random oracle input is a list of field elements and a list of (value, width) items. Its field elements come first, unchanged and in order; the items follow, packed greedily into elements of at most 254 bits with the first item in the most significant place; "
  "appending two inputs appends their items; a bit is one item of width 1, bytes are their bits least significant first, u32 and u64 one item of 32 and 64 bits. A bit string becomes the number whose least significant bit is its first; one longer than 255 bits is an error.",
  ["inputs"], "every short sequence of items of every kind with symbolic contents; sequences crossing the 254 bit boundary at every offset",
  "tests hash a few captured states, in which few of the boundaries occur",
  ["proof-systems-shim/src/roinput.rs"], [("packing", "proof-systems-shim/src/roinput.rs into_fields"), ("bits", "proof-systems-shim/src/roinput.rs bits_to_fp")],
  ["proof_systems::ChunkedROInput"])
P("C24", "Hashes cover every field in protocol order",
  "The input hashed for a protocol state, its body, blockchain and consensus state, epoch data, constants, registers and local state, account, permissions, timing, token permissions, token symbol, hashes and numbers is exactly the sequence of their fields in protocol order, each in its prescribed width, in the legacy (fields and bits) and the chunked form; "
  "so a change of any field changes what is hashed. An account without timing is hashed as one that is timed with zeros and period 1, one without delegate with the empty key; the six authorisation levels have the six prescribed three bit codes; VRF outputs contribute 253 bits. "
  "State hash = hash of (previous state hash, body hash) with the domain strings CodaProtoState and CodaProtoStateBody; accounts use CodaAccount. Header accessors answer with the state's own values.",
  ["inputs"], "every value of every field",
  "tests compare the hash of a few captured blocks and accounts; a field that is constant in them may be dropped or moved unnoticed",
  [BA + "protocol_state.rs", BA + "consensus_state.rs", BA + "blockchain_state.rs", BA + "epoch_data.rs", BA + "account/mod.rs", "crypto/src/hash/types.rs"],
  [("state", BA + "protocol_state.rs to_roinput, to_chunked_roinput"), ("account", BA + "account/mod.rs to_chunked_roinput"), ("permissions", BA + "account/permissions.rs")],
  ["mina_rs_base::protocol_state::ProtocolState::state_hash", "mina_rs_base::account::Account", "proof_systems::ToChunkedROInput"])
P("C25", "A signature covers the whole command and only that command",
  "What is signed for a payment or delegation is fee payer, source and receiver, fee, fee token, nonce, expiry, memo, kind, token and amount in protocol order, for the network's domain; two commands with memos of 34 bytes that differ anywhere have different inputs. "
  "A command verifies if and only if its memo has 34 bytes, its signer is a point of the curve and the signature verifies for that signer and that payload; a staged ledger diff, and a block, verify if and only if every command in both halves does; verification never panics. "
  "Signing keeps the payload and names the key's owner as signer. The builder sets exactly what it is told; the rest defaults to token 1, the sender paying, no expiry and the memo of an empty text.",
  ["inputs"], "every value of every field of both kinds; every subset of valid commands in small diffs",
  "tests sign four payments and verify captured blocks; malleability needs all pairs of commands",
  [BA + "user_commands/signed_command/mod.rs", BA + "user_commands/signed_command/builder.rs", BA + "user_commands/memo.rs", BA + "staged_ledger_diff.rs"],
  [("signing input", BA + "user_commands/signed_command/mod.rs to_roinput"), ("verification", BA + "staged_ledger_diff.rs verify")],
  ["mina_rs_base::user_commands::SignedCommand", "mina_rs_base::verifiable::Verifiable"])
P("C26", "Texts of amounts, memos and field elements mean exactly one value",
  "An amount reads back from its text as itself; its text is the whole part, a dot and exactly nine digits (in JSON: without trailing zeros or a trailing dot). A text is read as an amount exactly when it is a number, optionally followed by a dot and at most nine digits, whose value fits 64 bits: the value read is that value, everything else is an error. "
  "Numbers in JSON are decimal strings, read exactly or refused. The memo of a text of at most 32 bytes holds tag, length and that text padded with zeros and gives it back; longer texts are refused; any bytes have some text. "
  "Hexadecimal field elements, with or without 0x, are exactly 32 bytes, lists of them whole ones, else an error; decimal ones are below the modulus, else an error. A character is exactly one character. None of these panics on any text.",
  ["inputs"], "every text and value within the stated lengths",
  "tests convert a handful of well formed texts; rounding, overflow and malformed text are not sampled",
  [BA + "numbers.rs", BA + "user_commands/memo.rs", "protocol/serialization-types/src/common.rs", "protocol/serialization-types/src/field_and_curve_elements.rs", "proof-systems-shim/src/fp.rs", "crypto/src/hex/mod.rs"],
  [("amounts", BA + "numbers.rs Amount::from_str, fmt"), ("amounts in JSON", "protocol/serialization-types/src/common.rs DecimalJson"), ("memo", BA + "user_commands/memo.rs"), ("hex", "protocol/serialization-types/src/field_and_curve_elements.rs FieldElementJson")],
  ["mina_rs_base::numbers::Amount", "mina_rs_base::user_commands::memo::SignedCommandMemo", "mina_serialization_types::json", "proof_systems::fp_from_radix_10"])

P("C27", "GraphQL answers are read field by field, or refused",
  "A protocol state, its blockchain and consensus state, epoch data, account, permissions and timing read from a GraphQL answer hold in every field exactly the value found under that field's own key: numbers, booleans, hashes and public keys decoded from their texts, permission levels by name; no two fields are mixed up. "
  "An answer in which a required key is missing, null, of another type or malformed is an error, never a default value and never a panic; a missing delegate is no delegate, missing timing is untimed, a missing flag is false.",
  ["inputs"], "one answer of every kind with any values in the stated ranges",
  "tests read one recorded answer whose values repeat, so mixed up or ignored keys go unseen",
  [BA + "from_graphql_json.rs", BA + "account/mod.rs", BA + "account/permissions.rs", BA + "account/timing.rs", BA + "protocol_state.rs", BA + "consensus_state.rs", BA + "blockchain_state.rs", BA + "epoch_data.rs", "crypto/src/hash/types.rs"],
  [("account", BA + "account/mod.rs Account::from_graphql_json"), ("state", BA + "protocol_state.rs ProtocolState::from_graphql_json"), ("consensus", BA + "consensus_state.rs"), ("hashes", "crypto/src/hash/types.rs impl_from_json_value_for_hash")],
  ["mina_rs_base::from_graphql_json::FromGraphQLJson"])

SE = "protocol/serialization-types/src/"
P("C28", "Blocks keep the protocol's bytes and lose nothing through the domain types",
  "For a block and each of its parts (protocol, blockchain and consensus state, constants, protocol state proof, staged ledger diff, user commands and their status, coinbase and internal command balances, snark work and its statement, delta transition chain proof, protocol versions): converting the domain value to its wire type and encoding it gives exactly the bytes of the protocol "
  "(fields in protocol order, the version byte at every versioned level, the tag of each variant); decoding these bytes strictly and converting back gives the same domain value.",
  ["inputs"], "one value of every kind of block part, with any numbers of 7, 14, 30 and 62 bits, any hashes, keys, signatures, booleans, and every variant, with and without optional parts, lists of 0..2",
  "tests re-encode a few recorded blocks, in which whole variants never occur and two fields often hold the same value",
  [SE + "external_transition.rs", SE + "epoch_data.rs", SE + "protocol_state.rs", SE + "protocol_state_proof.rs", SE + "staged_ledger_diff.rs", SE + "snark_work.rs", SE + "consensus_state.rs", BA + "serialization_type_conversions", BA + "external_transition.rs"],
  [("wire types", SE + "*.rs …V1 types"), ("conversions", BA + "serialization_type_conversions and AutoFrom derives"), ("codec", "protocol/bin-prot/src/{ser,de}.rs")],
  ["mina_rs_base::types::*", "bin_prot::to_writer", "bin_prot::from_reader_strict"])
P("C29", "JSON texts of blocks follow Mina's form and lose nothing either way",
  "For a block and each of its parts: its JSON form has exactly the keys, tags and texts of Mina (numbers as decimal strings, amounts with nine decimals, hashes, keys, memos and signatures in base58check under their own version byte, field elements in hex, variants as arrays led by their tag name, the VRF output and the block's proof in URL-safe base64), "
  "and reading that JSON gives the same domain value back. A JSON value in which any one node is replaced by something else is read as a value or refused with an error, never with a panic.",
  ["inputs"], "one value of every kind of block part as for the wire form; for refusals, any one node of it replaced by any of ten other values",
  "tests compare one recorded block with itself; JSON read from other nodes is untrusted",
  [SE + "common.rs", SE + "macros.rs", SE + "staged_ledger_diff.rs", SE + "protocol_state_proof.rs", SE + "snark_work.rs", SE + "consensus_state.rs", SE + "epoch_data.rs", "protocol/serialization-types-macros/src/lib.rs"],
  [("enums", SE + "macros.rs impl_mina_enum_json_serde"), ("numbers", SE + "common.rs U64Json, U32Json, DecimalJson"), ("base58", SE + "common.rs Base58EncodableVersionedType"), ("conversions", "protocol/serialization-types-macros/src/lib.rs AutoFrom")],
  ["serde_json::to_value", "serde_json::from_value", "mina_rs_base::types::*"])

P("C30", "A wallet opens with its password only, and survives being written back",
  "Reading a wallet file and writing it back gives the same primitives, nonce, salt, costs and ciphertext. Opening it with the password it was sealed with gives the sealed private key (its bytes without the leading version byte, little endian; as a keypair, the key with that scalar); "
  "opening it with another password, or after any change of nonce, salt, costs or ciphertext, is an error. Unknown primitives, malformed base58 (version byte 2), malformed JSON, costs outside what argon2 takes, nonces, ciphertexts and keys of impossible length are errors: never a panic, never other costs than the file states.",
  ["inputs"], "wallets with any salt, nonce and key bytes, salts of 0..100 bytes, nonces of 0..40, sealed texts of 0..65, any cost at the limits, any single change",
  "tests open one recorded wallet with one right and one wrong password; a wallet file is untrusted input and a silently altered cost or salt loses the key",
  ["secrets/src/secret_box/types_impls.rs", "secrets/src/secret_box/utils.rs", "secrets/src/secret_box/constants.rs", "secrets/src/secret_box/types.rs", "secrets/src/secret_box/errors.rs"],
  [("reading", "secrets/src/secret_box/types_impls.rs TryFrom<SecretBoxJson>"), ("writing", "types_impls.rs TryFrom<SecretBox> for SecretBoxJson"), ("opening", "types_impls.rs get_private_key_bytes, get_keypair")],
  ["mina_secrets::secret_box::SecretBox"])

P("C31", "A genesis ledger is read account by account from its database, in order",
  "The accounts of a ledger database are exactly the records whose key begins with the account prefix, in key order, each decoded field by field from the protocol's account bytes (mainnet: key, token, token permissions, balance, nonce, receipt chain hash, delegate, voted-for state, timing, permissions, with the version bytes of each; Berkeley likewise without); "
  "encoding a decoded mainnet account gives its bytes again. A record that does not decode, or a database error, is an error in its place, and never ends the ledger early. The ledger's tree has height 20 and the accounts' hashes as its leaves in order, the rest being empty accounts.",
  ["inputs", "fault_sequences"], "accounts of any contents; databases of 0..4 accounts with other records around, any one unreadable; trees of 0..5 accounts",
  "tests read two recorded databases, whose root hash is not compared for mainnet and in which all accounts are readable",
  ["ledger/src/rocksdb_genesis_ledger.rs", "ledger/src/genesis_ledger.rs", SE + "account.rs", BA + "account/mod.rs", BA + "account/timing.rs", BA + "account/permissions.rs", BA + "account/token_permissions.rs"],
  [("iteration", "ledger/src/rocksdb_genesis_ledger.rs into_iter, decode_account_from_kv"), ("account bytes", SE + "account.rs"), ("conversion", BA + "account/mod.rs AutoFrom"), ("tree", "ledger/src/genesis_ledger.rs to_mina_merkle_ledger")],
  ["mina_ledger::GenesisLedger", "mina_ledger::RocksDbGenesisLedger"])

P("C32", "The frontier keeps the best block it was given, and the ledger that came with it",
  "The mainnet frontier refuses, with an error and no change, exactly the blocks with a command that is not signed for mainnet by its signer. The first block let in becomes the best chain whatever length it states; after it, a block replaces the best one exactly when chain selection prefers it (within an epoch: longer, then larger lottery output, then larger state hash), and a block that cannot be compared is an error that changes nothing. "
  "The Berkeley frontier does the same and keeps exactly the ledger proofs that came with its best block. A GraphQL answer becomes the state under bestChain and one proof for each key that is an account address, with that account's leaf and path; other keys are passed over, and a damaged state or account is an error.",
  ["inputs", "histories"], "sequences of up to three blocks of any length with up to four commands; answers with two entries",
  "tests read one recorded answer; add_block is not tested at all",
  ["network/src/processor/naive_transition_frontier.rs", "consensus/src/common.rs", BA + "external_transition.rs", BA + "staged_ledger_diff.rs"],
  [("mainnet", "network/src/processor/naive_transition_frontier.rs add_block (ProtocolStateLegacy)"), ("berkeley", "network/src/processor/naive_transition_frontier.rs add_block (ProtocolState)"), ("answers", "network/src/processor/naive_transition_frontier.rs TryFrom<&serde_json::Value>")],
  ["mina_network::processor::NaiveTransitionFrontier", "mina_network::processor::ProtocolStateWithSparseMerkleLedger"])
P("C33", "The message processor hands on every block and request once, in order",
  "Whatever the order in which the parts of the node make progress, every block a networking backend sends reaches the transition frontier exactly once, in the order sent and with its content, unless it does not convert; every request the frontier makes reaches the backend exactly once, in order and with its content; "
  "blocks that do not convert or are refused, and requests that fail, stop nothing after them; blocks are added one at a time and requests answered one at a time, also while others read the frontier or change the backend; and the processor ends once both sides have hung up, without waiting for ever before that.",
  ["schedules", "inputs"], "two to four blocks, one or two senders, up to two requests per block, any first 4 to 8 steps",
  "no test runs the processor natively; its tests need a browser and the network",
  ["network/src/processor/processor_impl.rs", "network/src/processor/mod.rs"],
  [("construction", "network/src/processor/processor_impl.rs new"), ("blocks", "network/src/processor/processor_impl.rs run_recv_block_loop"), ("requests", "network/src/processor/processor_impl.rs run_query_block_loop")],
  ["mina_network::processor::NetworkMessageProcessor"])

P("C34", "A layout file is read into exactly the rules it names, or refused",
  "A layout's rule is a JSON list of a rule name and its parts. Each of the eleven plain names stands for its own rule and takes no part; each other name takes one or two parts of its own kind (a rule, a list of rules, fields, variants, polymorphic variants, a reference, a table, a name, a length, type bindings), and these become the parts of that rule, in order. "
  "Field names, variant names and indices, polymorphic variants' names and tags, lengths and type variables are those written. Any other name, number of parts or kind of part is an error wherever in the layout it stands, never a panic and never another rule; a file without its rule or another of its keys, except the version, is an error.",
  ["inputs"], "names of 3..10 characters, every known name with parts of every kind, nesting up to two deep",
  "tests read a handful of recorded layouts, all well formed",
  ["protocol/bin-prot/src/value/layout/mod.rs", "protocol/bin-prot/src/value/layout/list_tagged_enum.rs", "protocol/bin-prot/src/loose_deserializer.rs"],
  [("names", "protocol/bin-prot/src/value/layout/mod.rs TryFrom<ListTaggedEnum>"), ("file", "protocol/bin-prot/src/value/layout/mod.rs Layout")],
  ["bin_prot::Layout", "bin_prot::BinProtRule"])
P("C35", "The GraphQL back ends ask what they were told to and hand on every answer",
  "Polling the explorer asks once for its latest ten blocks and then for each listed block by its height and hash, in order; each block that comes and can be read is handed on once, in order, and one that does not come stops nothing after it; a list that does not come or is not one of heights and hashes is an error and nothing more is asked. "
  "A requested block is asked for by exactly the height and hash of the request. The Berkeley back end asks every configured endpoint at most once per round, always with exactly the configured accounts, and none configured earlier. Every answer that can be read is handed on unchanged; that round, and a request to either, succeeds exactly when all that was to be asked was asked, answered and handed on. Without anyone to hand blocks to, nothing is asked.",
  ["inputs", "fault_sequences"], "up to three blocks or endpoints, each answering in one of four ways",
  "its tests need a browser and live endpoints, and are disabled",
  ["network/src/processor/js/graphql_api_v1.rs", "network/src/processor/js/graphql_api_berkeley.rs"],
  [("explorer", "network/src/processor/js/graphql_api_v1.rs poll_latest_once, query_block"), ("node", "network/src/processor/js/graphql_api_berkeley.rs poll_latest_once, query_block")],
  ["NonConsensusGraphQLV1Backend", "NonConsensusGraphQLBerkeleyBackend"])
P("C36", "The layout reader shows the value in its input, or fails",
  "Given a layout file and a data file, the layout reader takes the data as hexadecimal text when it is that and as raw bytes otherwise, decodes one value with the layout, and prints it on standard output, or into the output file when one is named and then nothing on standard output. "
  "With the round trip asked for it ends well exactly when the value encodes to all of the bytes again. When a file is missing or cannot be written, the layout cannot be read, the bytes do not decode or the round trip differs, it fails, and has neither printed anything nor created the output file.",
  ["inputs", "configurations"], "data of up to 5 characters or 3 raw bytes, every combination of the options",
  "the program has no test",
  ["apps/bin-prot-layout-reader/src/main.rs"],
  [("program", "apps/bin-prot-layout-reader/src/main.rs main")],
  ["bin-prot-layout-reader LAYOUT BINARY --roundtrip --output"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        import props_more  # noqa: F401
    except ImportError:
        pass
    with open(f"{here}/properties.jsonl", "w") as f:
        for o in sorted(OUT, key=lambda o: o["id"]):
            f.write(json.dumps(o) + "\n")
