"""Which harnesses decide which property, within which bounds."""

BASE = ["protocol", "base", "crypto", "proof-systems-shim"]
BASE_PKGS = ["bin-prot", "versioned", "mina-serialization-types-macros", "mina-serialization-types", "mina-crypto", "mina-rs-base", "proof-systems"]
STUBS = ("ark-ff, ark-ec, mina-curves, mina-hasher, mina-signer, o1-utils, blake2, bs58, base64, sha2, time, bitvec, strum, smart-default, once_cell are stand-ins "
         "(harness/stub) because the real crates are not available offline; the repository's own sources are compiled unchanged against them")
CRATES = {
    "binprot": dict(repo=["protocol/bin-prot"], pkgs=["bin-prot"]),
    "versioned": dict(repo=["protocol/bin-prot", "protocol/versioned", "protocol/serialization-types-macros"],
                      pkgs=["bin-prot", "versioned", "mina-serialization-types-macros"]),
    "merkle": dict(repo=["merkle", "proof-systems-shim"], pkgs=["mina-merkle", "proof-systems"]),
    "consensus": dict(repo=BASE + ["consensus"], pkgs=BASE_PKGS + ["mina-consensus"]),
    "base": dict(repo=BASE, pkgs=BASE_PKGS),
    "ledger": dict(repo=BASE + ["merkle", "ledger"], pkgs=BASE_PKGS + ["mina-merkle", "mina-ledger"]),
    "network": dict(repo=BASE + ["consensus", "merkle", "network"], pkgs=BASE_PKGS + ["mina-consensus", "mina-merkle", "mina-network"]),
    "js": dict(repo=BASE + ["consensus", "merkle", "network"], pkgs=BASE_PKGS + ["mina-consensus", "mina-merkle", "mina-network-js"]),
    "reader": dict(repo=["protocol/bin-prot", "apps/bin-prot-layout-reader"], pkgs=["bin-prot"]),
    "secrets": dict(repo=["secrets", "proof-systems-shim"], pkgs=["mina-secrets", "proof-systems"]),
}

INTS = ["i8_", "i16_", "i32_", "i64_", "u8_", "u16_", "u32_", "u64_"]
SCALARS = ["bool_", "unit_", "char_", "f32_", "f64_", "string_"]
CONTAINERS = ["opt_", "vec_", "vecopt_", "vecint_", "vecvec_", "optvec_", "arr_", "arrb_", "tuple_", "vectup_", "vecunit_", "optbox_", "optstr_"]
NAMED = ["e3_", "rec_", "tup_", "new_", "ustruct_", "v_", "p_", "vecp_", "outer_", "text_", "big_"]
WIDE = ["w_", "wrec_", "wtup_", "one_", "q_", "r_", "tup1_", "tup8_", "arr1_", "arr9_", "arrarr_", "opt4_", "vecbig_", "nest_", "vecrec_"]
ALL = INTS + SCALARS + CONTAINERS + NAMED + WIDE + ["empty_", "twostr_"]
COVER = dict(wire=[1], round=[1], accept=[1, 2], strict=[1, 2, 3], prefix=[1, 2], total=[1, 2, 3, 4], drip=[1, 2], emit=[1, 2])
SLOW = {"h_proc_blocks": 20, "h_proc_requests": 55, "h_proc_two": 50, "h_proc_readers": 20, "h_berk_short": 60, "h_berk_long": 68, "h_main_verify": 30, "h_main_long": 14, "h_ledger_json": 24, "h_account_legacy": 30, "h_box_open": 50, "h_amount_print": 24, "h_amount_print_large": 75, "h_decimal_print": 20, "h_decimal_print_large": 82, "h_numbers_print": 30, "h_numbers_print_large": 60, "h_amount_parse": 19, "h_amount_fraction": 17, "h_memo_any": 20, "agree.18": 30, "vecvec_.drip": 13, "vecp_.drip": 18, "outer_.drip": 13, "twostr_.drip": 19, "text_.total": 60, "twostr_.prefix": 20, "twostr_.round": 20, "vecp_.prefix": 18, "vecvec_.prefix": 17, "outer_.prefix": 15, "text_.accept": 8, "text_.strict": 8,
        "string_.total": 8, "h_straddle": 5, "h_hash_short": 11, "h_hash_long": 11, "h_density": 85, "h_var_one": 7, "h_sound6": 9, "h_metadata": 9, "h_roi_body": 31, "h_roi_staged": 17, "h_pack": 11, "h_pack_long": 9}


def H(crate, *names, cover=(1,), **kw):
    return [dict(crate=crate, h=n, cover=list(cover), cost=SLOW.get(n, 1), **kw) for n in names]


def T(prop, types):
    out = []
    for t in types:
        c = list(COVER[prop])
        if t == "empty_":
            c = {"accept": [1], "strict": [1, 2], "prefix": [2], "total": [1, 3, 4], "drip": [1, 2], "emit": [1]}.get(prop, c)
        out += H("binprot", f"{t}.{prop}", cover=c)
    return out


def L(prop, ks, cover):
    return H("binprot", *[f"{prop}.{k}" for k in ks], cover=cover)


B = "binprot"
TYPED_BOUNDS = ("integers, floats, bools, chars: every value of every width; strings up to 4 bytes, lists up to 3 elements per level, nesting up to 3; "
                "54 instantiations covering every supported serde construct (scalars, option, string, list, array, tuple, record, tuple struct, newtype, unit struct, "
                "records and tuples of up to 12 fields, enum with unit/newtype/tuple/struct variants of up to 6 fields and 256 variants, recursive enum depth 2, polymorphic variant, Box)")
INPUT_BOUNDS = "every input of 0 up to 3..11 bytes (per type: long enough for every alternative and at least one trailing byte)"
LONG = "lists, strings and unit lists of 0..256 elements around every prefix boundary (quick) and 257..65536 (thorough), contents symbolic"

PROPS = {
    "C01": dict(
        quick=H(B, "h_int_write", "h_prim_ext") + H(B, "h_int_read", cover=(1, 2)) + H(B, "h_with_int_write") + H(B, "h_with_int_read", cover=())
        + T("wire", INTS) + T("round", INTS) + T("accept", INTS),
        fns=["bin_prot"],
        bounds="write: every value of i8..i64, u8..u64; read: every input of 0..10 bytes into every destination width (i8..i64, isize, u8..u64, usize)"),
    "C02": dict(
        quick=H(B, "h_nat_write", "h_list_len") + H(B, "h_nat_read", cover=(1, 2)) + H(B, "h_with_nat_write") + H(B, "h_with_nat_read", cover=())
        + H(B, "h_vec_small", "h_str_small", "h_unit_small") + H(B, "h_read_bytes", cover=(1, 2)) + H(B, "h_bomb_string", "h_bomb_bytes", "h_bomb_vec"),
        thorough=H(B, "h_vec_large", "h_str_large", "h_unit_large"),
        bounds="write: every value of u8..u64, and of the length a list states; read: every input of 0..10 bytes into every width; as length prefix: " + LONG),
    "C03": dict(quick=T("round", ALL) + H(B, "h_vec_small", "h_str_small", "h_unit_small", "h_straddle", "h_mixed_names"),
                thorough=H(B, "h_vec_large", "h_str_large", "h_unit_large"),
                bounds=TYPED_BOUNDS + "; " + LONG + "; a record lying across the reader's 8 KiB buffer at every offset"),
    "C04": dict(quick=T("wire", ALL) + H(B, "h_prim_ext", "h_tag_bits", "h_with_int_write", "h_with_nat_write", "h_vec_small", "h_str_small", "h_unit_small")
                + H(B, "h_char_any", cover=(1, 2)),
                thorough=H(B, "h_vec_large", "h_str_large", "h_unit_large"), bounds=TYPED_BOUNDS + "; " + LONG),
    "C05": dict(quick=T("total", ALL) + H(B, "h_bomb_string", "h_bomb_bytes", "h_bomb_vec") + H(B, "h_read_bytes", cover=(1, 2)) + H(B, "h_map_total", cover=()),
                bounds=INPUT_BOUNDS + "; length prefixes of every size in all three wide forms before 3..9 further bytes; a single allocation above 1 MiB counts as unbounded"),
    "C06": dict(quick=T("strict", ALL) + H(B, "h_strict_boundary", cover=(1, 2)) + H(B, "h_strict_rec", "h_strict_vec", "h_strict_string", "h_strict_i64", cover=(1, 2)),
                bounds=INPUT_BOUNDS + "; values ending 2 bytes before to 1 byte after the 8 KiB buffer boundary; readers delivering 1..3 bytes per call with up to one interruption"),
    "C07": dict(quick=T("prefix", ALL), bounds=TYPED_BOUNDS + "; every proper prefix; every extension by 1 or 2 bytes"),
    "C08": dict(quick=T("accept", ALL) + H(B, "h_int_read", "h_nat_read", "h_read_bytes", "h_unknown_tag", cover=(1, 2)), bounds=INPUT_BOUNDS),
    "C09": dict(quick=H(B, "h_hash_short", "h_mixed_names", "h_tag_bits") + H(B, "h_unknown_tag", cover=(1, 2)) + H(B, "h_hash_long", cover=()) + H(B, "h_hash_long_wire", variant="wrap")
                + T("wire", ["p_", "vecp_", "q_", "r_"]) + T("round", ["p_", "vecp_", "q_", "r_"]) + T("accept", ["p_", "vecp_", "q_", "r_"]) + L("agree", [3, 11], (1, 2)) + L("rewrite", [3, 11], (1,)),
                bounds="hash: every ASCII label of up to 4 characters; tags: every 31 bit number, every 4 byte input; five enums with names of 0..4 characters, ASCII or not, look-alike and unsorted, every payload shape"),
    "C10": dict(quick=L("agree", range(25), (1, 2)) + L("rewrite", range(25), (1,)) + H(B, "h_custom_vector", "h_custom_bigint", "h_hybrid", cover=(1, 2))
                + H(B, "h_custom_unknown", "h_nat0_rule") + H(B, *[f"h_versus_{k}" for k in (0, 1, 2, 3, 4, 6, 7, 8, 12, 14)], cover=(1, 2)),
                bounds="27 layouts covering every rule the deserializer supports (nested up to 8 deep, records and tuples of up to 12 fields, sums of up to 12 variants, all 16 custom paths), every input of 0..5..16 bytes (31..34 for field elements)"),
    "C11": dict(quick=L("total", range(25), (1, 2)) + L("agree", range(25), (1, 2)) + H(B, "h_loose_bomb", "h_custom_unknown", "h_nat0_rule") + H(B, "h_unsupported", "h_custom_vector", "h_custom_bigint", cover=(1, 2)),
                bounds="the same layouts, every input of 0..7..11 bytes; length prefixes of every size in all three wide forms"),
    "C12": dict(quick=H(B, "h_index_num", "h_index_name", cover=(1, 2)) + H(B, "h_index_other"),
                bounds="lists, tuples, records of up to 3 elements with symbolic contents, alone and inside a sum; every 64 bit index; every ASCII key of up to 2 characters"),
    "C13": dict(quick=H(B, "h_read_i64", "h_read_rec", "h_read_string", "h_read_vec", "h_read_poly", "h_read_float")
                + H(B, "h_strict_rec", "h_strict_vec", "h_strict_string", "h_strict_i64", "h_fail_rec", "h_fail_string", "h_fail_vec", "h_fail_float", cover=(1, 2))
                + H(B, "h_sfail_rec", "h_sfail_string", "h_sfail_vec", "h_sfail_float", cover=(3, 4))
                + H(B, "h_write_i64", "h_write_f32", "h_write_f64", "h_write_rec", "h_write_string", "h_write_vec", "h_write_poly", "h_write_v")
                + H(B, "h_wfail_rec", "h_wfail_poly", "h_wfail_f64", "h_wfail_text", "h_wfail_v", cover=(1, 2)) + T("drip", ALL) + T("emit", ALL),
                bounds="every type of C03 transferred byte by byte, interrupted at or failing from every call; for 8 types every schedule in which each call transfers 1..4 bytes (reads) or 1..8 bytes (writes), with up to 2 interruptions, or a permanent error / zero write from any call on"),
    "C15": dict(quick=H("versioned", "h_ver_i64", "h_ver_opt", "h_ver_tuple", "h_ver_vec", "h_ver_unit", "h_mac_versioned", "h_mac_newtype", "h_mac_proxy", "h_mac_versioned_proxy", "h_mac_generic_proxy")
                + H("versioned", "h_ver_accept", cover=(1, 2)), fns=["versioned", "bin_prot"],
                bounds="1..4 levels of wrapping with 16 version numbers between 0 and 65535, five payload types with symbolic contents; decoding: every input of 0..8 bytes"),
    "C16": dict(quick=H("versioned", "h_auto_named", "h_auto_named2", "h_auto_reordered", "h_auto_unnamed", "h_auto_unnamed_mix", "h_auto_enum", "h_auto_enum_back", "h_auto_versioned",
                         "h_auto_versioned_enum", "h_auto_versioned_unnamed", "h_auto_paths"), fns=["versioned", "auto"],
                bounds="records and tuple structs of up to 9 fields, enums of 10 variants of every shape, Vec (0..3 elements), Option, Box and plain fields; 1..4 levels of Versioned; every field value"),
    "C17": dict(
        quick=H("merkle", "h_var_filled", "h_var_sparse", "h_var_one", "h_var_cap", "h_fix_filled", "h_fix_sparse", cover=(1, 2)) + H("merkle", "h_sizes", "h_metadata"),
        thorough=H("merkle", "h_var_long", "h_fix_long", cover=(1, 2)), fns=["merkle"], assumptions=[STUBS],
        bounds="every history of up to 3 batches (thorough: 4) of 0..4 items with the root read or not after each, five batches of 1..2 items, capacities 0..8, fixed heights 2..4 (thorough: 2..5), symbolic items, two merging rules; "
               "up to 33 leaves added at once; node metadata: every index below 2^24"),
    "C18": dict(
        quick=H("merkle", "h_proof_var", "h_proof_var_filled", "h_proof_fix", "h_proof_fix_sparse", "h_ragged") + H("merkle", "h_sound2", "h_sound3", "h_sound4", "h_sound6", cover=(1, 2)),
        fns=["merkle"], assumptions=[STUBS, "hashes are byte strings that spell out what was hashed: collision freedom of the hash is assumed, not shown"],
        bounds="proofs of every leaf of trees of 0..8 leaves and every altered root, item or index; soundness: trees of 2, 3, 4 and 6 leaves, every proof of 0..4 peers whose indices are any 64 bit numbers and whose hashes are none, a foreign leaf or any hash of the tree at that level, every index below 256 and three huge ones"),
    "C19": dict(
        quick=H("merkle", "h_path", "h_path_any", cover=(1, 2)) + H("merkle", "h_ledger_legacy", "h_ledger_kimchi", "h_prefix"), thorough=H("merkle", "h_path_deep", cover=(1, 2)),
        fns=["merkle"], assumptions=[STUBS],
        bounds="paths of 0..4 nodes (thorough: 6), each left, right, both or neither, symbolic hashes; uniform paths of 0..69 nodes; hash prefixes and empty subtrees of heights 0..40"),
    "C20": dict(
        quick=H("consensus", "h_longer", "h_short", "h_long", "h_long_dens", "h_adversary", "h_agree", "h_several", cover=(1, 2)) + H("consensus", "h_short_spe", "h_adversary_short", "h_empty"),
        fns=["mina_consensus", "mina_rs_base"], assumptions=[STUBS, "the VRF output digest is a stand-in that is injective on the outputs used"],
        bounds="two chains: every length, VRF output of 2 bytes, 64 bit state hash, epoch, slot and checkpoint (one byte of it) for the length and range rules; every density, minimum density and length at 42 pairs of slots for long forks; "
               "density lists of 0, 1, 10, 11, 12 entries with any one entry any number; three candidates in sequence"),
    "C21": dict(
        quick=H("consensus", "h_density", "h_density_grace", "h_density_any", cover=(1, 2)) + H("consensus", "h_density_slots", "h_density_high", "h_density_huge"),
        fns=["mina_consensus", "mina_rs_base"], assumptions=[STUBS],
        bounds="every list of 11 densities of 0..7 and every minimum at 49 pairs of slots; 311 slots (around the end of the grace period, one whole window, the top of the range) at 18 distances with weights that tell which sub windows were counted; lists of 0, 1, 10, 11, 12 entries; any two densities of any size at 4 pairs of slots"),
    "C22": dict(
        quick=H("consensus", "h_push", "h_epoch_slot", cover=(1, 2)) + H("consensus", "h_empty"), fns=["mina_consensus", "mina_rs_base"], assumptions=[STUBS],
        bounds="four blocks of any height pushed in sequence; every slot number with every number of slots per epoch below 65536, zero included; empty chains"),
    "C23": dict(
        quick=H("base", "h_pack", "h_pack_edge", "h_pack_long", "h_append") + H("base", "h_bits", cover=(1, 2)), fns=["roinput", "proof_systems"], assumptions=[STUBS],
        bounds="every sequence of up to 4 items (bit, u32, u64, field, two bytes, 48 bits, 254 bits) with symbolic contents; 7 or 8 items filling an element to 250..260 bits; up to 8 items of 32, 64, 48, 1, 254 bits; bit strings of 0..300 bits"),
    "C24": dict(
        quick=H("base", *["h_roi_" + n for n in "numbers signed hashes slot epoch_ledger epoch constants vrf staged consensus chain_legacy chain registers body_legacy body auth permissions timing token_permissions symbol account".split()], path_insts=200000000)
        + H("base", "h_state_hash_legacy", "h_state_hash", "h_header", "h_hash_any", path_insts=200000000), fns=["mina_rs_base", "mina_crypto", "proof_systems"],
        assumptions=[STUBS, "Poseidon is a stand-in mixing function: which input is hashed with which parameters and domain is decided, not the permutation"],
        bounds="every value of every field of every hashed type (hashes below 2^254; cliff time and vesting period below 2^32; ledger aux hashes of 0..4 bytes; VRF outputs of 0, 1, 30..33, 40 bytes; 0, 1, 2, 11 sub windows); one permission at a time takes every value; "
               "state hashes: previous hash and height symbolic"),
    "C25": dict(
        quick=H("base", "h_sign_input", "h_sign_domain", "h_sign_unique", "h_sign", "h_builder") + H("base", "h_verify", "h_verify_memo", "h_diff_verify", cover=(1, 2)),
        fns=["mina_rs_base", "signed_command"], assumptions=[STUBS, "the signature scheme is a stand-in: which payload, key and network it is applied to is decided, not the curve arithmetic"],
        bounds="every value of every field of payments and delegations with memos of 34 bytes; verification: every signer, signature, memo length 0..36; diffs of up to 3 + 2 commands, every subset of them valid"),
    "C26": dict(
        quick=H("base", "h_amount_parse", "h_amount_fraction", "h_amount_large", "h_decimal_parse", "h_decimal_fraction", "h_decimal_large", "h_numbers_parse", "h_memo_text", "h_memo_any", "h_memo_len",
                "h_prefix0x", "h_hex_element", "h_hex_vec_any", "h_fp_parse", "h_fp_large", "h_char_parse", cover=(1, 2))
        + H("base", "h_amount_print", "h_amount_print_large", "h_decimal_print", "h_decimal_print_large", "h_numbers_print", "h_numbers_print_large", "h_numbers_large", "h_hex_print", "h_hex_vec",
            "h_fp_print", "h_fp_print_large", "h_char_print"),
        fns=["mina_rs_base", "mina_serialization_types", "mina_crypto", "proof_systems"], assumptions=[STUBS],
        bounds="amounts: every ASCII text of 0..6 characters (JSON: 5), fractions of up to 13 characters with any character at any place and up to three further digits, 21 character texts around the largest amount; "
               "printing: 16 consecutive values at 14 places between 0 and 2^64-1 (every number of digits at every power of ten boundary used); memos: texts of 0..40 ASCII characters, any 0..5 bytes, stated lengths of any "
               "kind in 2..40 bytes; hexadecimal: texts of 0..140 characters with any bytes at any of seven places; decimal field elements: every ASCII text of 0..3 characters, the last digit around the modulus, 2^256 and 2^512; every character"),
    "C27": dict(
        quick=H("base", "h_gql_epoch", "h_gql_consensus", "h_gql_blockchain", "h_gql_state", "h_gql_permissions", "h_gql_timing", "h_gql_untimed", "h_gql_account",
                "h_gql_permissions_bad", "h_gql_account_bad", "h_gql_consensus_bad", "h_gql_blockchain_bad", "h_gql_epoch_bad", "h_gql_state_bad", "h_gql_timing_bad", cover=(1,)),
        fns=["mina_rs_base", "mina_serialization_types", "mina_crypto", "serde_json"], assumptions=[STUBS],
        bounds="one answer of every kind: each number two decimal digits, each hash and key with two any bytes (and any parity), every boolean, each of 11 permissions with any of 6 levels against two other levels, delegate given, null or absent, "
               "VRF output of 0, 16 or 32 bytes; refusals: any one required key absent, null, of another JSON type or malformed text, permission levels any ASCII text of 0..5 characters that is no level name"),
    "C28": dict(
        quick=H("base", "h_wire_consensus", "h_wire_blockchain", "h_wire_constants", "h_wire_state", "h_wire_command", "h_wire_status", "h_wire_with_status", "h_wire_coinbase", "h_wire_internal", "h_wire_proof", "h_wire_statement", "h_wire_work", "h_wire_chain_proof", "h_wire_diff", "h_wire_block", "h_wire_version", cover=(1,)),
        fns=["mina_rs_base", "mina_serialization_types", "bin_prot", "versioned"], assumptions=[STUBS],
        bounds="one value of each kind of part and whole blocks: any numbers of 7, 14, 30 or (where the field is 64 bits) 62 bits, negative 32 bit nonces and slots, any 32 byte hashes and field elements with the top two bits clear, any booleans; every variant and optional part "
               "(in blocks, diffs, states, proofs and commands with status: three combinations, in which every variant and every optional part occurs both ways), lists of 0 to 2 elements, memos of 0..2 bytes"),
    "C29": dict(
        quick=H("base", "h_json_consensus", "h_json_blockchain", "h_json_constants", "h_json_state", "h_json_command", "h_json_status", "h_json_with_status", "h_json_coinbase", "h_json_internal", "h_json_proof", "h_json_statement", "h_json_work", "h_json_chain_proof", "h_json_diff", "h_json_block", "h_bad_coinbase", "h_bad_status", "h_bad_command", "h_bad_internal", "h_bad_statement", "h_bad_state", "h_bad_proof", "h_bad_chain_proof", cover=(1,)),
        fns=["mina_rs_base", "mina_serialization_types", "serde_json", "hex", "base64"], assumptions=[STUBS, "base58 texts use a stand-in alphabet of two letters per byte (see DESIGN.md); the checksum over payload and version byte is computed by the real code on the stand-in digest"],
        bounds="one value of each kind of part and whole blocks, as for the wire forms but with fixed distinct numbers; the first two hashes or field elements of each value with two bytes of any value; refusals: any one of the first 120 (proofs: 40) nodes in preorder replaced by null, a boolean, an integer, a fraction, an empty text, a text of two characters, an empty array or object, or two shapes of tagged arrays"),
    "C30": dict(
        quick=H("secrets", "h_box_round", "h_box_open", "h_box_costs", "h_box_wrong") + H("secrets", "h_box_primitive", "h_box_lengths", "h_box_base58", "h_box_json", cover=(1, 2)) + H("secrets", "h_box_keypair", cover=(1, 2, 3)),
        fns=["mina_secrets", "secret_box", "serde_json"], assumptions=[STUBS, "argon2 and xsalsa20poly1305 are stand-ins with the original's interface, limits and failures: which costs, salt, nonce and password they are given is decided, not their strength"],
        bounds="salts of 0..100 bytes, nonces of 0..40, sealed texts of 0..65, passwords of 0..3 bytes (two or three bytes of each symbolic); ten memory and seven operations limits out of range and four in range; one byte of any part changed to any value, any truncation; "
               "every one-character change of a primitive's name; base58 texts with another version byte, checksum, alphabet, cut anywhere; wallet texts cut anywhere and with any field missing or of another type"),
    "C31": dict(
        quick=H("ledger", "h_account_legacy", "h_account", "h_account_token", "h_tree_legacy", "h_tree", "h_tree_bad") + H("ledger", "h_accounts", cover=(1, 2)),
        fns=["mina_ledger", "mina_rs_base", "mina_serialization_types", "mina_merkle", "bin_prot"], assumptions=[STUBS, "the database is a stand-in: an ordered list of pairs and read errors"],
        bounds="accounts with numbers of 7, 14, 30 or 62 bits, any key, hash, flag, delegate, timing and token permission, any one permission any level; databases of 0..4 accounts with other records before and after, any one of them unreadable in one of nine ways; trees over 0..5 accounts of height 20"),
    "C32": dict(
        quick=H("network", "h_main_verify", "h_main_short", "h_main_tied", "h_main_long", cover=(1, 2)) + H("network", "h_berk_short", "h_berk_zero", "h_berk_long", cover=(1, 2), path_insts=200000000) + H("network", "h_ledger_json", cover=(1, 2, 3)) + H("network", "h_ledger_json_bad", "h_ledger_json_state"),
        fns=["mina_network", "mina_consensus", "mina_rs_base", "mina_merkle"], assumptions=[STUBS, "a signature is valid when it is the stand-in signer's one for that key, network and message", "tokio and async-trait are stand-ins (harness/stub); libp2p is left out"],
        bounds="blocks with 0..2 and 0..1 commands in the parts of the diff, each signed well or in one of three wrong ways, nonces any, with and without a block before; three blocks of any lengths, two and three of equal ones, two of one fork before or after a checkpoint; ledgers of 0..3 proofs; answers with two accounts or other entries, paths of one or two steps, two-digit hashes, nine kinds of damage"),
    "C33": dict(
        quick=H("network", "h_proc_blocks", "h_proc_requests", "h_proc_two", "h_proc_readers"),
        fns=["mina_network"], assumptions=["tokio's channels, locks and join are stand-ins for one thread (harness/stub/tokio): what may be polled next is any, so every wake-up order is included", "async-trait is a stand-in"],
        bounds="two to four blocks of any content from one or two senders, each converting or not, added or not, asking for 0..2 others; requests of any content, each answered or failing; the first 4 to 8 scheduling steps and the first 3 branch orders are any, later ones take turns"),
    "C36": dict(
        quick=H("reader", "h_reader_raw", "h_reader_hex", "h_reader_text", cover=(1, 2)) + H("reader", "h_reader_layout", cover=(2,)),
        fns=["h_reader::app", "bin_prot"], assumptions=["the program's source is compiled with files in memory and its output kept (harness/reader/src/facade.rs); structopt, env_logger and serde_stacker are stand-ins", "what a layout and bytes mean is C10's and C34's subject: here the library's answer is what the program must show"],
        bounds="data of 0..3 bytes of any value and of 0..5 characters that are or are not hexadecimal, with six rules; three unreadable layouts; with and without round trip and output file, each file missing or not to be written"),
    "C35": dict(
        quick=H("js", "h_v1_poll", "h_v1_query", cover=(1, 2, 3)) + H("js", "h_v1_list") + H("js", "h_berkeley_poll", "h_berkeley_query", cover=(1, 2, 3)),
        fns=["mina_network_js", "graphql_api"], assumptions=["the JavaScript side is a host that answers each call with a text, a value that is no text, or an error; wasm-bindgen, js-sys, hashbrown, tokio and async-trait are stand-ins (harness/stub)", "the block type of the explorer's back end is a stand-in: which text reaches whom is decided here, what a block's text means is C29's subject"],
        bounds="lists of 0..3 blocks of any three-digit heights and two-letter hashes, 14 malformed lists; 0..3 endpoints and 0..2 accounts of any two-letter names, equal or not; every endpoint answering well, with an error, with no text or with a broken one; queues of one or two places, taken from early or late, closed or never set"),
    "C34": dict(
        quick=H(B, "h_layout_plain", "h_layout_one", "h_layout_other", "h_layout_two", "h_layout_file", cover=(1, 2)) + H(B, "h_layout_shape") + H(B, "h_layout_names", cover=(1, 2, 3)),
        fns=["bin_prot"],
        bounds="every name of 3..10 letters, digits and underscores, alone, with one part or with two; each rule name with twelve kinds of part and each two-part name with twelve pairs; 21 malformed rules, alone and inside four others; each key of the file missing or of another kind; any names of two characters and tags of two digits"),
}
