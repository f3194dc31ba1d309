from .engine import Crate, Inconclusive

COMMON_ASSUMPTIONS = [
    "SHA-256 is modelled as an ideal hash (equal messages <=> equal digests); counterexamples are replayed natively",
    "the LLVM IR that rustc (stable, opt-level 1, fat LTO, overflow checks off as in the release profile) emits for the sources is the program; code generation below it is trusted",
    "the symbolic executor /verif/vsym and z3 are trusted; sampled paths are replayed natively and compared",
]
VP = """
#[path = "@VERIF@/harness/vp.rs"] pub(crate) mod vp;
#[path = "@VERIF@/harness/wire.rs"] pub(crate) mod wire;
"""
CRATES = {
    "mp": Crate(
        "mp",
        [("ssz-multiproofs/src", "src")],
        """
[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[workspace]
[lib]
crate-type = ["cdylib"]
[dependencies]
serde = { version = "1.0", features = ["derive"] }
sha2 = { path = "@VERIF@/models/sha2" }
bitvec = { version = "=1.0.1", features = ["serde"] }
thiserror = "2.0"
tracing = { path = "@VERIF@/models/tracing" }
""",
        {"src/lib.rs": VP + '#[path = "@VERIF@/harness/mp/lib.rs"] pub mod vp_mp;\n'},
        ["models/sha2", "models/tracing", "models/tracing_attr", "harness/vp.rs", "harness/wire.rs", "harness/mp"],
        ["harness/mp/lib.rs"],
    ),
}

MP_TOML = """
[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[features]
builder = []
progress-bar = []
[dependencies]
serde = { version = "1.0", features = ["derive"] }
sha2 = { path = "@VERIF@/models/sha2" }
bitvec = { version = "=1.0.1", features = ["serde"] }
thiserror = "2.0"
tracing = { path = "@VERIF@/models/tracing" }
"""
CORE_DEPS = """
alloy-primitives = { version = "=1.3.0", default-features = false, features = ["std", "serde"] }
alloy-sol-types = { path = "@VERIF@/models/alloy_sol_types" }
beacon_types = { path = "@VERIF@/models/beacon_types" }
bls = { path = "@VERIF@/models/bls" }
ethereum_ssz = { path = "@VERIF@/models/ssz" }
itertools = "0.14"
safe_arith = { path = "@VERIF@/models/safe_arith" }
serde = { version = "1.0", features = ["derive"] }
serde_arrays = { path = "@VERIF@/models/serde_arrays" }
serde_with = { path = "@VERIF@/models/serde_with" }
sha2 = { path = "@VERIF@/models/sha2" }
swap_or_not_shuffle = { path = "@VERIF@/models/swap" }
thiserror = "2.0"
tracing = { path = "@VERIF@/models/tracing" }
tree_hash = { path = "@VERIF@/models/tree_hash" }
bincode = "1.3"
risc0-zkvm = { path = "@VERIF@/models/risc0_zkvm" }
"""
MPB_TOML = MP_TOML.replace("builder = []", 'default = ["builder"]\nbuilder = []') + """
alloy-primitives = { version = "=1.3.0", default-features = false, features = ["std", "serde"] }
itertools = "0.14"
rayon = { path = "@VERIF@/models/rayon" }
smallvec = "1.15"
ssz_rs = { path = "@VERIF@/models/ssz_rs" }
"""
CRATES["mpb"] = Crate(
    "mpb",
    [("ssz-multiproofs/src", "src")],
    MPB_TOML.replace('name = "ssz-multiproofs"', 'name = "mpb"') + """
[workspace]
[lib]
crate-type = ["cdylib"]
""",
    {"src/lib.rs": VP + '#[path = "@VERIF@/harness/mpb/lib.rs"] pub mod vp_mpb;\n'},
    ["models", "harness/vp.rs", "harness/wire.rs", "harness/mpb"],
    ["harness/mpb/lib.rs"],
)
CRATES["core"] = Crate(
    "core",
    [("core/src", "src"), ("ssz-multiproofs/src", "mp/src"), ("methods/guest/src/lib.rs", "src/vp_guest.rs")],
    """
[package]
name = "z-core"
version = "1.0.0"
edition = "2024"
[workspace]
[lib]
crate-type = ["cdylib"]
[dependencies]
ssz-multiproofs = { path = "mp" }
""" + CORE_DEPS,
    {
        "src/lib.rs": VP + 'extern crate self as z_core;\npub mod vp_guest;\n#[path = "@VERIF@/harness/core/lib.rs"] pub mod vp_core;\n',
        "mp/Cargo.toml": MP_TOML,
    },
    ["models", "harness/vp.rs", "harness/wire.rs", "harness/core"],
    [f"harness/core/{f}.rs" for f in ("ffg", "abi", "misc", "attest", "verify", "reader", "io")],
)


# the host: the network client and the test harness readers are left out
HOST_STUBS = {
    "src/beacon_client.rs": """
pub struct BeaconClient;
impl crate::ChainReader for BeaconClient {
    async fn get_block_header(&self, _: impl std::fmt::Display) -> Result<Option<ethereum_consensus::electra::mainnet::SignedBeaconBlockHeader>, anyhow::Error> { unimplemented!() }
    async fn get_block(&self, _: impl std::fmt::Display) -> Result<Option<ethereum_consensus::types::mainnet::BeaconBlock>, anyhow::Error> { unimplemented!() }
    async fn get_consensus_state(&self, _: impl std::fmt::Display) -> Result<z_core::ConsensusState, anyhow::Error> { unimplemented!() }
}
""",
    "src/test_utils.rs": "",
    "src/state_provider/persistant_api_provider.rs": "",
    "src/input_reader/test_harness_readers.rs": "",
}


def host_post(out):
    for f in [f for f in out if f.startswith("src/bin/")]:
        del out[f]
    for f, t in HOST_STUBS.items():
        if f not in out:
            raise Inconclusive(f"host/{f} is missing")
        out[f] = t.encode()


CRATES["host"] = Crate(
    "host",
    [("host/src", "src"), ("core/src", "core/src"), ("ssz-multiproofs/src", "mp/src")],
    """
[package]
name = "host"
version = "1.0.0"
edition = "2024"
[workspace]
[lib]
crate-type = ["cdylib"]
[dependencies]
z-core = { path = "core" }
ssz-multiproofs = { path = "mp", features = ["builder"] }
anyhow = { path = "@VERIF@/models/anyhow" }
elsa = { path = "@VERIF@/models/elsa" }
futures = { path = "@VERIF@/models/futures" }
ethereum-consensus = { path = "@VERIF@/models/ethereum_consensus" }
rayon = { path = "@VERIF@/models/rayon" }
ssz_rs = { path = "@VERIF@/models/ssz_rs" }
serde_json = "1"
""" + CORE_DEPS,
    {
        "src/lib.rs": VP + '#[path = "@VERIF@/harness/host/lib.rs"] pub mod vp_host;\n',
        "mp/Cargo.toml": MPB_TOML.replace('default = ["builder"]\n', ""),
        "core/Cargo.toml": """
[package]
name = "z-core"
version = "1.0.0"
edition = "2024"
[dependencies]
ssz-multiproofs = { path = "../mp" }
""" + CORE_DEPS,
    },
    ["models", "harness/vp.rs", "harness/wire.rs", "harness/host"],
    [f"harness/host/{f}.rs" for f in ("walk", "states", "input")],
    host_post,
)


def H(crate, entry, bounds, timeout=240, **kw):
    return dict(crate=crate, entry=entry, bounds=bounds, timeout=timeout, **kw)


def mp(kind, nb, extra):
    return H("mp", f"h_{kind}_{nb}", f"shape descriptors of at most {nb} bits ({(nb + 1) // 2} leaves); {extra}", 280)


SOUND = "every bit pattern, every chunk content, every byte length up to one chunk per possible leaf, 3 stack hints"
EXACT = "every well-formed tree with at least 2 leaves, every chunk content, every 32-byte root, 3 stack hints"
POS = "every well-formed tree, every chunk content, every value mask of full length"
LOOK = "every well-formed tree, every chunk content and value mask, every 64-bit index, 2 sequential requests"
def C(entry, bounds, timeout=300):
    return H("core", entry, bounds, timeout)


def B(entry, bounds, timeout=300):
    return H("mpb", entry, bounds, timeout)



def HO(entry, bounds, timeout=300):
    return H("host", entry, bounds, timeout)


HOST = ["the host's dependencies are modelled (ethereum_consensus, ssz_rs, elsa, futures, rayon, anyhow); futures are run to completion one after the other; the beacon node is a model that answers truthfully and preset scaled down (2 slots per epoch)"]
CHAIN62 = H("mp", "h_chain_62", "a chain of any depth 0..=62 in either direction followed by any turn, all leaves values")
STATES = "every valid state (64-bit epochs, 256-bit roots)"
SPECS = "preset scaled down (1..=3 slots per epoch, RANDAO history of 4 or 8 epochs)"
VOTE1 = "3 validators (1 with symbolic activity, 1 with symbolic slashing), 1 attestation of any slot, index, link, message, 0..=3 participation bits and 3 committee bits, at most 2 committees, every rotation as shuffle, 3 thresholds, any fork schedule"
VOTE2 = "3 validators, 2 attestations of the same link with 2 committees, 1 threshold"
VOTES = "4 validators, 2 slots per epoch, 2 committees per slot, 1 attestation, every rotation"
LINK3 = "1 validator voting honestly, 3 attestations with arbitrary links, any trusted state"
LINK4 = LINK3.replace("3 attestations", "4 attestations")
BAL = "balances are multiples of 2^48 below 2^56 (64-bit products with the thresholds overflow)"
READER = ["a panic while reading is a rejection (the guest aborts)", "preset scaled down (2 slots per epoch); state slots below 2^60", "public keys compress to 48 arbitrary bytes (models/bls)"]
REG = "each complete, exited, absent or lacking one field; every chunk, list length and number of keys"
UPD = "every balance below 2^60, every eligibility, activation and exit epoch"
PROPS = {
    "C01": dict(quick=[mp("root_sound", 15, SOUND)], thorough_only=[mp("root_sound", 19, SOUND)],
                assumptions=["a panic in the verifier is a rejection (the guest aborts)"]),
    "C02": dict(quick=[mp("verify_exact", 15, EXACT)], thorough_only=[mp("verify_exact", 19, EXACT)], assumptions=[]),
    "C03": dict(quick=[mp("positions", 13, POS), CHAIN62], thorough_only=[mp("positions", 17, POS), CHAIN62], assumptions=[]),
    "C04": dict(quick=[mp("lookup", 11, LOOK)], thorough_only=[mp("lookup", 15, LOOK)], assumptions=[]),
    "C05": dict(quick=[H("mp", "h_deep_68", "a chain of any depth 0..=68 in either direction, all leaves values")],
                thorough_only=[H("mp", "h_deep_68", "a chain of any depth 0..=68 in either direction, all leaves values"),
                               H("mp", "h_deep_66_2", "a chain of any depth 0..=66 in either direction followed by any 2 turns", 600),
                               H("mp", "h_deep_130", "a chain of any depth 0..=130 in either direction", 800)],
                assumptions=["a panic while iterating is a rejection (the guest aborts)"]),
    "C06": dict(quick=[B("h_build_3", "a complete tree of depth 3, every antichain of positions below the root, every leaf, 3 registration orders"),
                       B("h_build_list_1", "a list of 1 record of 5 fields (limit 2^40), every set of 5 chunk paths and the length"),
                       B("h_build_list_2", "a list of 2 records, every set of 3 chunk paths each and the length")],
                thorough=[B("h_build_3", "a complete tree of depth 3, every antichain of positions below the root, every leaf, 3 registration orders"),
                          B("h_build_list_2_full", "a list of 2 records, every set of 5 chunk paths each and the length", 600)],
                assumptions=["ssz_rs is modelled (SSZ merkleization and paths by the specification); rayon is modelled as sequential", "no requested position lies below another, and at least one below the root is requested"]),
    "C07": dict(quick=[C("h_ffg_transition", STATES + ", every link")], assumptions=[]),
    "C08": dict(quick=[C("h_ffg_inverse", STATES + ", every applicable link"), C("h_ffg_link_sound", "every pair of valid states")], assumptions=[]),
    "C09": dict(quick=[C("h_abi_state", STATES), C("h_abi_decode", "every four words with epochs in range, every truncation to 0..=127 bytes"), C("h_abi_journal", "every two valid states and 64-bit slot")],
                assumptions=["the sol! encoding of static types is modelled (models/alloy_sol_types): head-only words, big-endian integers; words whose integer exceeds 64 bits are outside the bounds"]),
    "C10": dict(quick=[C("h_verify_ffg_3", LINK3)], thorough=[C("h_verify_ffg_4", LINK4, 600), C("h_verify_ffg_2", "2 validators with arbitrary votes (1 with symbolic activity), 2 attestations with arbitrary links; " + BAL, 800)],
                assumptions=["the InputReader is a model (any fork schedule, validators, RANDAO, signatures); the real reader is decided by C18 to C25"]),
    "C11": dict(quick=[C("h_verify_votes_1", VOTE1 + "; " + BAL), C("h_verify_votes_2", VOTE2 + "; " + BAL), C("h_verify_votes_slots", VOTES + "; " + BAL)],
                thorough=[C("h_verify_votes_link2", "2 validators (1 with symbolic activity), 2 attestations with arbitrary links; " + BAL, 800), C("h_verify_votes_4", "4 validators (1 symbolic activity, 2 symbolic slashing), 1 attestation, 2 committee bits, every rotation, 3 thresholds; " + BAL, 800)],
                assumptions=["BLS aggregate verification is modelled (models/bls): a signature verifies exactly for the message and the set of keys that signed it", "the InputReader is a model; the shuffle is any function giving one of the stated permutations per seed"]),
    "C12": dict(quick=[C("h_verify_admit_3", LINK3 + ", any fork schedule and lookahead limit")], thorough=[C("h_verify_admit_4", LINK4 + ", any fork schedule and lookahead limit", 800)],
                assumptions=["the InputReader is a model (any fork schedule, validators, RANDAO, signatures)"]),
    "C13": dict(quick=[C("h_attesting_any", "1..=4 validators, 1..=2 committees, 2 slots per epoch, any slot, one committee bit and one participation bit more than valid, every rotation"),
                       C("h_attesting_exact", "1..=4 validators, 1..=3 committees, 2 slots per epoch, every permutation"),
                       C("h_attesting_exact_1", "1..=7 validators, 1..=3 committees, 1 slot per epoch, every rotation")],
                assumptions=["a panic on a malformed attestation is a rejection (the guest aborts)", SPECS]),
    "C14": dict(quick=[C("h_committees_2", "1..=4 validators, 1..=3 committees, 2 slots per epoch, every permutation"),
                       C("h_committees_3", "1..=4 validators, 1..=2 committees, 3 slots per epoch, every permutation, 3 epochs, slots below 4096"),
                       C("h_committees_rot", "1..=9 validators, 1..=5 committees, 2 slots per epoch, every rotation")],
                assumptions=["shuffle_list is modelled as an arbitrary permutation chosen by list, seed and rounds", SPECS]),
    "C15": dict(quick=[C("h_total_balance_4", "0..=4 validators, every 64-bit balance and increment")], thorough=[C("h_total_balance_6", "0..=6 validators, every 64-bit balance and increment", 600)], assumptions=[]),
    "C16": dict(quick=[C("h_seed_tiny", "every 64-bit epoch, 4 byte domain and lookahead; history of 4"), C("h_seed_tiny3", "the same, history of 8"), C("h_seed_mainnet", "the same, history of 65536"), C("h_randao_mix", "every state epoch and epoch, history of 8")],
                assumptions=["the RANDAO source is an arbitrary function of state epoch and index"]),
    "C17": dict(quick=[C("h_config_versions", "every range and fork"), C("h_config_shipped", "every pair of 64-bit balances")], assumptions=[]),
    "C26": dict(quick=[C("h_verify_accept_chain", LINK3), C("h_verify_accept_1", VOTE1 + "; " + BAL), C("h_verify_accept_2", "2 validators (1 with symbolic activity), 2 attestations with arbitrary links; " + BAL), C("h_verify_accept_same", VOTE2 + "; " + BAL)],
                assumptions=["the InputReader is a model; BLS and the shuffle are modelled as in C11"]),
    "C18": dict(quick=[C("h_reader_auth_moved", "block and state proof with the expected values or one of them moved to its sibling, parent or child, every chunk and helper, any fork schedule of the last two forks"),
                       C("h_reader_auth_masks", "block and state proof with every value mask")], assumptions=READER),
    "C19": dict(quick=[C("h_reader_registry_1", "up to 1 validator, " + REG), C("h_reader_registry_2", "up to 2 validators, " + REG)],
                assumptions=READER + ["activation epochs in the registry proof are set (activations are decided by C21)"]),
    "C20": dict(quick=[C("h_patch_apply", "1 active validator, 2 patches in 3 epochs with at most one exit and one RANDAO mix each, any query")], assumptions=READER),
    "C21": dict(quick=[C("h_reader_updates_1_5", "1 validator, up to 5 epochs between state and justified checkpoint; " + UPD), C("h_reader_updates_2", "2 validators, up to 2 epochs; " + UPD)], assumptions=READER),
    "C22": dict(quick=[C("h_patch_sound_1_1", "1 validator, 1 patch of any epoch which may name an unknown validator; every 64-bit exit epoch"), C("h_patch_sound_1_2", "1 validator, 2 patches (adjacent or not); every 64-bit exit epoch"),
                       C("h_patch_sound_2_1", "2 validators, 1 patch; 8-bit epochs"), C("h_patch_accept_1_2", "acceptance, 1 validator, 2 patches, exits within 2^32 epochs"),
                       C("h_patch_sound_queues_32", "2 active validators, a patch of one exit and a later patch (adjacent or not) of two; 32-bit epochs"), C("h_patch_accept_queues_32", "acceptance, the same")],
                thorough=[C("h_patch_sound_2_1_10", "2 validators, 1 patch; 10-bit epochs", 400), C("h_patch_accept_2_1", "acceptance, 2 validators, 1 patch; 10-bit epochs", 400)],
                assumptions=READER + ["churn parameters are scaled down (increment 4, minimum 9, quotient 2); balances that count towards the active total are multiples of 4 chosen so that the churn limit is a power of two, others are arbitrary below 2^60"]),
    "C23": dict(quick=[C("h_slots_1", "1 proof with values at {8}, {8,11} or {16} under every mask"), C("h_slots_2", "2 proofs with values at {8}, {8,11}, {16}, {9}, {4}, {7,8} or {1}")], assumptions=READER),
    "C24": dict(quick=[C("h_input_proofs", "3 proofs of 4 shapes with every mask and chunk, up to 1 slot proof"), C("h_input_patches", "up to 2 patches with up to 2 exits and 1 mix"),
                       C("h_input_votes", "up to 2 votes of either version with up to 2 bits per bit list and 1 signer"), C("h_input_keys", "up to 2 keys of any content, truncation by 1..=64 bytes"), C("h_input_config", "every range of 3 forks and every number")],
                assumptions=["SSZ of attestations, serde_with and serde_arrays are modelled; bincode, serde and bitvec are the real crates"]),
    "C25": dict(quick=[C("h_guest_honest", "honest chains of 1 or 2 links"), C("h_guest_any", "up to 2 votes with any source, target distance 0..=2, message, signature and participation")],
                assumptions=READER + ["the zkVM environment is modelled: one input frame, one journal (models/risc0_zkvm)"]),
    "C27": dict(quick=[HO("h_host_walk_4", "4 consensus states with any 64-bit epochs and roots after a trusted epoch below 2^40"), HO("h_host_walk_5", "5 consensus states")], thorough_only=[HO("h_host_walk_6", "6 consensus states", 800)],
                assumptions=HOST),
    "C28": dict(quick=[HO(f"h_host_collect_{k}_{n}", f"{n} attestation(s) with any source, target epoch, slot and block in the range, {t}") for k, t in enumerate(("each epoch justified in time", "an epoch justified one epoch late", "an epoch never justified, the next two are")) for n in (1, 2)],
                thorough_only=[HO(f"h_host_collect_{k}_3", f"3 attestations, {t}", 280) for k, t in enumerate(("timely", "late", "gap"))],
                assumptions=HOST + ["the chain's blocks are those of an honest chain: an attestation is included after its slot and at most until the end of the epoch after its target"]),
    "C29": dict(quick=[HO("h_host_checkpoint_electra", "0..=3 empty slots before the boundary, every header, Electra"), HO("h_host_checkpoint_fulu", "the same, Fulu"), HO("h_host_cache_2", "2 requests for any slots, 2 or 3 stored states"), HO("h_host_cache_3", "3 requests"), HO("h_host_cache_5", "5 requests")], assumptions=HOST),
    "C30": dict(quick=[HO("h_host_reads_electra_1", "1 validator, two Electra states"), HO("h_host_reads_electra_2", "2 validators"), HO("h_host_reads_fulu_1", "1 validator, two Fulu states"),
                       HO("h_host_patch_22", "2 registry validators, 2 in the state"), HO("h_host_patch_34", "3 registry validators, 4 in the state"), HO("h_host_reads_electra_4", "4 validators"), HO("h_host_patch_45", "4 registry validators, 5 in the state")], assumptions=HOST),
    "C31": dict(quick=[HO("h_host_input_1", "1 validator, Electra"), HO("h_host_input_1_gap", "1 validator, an empty slot at the start of the trusted epoch"), HO("h_host_input_fulu_1", "1 validator, Fulu")],
                thorough_only=[HO("h_host_input_2", "2 validators, Electra", 800), HO("h_host_input_fulu_2", "2 validators, Fulu", 800)],
                assumptions=HOST + ["validators are not waiting for their activation (activations are decided by C21); a newly initiated exit is at least 100 epochs ahead (the churn limit is decided by C22)", "SHA-256, ssz_rs and the beacon state types are modelled; the generalized indices of the model's states are those of the fork (Electra or Fulu)"]),
}
LEVEL_NOTE = ("Bounded: every value within the stated bounds is decided by the solver over the IR compiled from the current sources; nothing is claimed outside the bounds. "
              "Trusts rustc's IR, the executor /verif/vsym, z3, and the models listed in DESIGN.md (ideal hash; dependency models).")
NOT_APPLICABLE = []
