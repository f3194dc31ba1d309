"""The properties: texts (written to properties.jsonl by tools/gen.py)."""
MP = "ssz-multiproofs/src/multiproof.rs"
CS = "core/src/consensus_state.rs"
VF = "core/src/verify.rs"
RD = "core/src/input_reader/guest_input_reader.rs"
HR = "host/src/input_reader/host_input_reader.rs"
PR = "host/src/input_reader/preflight_input_reader.rs"


def P(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(
        id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
        anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
    )


PROPERTIES = [
    P("C01", "Multiproof soundness: an accepted root is the Merkle root of the whole proof",
      "Whenever root computation or verification of a multiproof succeeds, the proof's shape encodes exactly one complete binary tree with at least two leaves, every leaf has a full 32-byte chunk in the proof, and the resulting root is the Merkle root of precisely that tree over those chunks. "
      "No malformed, truncated or trailing shape, missing data, or stack hint can make a different root acceptable.",
      ["inputs"], "every shape descriptor, chunk content, data length and stack hint a prover can send",
      "The only test lists the positions of one fixed descriptor; no test computes a root from a malformed, truncated or adversarial proof.",
      [MP], [("stack reduction and final stack check", MP + ": calculate_compact_multi_merkle_root")], ["Multiproof::calculate_root", "Multiproof::verify"]),
    P("C02", "Multiproof verification accepts exactly the true root of a well-formed proof",
      "For every well-formed proof with at least two leaves, root computation succeeds without panicking and verification succeeds if and only if the given root equals the Merkle root of the proof. "
      "The outcome does not depend on the stack-depth hint.",
      ["inputs"], "every tree shape, chunk content, claimed root and stack hint",
      "No test calls verification at all in the baseline; sampled trees cannot cover all shapes, roots and hints.",
      [MP], [("root comparison", MP + ": Multiproof::verify"), ("preallocation only", MP + ": stack_depth_hint")], ["Multiproof::verify", "Multiproof::calculate_root"]),
    P("C03", "Proof nodes and values are reported at their true tree positions",
      "Iterating a well-formed proof yields every leaf exactly once, in depth-first left-to-right order, with the generalized index at which the root computation placed it and its own 32-byte content. "
      "The value iteration yields exactly the leaves marked as values, in the same order, with the same positions and contents.",
      ["inputs"], "every tree shape, value mask and chunk content",
      "One fixed descriptor is tested and never together with contents or a value mask; the pairing of positions with contents is untested.",
      [MP], [("depth-first position walk", MP + ": GIndexIterator"), ("mask filter", MP + ": Multiproof::values")], ["Multiproof::nodes", "Multiproof::values"]),
    P("C04", "Value lookup returns the value at the requested position and nothing else",
      "Looking up a generalized index returns the content of the value at exactly that position, and nothing if the proof holds no value there (in particular for helper nodes). "
      "Sequential consumption returns the next value only when its position is the requested one, and otherwise reports the mismatch or that the values are exhausted.",
      ["inputs", "histories"], "every tree shape, value mask, content, requested index and sequence of two requests",
      "No test performs a lookup; absence and helper-node cases need all shapes and masks.",
      [MP], [("linear lookup", MP + ": Multiproof::get"), ("position assertion", MP + ": ValueIterator::next_assert_gindex")], ["Multiproof::get", "ValueIterator::next_assert_gindex"]),
    P("C05", "Deep proofs never alias the position of another node",
      "However deep a proof is, a leaf of an accepted proof is never reported at a generalized index other than its own; positions that cannot be represented are rejected instead of being reported under a smaller index.",
      ["inputs"], "proof depths from 0 to beyond the 64-bit range of positions, both walk directions",
      "The tested descriptor has depth 5; release builds wrap silently, so only proofs deeper than 63 levels show the difference.",
      [MP], [("checked doubling of the position", MP + ": GIndexIterator::next")], ["Multiproof::values"]),
    P("C06", "A built multiproof holds exactly the requested values and verifies",
      "Building a proof for registered positions or paths of an object succeeds and yields a proof that verifies against the object's root. Its values are exactly the requested ones, each once, in depth-first order at its SSZ position with the object's content, "
      "whatever the order or repetition of the registrations. Its other nodes are the object's own and only those that are needed to recompute the root.",
      ["inputs"], "every object content, set of non-overlapping positions or paths, registration order and repetition",
      "No baseline test builds a proof; the ordering of positions of different depths and the choice of helper nodes interact for every set of positions.",
      ["ssz-multiproofs/src/builder.rs", MP], [("helper selection and depth-first order", "ssz-multiproofs/src/builder.rs: compute_proof_indices_and_value_mask"), ("descriptor", "ssz-multiproofs/src/builder.rs: compute_proof_descriptor")], ["MultiproofBuilder::build", "Multiproof::verify"]),
    P("C07", "Supermajority links move the consensus state exactly as Casper FFG allows",
      "Applying a link succeeds exactly when it starts at the current justified checkpoint and leads to a later epoch. The target becomes justified; the source becomes finalized exactly when the link is consecutive, otherwise the finalized checkpoint stays. "
      "The result is always a valid state, and neither the justified nor the finalized epoch ever decreases.",
      ["inputs", "histories"], "every valid state and every link, including epochs at the 64-bit limit",
      "Property tests sample epochs; the boundary between consecutive and skipping links, foreign sources and extreme epochs need all values.",
      [CS], [("state transition", CS + ": ConsensusState::state_transition"), ("validity", CS + ": ConsensusState::is_valid")], ["ConsensusState::state_transition"]),
    P("C08", "The link between two consensus states is recovered exactly",
      "For any valid state and any link that applies to it, the link is recovered from the two states. Conversely, a link recovered from two valid states, applied to the first, yields exactly the second; equal states yield no link, and states not one link apart are reported as such.",
      ["inputs", "histories"], "all pairs of valid states",
      "The inverse is only tested on a handful of hand-written state pairs; the special cases (genesis, 2-finality) interact.",
      [CS], [("case analysis over state pairs", CS + ": ConsensusState::transition_link")], ["ConsensusState::transition_link"]),
    P("C09", "Consensus states and journals have one ABI encoding and decode safely",
      "A consensus state encodes to the four ABI words (justified epoch and root, finalized epoch and root) and decodes back to itself. Decoding accepts exactly complete encodings of valid states, and reports everything else as an error without panicking. "
      "A journal encodes the pre state, the post state and the finalized slot in this order.",
      ["inputs"], "every state, slot, word content and truncation of the encoding",
      "On-chain consumers depend on every byte; tests round-trip single values and never feed an invalid state or truncated bytes.",
      ["core/src/abi.rs", CS], [("conversions", "core/src/abi.rs: TryFrom, From"), ("journal layout", "core/src/abi.rs: Journal")], ["ConsensusState::abi_encode", "ConsensusState::abi_decode", "Journal::encode"]),
    P("C10", "An accepted input is a chain of links with exactly one new finalization",
      "Whenever verification accepts, the attestations, grouped by link in order, form a Casper FFG chain starting at the trusted justified checkpoint; only the last link finalizes a new checkpoint. "
      "The returned state is the result of that chain and the returned slot is the slot of the newly finalized block.",
      ["inputs", "histories"], "every trusted state and every sequence of attestations (within the stated count), with all epochs, roots and vote contents",
      "No test verifies anything without external fixtures; adversarial groupings and repeated or interleaved links are not sampled.",
      [VF], [("one finalization per proof", VF + ": verify")], ["verify"]),
    P("C11", "Every accepted link is backed by enough genuine, active, unslashed stake",
      "A link is accepted only if each of its attestations was made in a slot of the target epoch by the committees of that epoch, with the validators' own signatures over exactly this attestation data under the attester domain of the target epoch's fork and the genesis validators root, "
      "and only if the balance of the distinct unslashed voters reaches the configured fraction of the active balance (and never less than two thirds).",
      ["inputs"], "every set of balances, slashings, activity, committee assignment, participation bits and signatures (within the stated numbers)",
      "Forged, duplicated, slashed, misplaced or insufficient votes are adversarial inputs; tests use honest fixtures only.",
      [VF, "core/src/attestation.rs", "core/src/committee_cache.rs"], [("signature over participants", VF + ": process_attestation"), ("threshold", VF + ": verify"), ("seed and committees", VF + ": compute_committees")], ["verify"]),
    P("C12", "Links outside the supported forks or the lookahead limit are never accepted",
      "A link is accepted only if the fork active at its target epoch is within the configured range and its target epoch exceeds the trusted finalized epoch by at most the configured lookahead limit, for every link of the input.",
      ["inputs", "histories"], "every fork schedule, limit, trusted state and sequence of links (within the stated count)",
      "Needs fork boundaries, limits and multi-link inputs that fixtures do not contain.",
      [VF, "core/src/config.rs"], [("link admission", VF + ": validate_link")], ["verify"]),
    P("C13", "Attesting validators are exactly the committee members whose bits are set",
      "For an attestation of the cached epoch whose committees exist, have at least one voter each and match the number of participation bits, the attesting indices are exactly the members whose bits are set. "
      "An attestation that names a missing committee, leaves a committee empty, or has too few or too many bits is never accepted.",
      ["inputs"], "every committee assignment, committee selection, bit list (any length) and slot, within the stated number of validators",
      "Offsets across several committees and malformed lengths need all combinations; no test calls the function.",
      ["core/src/attestation.rs"], [("bit offsets", "core/src/attestation.rs: get_attesting_indices")], ["get_attesting_indices"]),
    P("C14", "The committees of an epoch partition the active validators",
      "The committees of an epoch are the consecutive slices of the seed's shuffling of the active validators, in slot and index order: every active validator is in exactly one committee and nobody else is in any. "
      "Committees of other epochs or indices are refused, and reported positions agree with the shuffling.",
      ["inputs"], "every set of active validators (up to the stated size), number of committees, slots per epoch, permutation, slot and index",
      "Existing tests need network fixtures; rounding of committee boundaries needs all combinations of sizes and counts.",
      ["core/src/committee_cache.rs"], [("slicing", "core/src/committee_cache.rs: CommitteeCache::get_beacon_committee"), ("shuffling", "core/src/committee_cache.rs: CommitteeCache::initialized")], ["CommitteeCache"]),
    P("C15", "Balances are summed exactly or rejected",
      "The total balance of a set of validators is their exact sum, at least one effective balance increment; a sum that does not fit into 64 bits is rejected instead of wrapping.",
      ["inputs"], "every list of balances up to the stated length and every increment",
      "Overflow needs extreme balances; no test calls the function.",
      ["core/src/input_reader.rs"], [("checked sum", "core/src/input_reader.rs: get_total_balance")], ["get_total_balance"]),
    P("C16", "Committee seeds follow the beacon chain's RANDAO rule",
      "The seed of an epoch is the hash of the domain, the epoch and the RANDAO mix of MIN_SEED_LOOKAHEAD + 1 epochs before, read from the state of that epoch at the right index of the history; epochs too large are rejected and a missing mix is never replaced.",
      ["inputs"], "every epoch, domain, lookahead and presence of the mix, for several history lengths",
      "Index arithmetic modulo the history length and epoch boundaries; no test computes a seed.",
      ["core/src/input_reader.rs"], [("seed", "core/src/input_reader.rs: InputReader::get_seed"), ("history index", "core/src/input_reader.rs: InputReader::get_randao_mix")], ["InputReader::get_seed"]),
    P("C17", "Configurations admit exactly their fork range and never less than two thirds",
      "A fork is supported exactly when it lies within the configured range. The shipped configurations support only forks whose state layout the guest hard-codes, look ahead no further than unseen activations allow, and meeting their threshold always implies a two-thirds majority while full participation always meets it.",
      ["inputs"], "every fork and range, and every pair of voted and active balances",
      "The relation to two thirds must hold for all 64-bit balances, not for sampled ones.",
      ["core/src/config.rs"], [("range", "core/src/config.rs: Config::is_supported_version"), ("shipped values", "core/src/config.rs: DEFAULT_CONFIG, SEPOLIA_CONFIG")], ["Config", "DEFAULT_CONFIG", "SEPOLIA_CONFIG"]),
    P("C26", "Verification accepts every honest input",
      "An input whose links start at the trusted checkpoint, advance, stay within the supported forks and lookahead, are each backed by sufficient correctly signed votes, and finalize one new checkpoint with the last link, is accepted without panicking, and yields the state this chain leads to and the slot of the finalized block.",
      ["inputs", "histories"], "every trusted state, chain of links, validator set, balances, committees and votes (within the stated numbers) that satisfy the rules",
      "Liveness at the boundaries (exact threshold, exact lookahead, epoch limits, empty committees) is not reached by fixtures.",
      [VF, "core/src/attestation.rs", CS], [("verification loop", VF + ": verify")], ["verify"]),
    P("C18", "Guest input is accepted only if bound to the trusted checkpoint",
      "An accepted guest input's block has the trusted finalized root, its state is that block's state, and its validator registry is that state's registry; genesis validators root, slot, fork, finality and exit limits are the values at their SSZ positions in that state. "
      "A state whose fork differs from the specification's for its epoch is rejected; the trusted consensus state and the specification pass through unchanged.",
      ["inputs"], "every chunk content, every value mask of the block and state proofs, and every move of one value to its sibling, parent or child position",
      "The trust chain must hold for adversarial proofs; the only test of the reader is a serialization round trip.",
      [RD, "core/src/guest_gindices.rs", MP], [("linking the proofs", RD + ": GuestInput::into_reader"), ("SSZ positions", "core/src/guest_gindices.rs")], ["GuestInput::into_reader", "InputReader"]),
    P("C19", "The validator registry is extracted completely and authentically",
      "An accepted registry proof covers exactly the validators 0..length: each is included in full (with the public key matching the committed compressed key) or proven to have exited by the trusted epoch. No validator is omitted, repeated, reordered or altered, and every true registry is accepted.",
      ["inputs"], "every combination of complete, exited, absent and partial entries (within the stated number of validators), every chunk content, list length and key list",
      "An omitted or altered validator changes who must vote; needs adversarial proofs no fixture contains.",
      [RD, "core/src/guest_gindices.rs", "core/src/lib.rs"], [("extraction", RD + ": extract_validators_multiproof")], ["GuestInput::into_reader", "InputReader::active_validators"]),
    P("C20", "State patches affect exactly their own epoch",
      "The validators active at an epoch, and its RANDAO mixes, are those of the trusted registry changed only by the patch of exactly that epoch: a patched exit is honoured, a patched mix is returned for its epoch and index only, and nothing else is altered. A patch can never make an inactive validator active.",
      ["inputs"], "every two patches with any exits and mixes, every queried epoch and index",
      "Confusing epochs or indices yields wrong committees; needs all query and patch combinations.",
      [RD, "core/src/state_patch.rs"], [("lookup", RD + ": GuestInputReader::randao_mix, active_validators"), ("exits", "core/src/state_patch.rs: StatePatch::is_active_validator")], ["InputReader"]),
    P("C21", "The registry is advanced to the justified epoch as the chain does",
      "Activation eligibility and activations of the epochs between the trusted state and the justified checkpoint are applied as in the consensus specification's registry updates: in order, with the delayed activation epoch, and with the finality known at each epoch. Every true input is accepted.",
      ["inputs", "histories"], "every eligibility, activation and exit epoch and balance, every state slot, and distances up to the stated number of epochs",
      "Off-by-one errors appear only for validators that activate in the gap; fixtures have none.",
      [RD, "core/src/lib.rs"], [("epoch loop", RD + ": GuestInput::into_reader"), ("registry updates", RD + ": process_registry_updates")], ["GuestInput::into_reader", "InputReader::active_validators"]),
    P("C22", "Unverified state patches are bounded by the chain's exit rules",
      "Accepted patches concern no epoch before the trusted one and only validators of the registry; an exit they add is the first of its validator, stays the same in later patches, and is not earlier than the chain allows; all added exits together never exceed twice the churn limit of the epochs up to each exit. Patches within these rules are accepted, also when epochs between them are not patched or a later patch adds an earlier exit.",
      ["inputs", "histories"], "every patch epoch, exit epoch, balance and registry exit (within the stated number of validators and patches)",
      "Patches are prover-chosen: without exact limits a prover removes honest validators and lowers the majority. No test covers them.",
      [RD], [("plausibility checks", RD + ": GuestInput::validate_state_patches"), ("churn limit", RD + ": get_balance_churn_limit")], ["GuestInput::into_reader"]),
    P("C23", "The slot reported for a block is proven by the block's root",
      "The reader reports a slot for a block root only if a supplied proof with exactly this root holds this slot at the block's slot position; an input with a proof lacking the slot is rejected, and unknown roots yield an error.",
      ["inputs"], "every shape listed in the bounds, mask and chunk content of two block proofs, and every root",
      "The slot is published in the journal; a mix-up needs several proofs and adversarial shapes.",
      [RD, "core/src/guest_gindices.rs"], [("slot map", RD + ": GuestInput::into_reader"), ("lookup", RD + ": GuestInputReader::slot_for_block")], ["InputReader::slot_for_block"]),
    P("C24", "Serialising guest input loses nothing",
      "A guest input or configuration that is serialised for the guest and deserialised again is equal to the original: proofs with their shape and masks, public keys, state patches, votes of either version and the trusted state. A truncated input is rejected.",
      ["inputs"], "every content of two patches, votes, keys and several proof shapes and masks, and every truncation of up to 64 bytes",
      "The fixture test round-trips one recorded input; custom encodings (keys, votes, epochs, bit strings) have content- and length-dependent paths.",
      ["core/src/serde_utils.rs", RD, "core/src/state_patch.rs", MP], [("custom encodings", "core/src/serde_utils.rs"), ("input", RD + ": GuestInput"), ("proof shape", MP + ": Multiproof")], ["bincode::serialize", "bincode::deserialize", "GuestInput"]),
    P("C25", "The guest's journal is the verified transition of its input",
      "If the guest program finishes, its journal is exactly the trusted state the input was authenticated against, the state `verify` reaches from it under the given configuration, and the proven slot of the finalized block; an input that is not authentic or does not verify leaves no journal. The guest succeeds on honest inputs.",
      ["inputs"], "every content of an authentic input with one validator and every vote of up to two links, valid or not",
      "The end-to-end path from input bytes to journal is otherwise only exercised with a proof server and recorded chains.",
      ["methods/guest/src/lib.rs", RD, VF, "core/src/abi.rs"], [("guest program", "methods/guest/src/lib.rs: entry")], ["beacon_guest::entry"]),
    P("C27", "The host starts from the state that first finalized the trusted checkpoint",
      "Walking the chain's consensus states, the host's reader starts from the first state whose finalized checkpoint is the trusted one, and succeeds exactly if valid justification steps lead from there to a later finalized checkpoint. A trusted checkpoint that the chain finalized past without ever finalizing it is reported as invalid; it never starts from another state.",
      ["inputs", "histories"], "every sequence (of the stated length) of consensus states with any epochs and roots after any trusted checkpoint",
      "Skipped finality, delayed finality and foreign checkpoints are rare on real chains; no test runs the walk.",
      [HR, "core/src/consensus_state.rs"], [("walk", HR + ": HostInputReader::new, find_consensus_state")], ["HostInputReader::new", "InputReader::consensus_state"]),
    P("C28", "The host collects every attestation that can vote for the links, and no other",
      "The attestations the host's reader offers are exactly those included in the chain whose source and target are those of a justification link between the trusted state and the next finalization, wherever the protocol allows their inclusion (until the end of the epoch after their target), grouped in the order of the links, with their content unchanged.",
      ["inputs", "histories"], "every position of the stated number of attestations in the blocks of a timely, a late and a gapped honest chain, every source, slot and target, with empty slots",
      "A missed late attestation makes an honest chain unprovable, a misplaced one invalid; no test has late or empty slots.",
      [HR], [("links and blocks", HR + ": collect_attestations_for_links")], ["HostInputReader::new", "InputReader::attestations"]),
    P("C29", "State providers return the state that was asked for",
      "The state for an epoch boundary is that of the last block at or before the first slot of the epoch; the state for a checkpoint is returned only if its block's root is the checkpoint's, otherwise the checkpoint is reported as invalid. Caching never changes the outcome of a request and never fetches a stored state twice.",
      ["inputs", "histories"], "every header, epoch, number of empty slots (up to the stated number) and checkpoint root; every sequence of the stated number of requests",
      "Empty slots before a boundary and cache histories are not sampled; no test of the providers runs offline.",
      ["host/src/state_provider.rs", "host/src/state_provider/cache_provider.rs", "host/src/beacon_state.rs"], [("boundary and checkpoint", "host/src/state_provider.rs: StateProvider"), ("cache", "host/src/state_provider/cache_provider.rs")], ["StateProvider::state_at_epoch_boundary", "StateProvider::state_at_checkpoint", "CacheStateProvider"]),
    P("C30", "The host reports exactly the chain's validators, mixes, forks and slots",
      "At every epoch whose state the chain provides the host's reader returns exactly the validators active in that state, in order and unaltered, its RANDAO mixes by index and its fork; block slots are those of the chain's headers. State patches contain exactly the exits that differ from the trusted registry and the RANDAO mixes that were requested.",
      ["inputs"], "every content of the trusted and a later state with the stated number of validators, every epoch, index and block root",
      "Conversions and caching between states are content-dependent; no test compares them with a state.",
      [HR, "host/src/state_patch_builder.rs", "host/src/conversions.rs", "host/src/beacon_state.rs"], [("queries", HR + ": HostInputReader"), ("patches", "host/src/state_patch_builder.rs: StatePatchBuilder"), ("conversions", "host/src/conversions.rs")], ["HostInputReader", "StatePatchBuilder"]),
    P("C31", "The guest accepts the host's input and sees the same data",
      "The input that a preflight run over an honest chain builds is accepted by the guest's reader, which then returns the same active validators, RANDAO mixes, fork, genesis validators root, consensus state, attestations and requested block slots as the host's reader.",
      ["inputs"], "every content of the states, headers and validators (within the stated number) of an honest chain, with at most one newly initiated exit per validator, and every subset of the requests considered",
      "Prover and guest implement the same rules separately; any disagreement makes honest chains unprovable. Fixtures sample two recorded chains.",
      [PR, "host/src/state_patch_builder.rs", "core/src/guest_gindices.rs", RD], [("building the input", PR + ": PreflightInputReader::to_input"), ("reading it", RD + ": GuestInput::into_reader")], ["PreflightInputReader::to_input", "GuestInput::into_reader"]),
]
