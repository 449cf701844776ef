#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe or [], hook_needed=None)))

p("C01", "Base58 text codec is an exact, canonical bijection",
  "Encoding any byte string with the CryptoNote block base58 produces exactly the text the format defines (8-byte blocks to 11 digits, shorter last block to its fixed digit count, big-endian, fixed alphabet), and decoding that text gives back the same bytes. Decoding accepts a text only if it is the encoding of the bytes it returns: any other text (foreign character, impossible block length, value too large for its block) is refused with an error and never panics.",
  ["inputs"], "all byte strings of any length and all texts, including one-edit corruptions of valid texts and block values at and beyond the overflow limits",
  "Existing tests try a table of blocks; they cannot cover all lengths, all residues near 256^k and all malformed texts.",
  ["crypto/base58/base58.go"], [("block encode/decode with overflow checks", "crypto/base58/base58.go: encodeBlock, decodeBlock"), ("block splitting", "crypto/base58/base58.go: Encode, Decode")],
  ["base58.Encode", "base58.Decode"])

p("C02", "Address text identifies exactly one tag and key pair",
  "For every tag and pair of 32-byte keys the address text decodes back to the same tag and keys, and the text is base58(varint tag || spend key || view key || first 4 bytes of Keccak-256 of those). A text is accepted only if it is the text of the address it decodes to: any altered character, wrong checksum, wrong payload length or padded tag encoding is refused with an error.",
  ["inputs"], "all 64-bit tags, all key pairs, all texts obtained by corrupting, truncating, extending or re-encoding valid addresses",
  "Tests check a handful of known addresses; corruption, tag widths and alternative encodings are not covered.",
  ["cryptonote/address.go", "crypto/base58/base58.go"], [("checksum and layout", "cryptonote/address.go: addressEncode/addressDecode"), ("length check", "cryptonote/address.go: Address.FromString")],
  ["Address.Base58", "Address.FromString"])

p("C03", "Portable storage encoding is byte-exact and round-trips every message",
  "Marshalling any supported value (integers of all widths, bool, float, strings, byte blobs, fixed hashes, packed lists, arrays, nested and repeated sections, omitted empty fields) produces exactly the portable-storage bytes of the format: signature header, field names and type tags in declaration order, little-endian values, and the 1/2/4/8-byte size prefix by magnitude. Unmarshalling those bytes yields an equal value, also in a variable that held another (with every field sent), and sections decode correctly whatever order their fields arrive in.",
  ["inputs"], "all values of a family of message shapes covering every supported field kind, with sizes around the 63/64 and 16383/16384 prefix limits and empty values in any position",
  "Tests decode a few captured packets and marshal two structs; they do not reach size-prefix boundaries, trailing empty values or reordered fields.",
  ["encoding/binary/encode.go", "encoding/binary/decode.go", "encoding/binary/metadata.go", "encoding/binary/binary.go"],
  [("encoder", "encoding/binary/encode.go"), ("decoder", "encoding/binary/decode.go"), ("field order and omitempty", "encoding/binary/metadata.go")],
  ["binary.Marshal", "binary.Unmarshal"])

p("C04", "Portable storage decoder survives any bytes from a peer",
  "Unmarshalling arbitrary bytes either succeeds or returns an error: it never panics, never loops without end, and never allocates memory out of proportion to the bytes received. Every proper prefix of a valid message is refused, and so are unknown fields, wrong signatures or versions, values whose type does not fit the receiving field, and fixed-size values of another size.",
  ["inputs", "fault_sequences"], "all byte strings: random, truncated, bit-flipped, field-retyped and size-inflated mutations of valid messages, for every message type of the protocol",
  "Tests feed only well-formed captures.",
  ["encoding/binary/decode.go", "encoding/binary/binary.go", "p2p/command.go", "p2p/notification.go"],
  [("bounded reads", "encoding/binary/decode.go: readValue, readVarInt, readName, decode")],
  ["binary.Unmarshal"])

p("C05", "Levin framing delivers exactly the packets that were sent",
  "A sequence of requests, notifications and replies written to a connection, from one goroutine or several at once, is read back as the same sequence of commands, notify/response flags and payloads, however the stream is fragmented, and each packet on the wire is the 33-byte little-endian Levin header followed by the payload. A wrong signature, a declared body above the packet limit, or a stream cut inside a packet gives an error without delivering a command, and memory is used in proportion to the bytes that came, not to what a header declares; a request succeeds only if answered by a response carrying the same command, and a packet that cannot be encoded or written whole gives its sender an error.",
  ["inputs", "fault_sequences"], "all sequences of packets with any command, payload and return code, all fragmentations of the stream, all cut points and header corruptions",
  "No test covers framing over a fragmented or failing stream.",
  ["p2p/levin.go"], [("header codec", "p2p/levin.go: bucketHead.encode/decode"), ("packet read/write", "p2p/levin.go: read, write, Invoke, Notify, Reply")],
  ["LevinProtocol.Invoke", "LevinProtocol.Notify", "LevinProtocol.Reply", "LevinProtocol.read"])

p("C06", "Every protocol message is parsed to its own type with its own content",
  "For each known command and notification number, the payload of a message of that type parses to a value equal to the one that was encoded, with fields carried under the protocol's names and packing (hash lists as concatenated 32-byte blobs, peer lists as packed 24-byte entries). Unknown numbers, payloads of another message type with foreign fields, packed fields of a wrong size, and damaged payloads are refused with an error and never panic.",
  ["inputs"], "all message types and field values, including empty and long hash, peer and block lists; arbitrary payload bytes under every message number",
  "Tests parse one capture for some of the message types.",
  ["p2p/command.go", "p2p/command_handshake.go", "p2p/notification.go", "p2p/notification_request_chain.go", "p2p/notification_response_get_objects.go"],
  [("number to type maps", "p2p/command.go: mapCommandStructs; p2p/notification.go: mapNotificationID"), ("parsers", "parseCommand, parseNotification")],
  ["parseCommand", "parseNotification"])

p("C07", "Transaction encoding is canonical and its hash identifies it",
  "Every well-formed transaction (coinbase or key inputs, key outputs, any extra, one signature per ring member) serialises to exactly the CryptoNote binary layout, and deserialising those bytes gives back the same transaction, size and serialisation. Bytes are accepted as a transaction only if re-serialising the result gives the very bytes that were read; the transaction hash is the Keccak-256 of the full serialisation and the prefix hash that of the unsigned part.",
  ["inputs"], "all transactions with 0..n inputs and outputs, all varint magnitudes, inputs with any number of ring members (also none) in any position, all alternative encodings of a transaction",
  "Tests decode a few real transactions; boundary integers, signature alignment and non-canonical encodings are not sampled.",
  ["cryptonote/transaction.go"], [("codec", "cryptonote/transaction.go: TransactionPrefix.serialize/deserialize, TransactionSignatures.serialize/deserialize"), ("hashes", "cryptonote/transaction.go: Hash")],
  ["Transaction.Serialize", "Transaction.Deserialize", "Transaction.Hash", "Transaction.Size", "TransactionPrefix.Hash"])

p("C08", "Block encoding is canonical and its hash identifies it",
  "Every block of each major version 1 to 5 serialises to exactly the CryptoNote layout of that version (merge-mining parent in versions 2 and 3, block signature in version 5) and deserialises back to the same block, with the timestamp and nonce the header or parent carries. Bytes are accepted only if re-serialising gives the bytes read, and the block hash is Keccak-256 of the length-prefixed hashing blob (header, Merkle root of coinbase and transaction hashes, transaction count, and for versions 2 and 3 the parent).",
  ["inputs"], "all blocks of versions 1..5, with any number of transaction hashes, any parent branch depth, any field values, and alternative encodings",
  "Tests decode a few captured blocks of versions 1 to 4; version 5, branch depths and non-canonical encodings are not reached.",
  ["cryptonote/block.go", "cryptonote/block_parent.go"], [("header", "cryptonote/block.go: BlockHeader.serialize/deserialize"), ("parent block", "cryptonote/block_parent.go"), ("hash", "cryptonote/block.go: HashingBytes, Hash")],
  ["Block.Serialize", "Block.Deserialize", "Block.Hash", "Block.HashingBytes"])

p("C09", "Block and transaction decoders survive any bytes",
  "Deserialising arbitrary bytes as a block or a transaction either succeeds or returns an error: no panic, no endless loop, no allocation out of proportion to the input. Anything accepted can be hashed, measured and re-serialised without panic, and every proper prefix of a valid encoding is refused.",
  ["inputs", "fault_sequences"], "all byte strings: random, truncated, spliced, bit-flipped and count-inflated mutations of valid blocks and transactions of all versions",
  "Tests use only valid captures.",
  ["cryptonote/block.go", "cryptonote/block_parent.go", "cryptonote/transaction.go", "cryptonote/transaction_extra.go", "p2p/notification.go"],
  [("bounds in decoders", "cryptonote/transaction.go: deserialize; cryptonote/block.go: Deserialize")],
  ["Block.Deserialize", "Transaction.Deserialize", "RawBlock.ToBlock"])

p("C10", "Transaction extra is parsed as the sequence of fields it contains",
  "Parsing an extra made of well-formed fields (32-byte public key, nonce up to 255 bytes, merge-mining tag, final zero padding) yields exactly the last value of each field present and nothing for absent ones. An unknown tag, a cut field, a nonce over 255 bytes, a merge-mining tag whose size is not 33, non-zero padding or padding of more than 255 bytes is refused with an error, and no byte string makes the parser panic.",
  ["inputs"], "all sequences of fields in any order and all byte strings, including huge declared sizes",
  "Only extras of captured transactions are parsed in tests.",
  ["cryptonote/transaction_extra.go"], [("tag loop", "cryptonote/transaction_extra.go: TxExtraFromBytes")],
  ["TxExtraFromBytes", "TransactionPrefix.ParseExtra"])

p("C11", "Merkle root and branch agree with the CryptoNote tree hash",
  "The Merkle root of any non-empty list of hashes is the CryptoNote tree hash of that list (a single hash is its own root), and does not modify the list. For every list, the branch of the first hash, built by the tree definition, leads from that hash to the same root.",
  ["inputs"], "all list lengths, in particular around powers of two, and all hash values",
  "Tests use a fixed table of lists; branches have no test.",
  ["crypto/hash.go"], [("tree hash", "crypto/hash.go: HashList.MerkleRootHash"), ("branch", "crypto/hash.go: HashList.TreeHashFromBranch")],
  ["HashList.MerkleRootHash", "HashList.TreeHashFromBranch"])

p("C12", "Hashing to bytes, scalars and curve points follows its definition",
  "Hashing any byte string gives its original-padding Keccak-256; the scalar of a hash is its little-endian value reduced modulo the group order; the point of a hash is eight times the CryptoNote hash-to-curve map, always a valid point of the prime-order subgroup.",
  ["inputs"], "all byte strings of all lengths around the sponge block size and all 32-byte hash values including those at multiples of the group order and field prime",
  "Fixtures cover a few hundred random vectors and no extreme values.",
  ["crypto/hash.go", "crypto/edwards25519/edwards25519.go"], [("keccak", "crypto/hash.go: Keccak, HashFromBytes, FromBytes"), ("scalar", "crypto/hash.go: toScalar; edwards25519 ScReduce32"), ("point", "crypto/hash.go: toEc, toPoint")],
  ["Keccak", "HashFromBytes", "Hash.toScalar", "Hash.toPoint"])

p("C13", "Public keys match their secrets and only curve points are valid keys",
  "For every secret scalar below the group order the public key is that multiple of the base point, and secrets at or above the order are refused. A 32-byte string is accepted as a public key exactly when it is the canonical encoding of a curve point; the derived view secret is the Keccak of the spend secret reduced modulo the order.",
  ["inputs"], "all 32-byte scalars and strings, with values around 0, the group order, the field prime, low-order points and both signs",
  "Fixtures contain random vectors only; boundary encodings are not in them.",
  ["crypto/key.go", "crypto/crypto.go", "crypto/edwards25519/edwards25519.go"], [("scalar check", "edwards25519 ScCheck"), ("base multiplication", "edwards25519 GeScalarMultBase"), ("decompression", "edwards25519 ExtendedGroupElement.FromBytes")],
  ["PublicFromSecret", "PublicKey.Check", "ViewFromSpend", "GenerateKey"])

p("C14", "Stealth outputs are recognised and spendable only by their owner",
  "Sender and recipient compute the same key derivation from each other's keys, equal to eight times the product of secret and point. For every output index the one-time public key derived from the recipient's spend key matches the one-time secret derived from the spend secret, undoing the derivation returns the spend key, and a different index or derivation gives a different key; invalid points and out-of-range secrets are refused.",
  ["inputs"], "all key pairs, all 64-bit output indexes, all invalid encodings",
  "Fixtures check single operations on random vectors, not the relations between them.",
  ["crypto/key_derivation.go"], [("derivation", "crypto/key_derivation.go: GenerateKeyDerivation, toScalar"), ("one-time keys", "derivePublicKey, deriveSecretKey, underivePublicKey")],
  ["GenerateKeyDerivation", "derivePublicKey", "deriveSecretKey", "underivePublicKey"])

p("C15", "Signatures verify for the signer's message and key and for nothing else",
  "Every signature made with a secret verifies for the same message hash and the matching public key, survives serialisation, and satisfies the Schnorr equation of the scheme. It does not verify for any other message or key or after any change of the signature, non-reduced or zero scalars and invalid keys are refused, and verification never panics.",
  ["inputs"], "all keys, messages and nonces, all single-bit changes of message, key and signature, scalars shifted by the group order",
  "Fixtures check given pairs; tampering and scalar malleability are not enumerated.",
  ["crypto/signature.go"], [("sign", "crypto/signature.go: Hash.Sign"), ("check", "crypto/signature.go: Signature.Check")],
  ["Hash.Sign", "Signature.Check", "Signature.Serialize", "Signature.Deserialize"])

p("C16", "Ring signatures prove membership, and nothing else passes",
  "For every ring, member position, message and the signer's key image, the generated ring signature verifies, whichever member signed. It does not verify for another message, key image or ring (a member replaced, or two distinct members swapped), nor after any change of any signature element or with scalars at or above the group order; a signer not in the ring or a wrong key image is refused, and verification never panics.",
  ["inputs"], "ring sizes 1..n, every signer position, all single-element tamperings",
  "Fixtures check given vectors (the verification fixture is missing from the tree), so tampering and positions are not covered.",
  ["crypto/signature.go"], [("generate", "crypto/signature.go: GenerateRingSignature"), ("verify", "crypto/signature.go: CheckRingSignature")],
  ["GenerateRingSignature", "CheckRingSignature"])

p("C17", "Key images are unique per key and lie in the valid domain",
  "The key image is the secret times the hash-to-point of the public key, so it depends on that key alone: the same output always yields the same image whatever the ring or message, different outputs yield different images, and out-of-range secrets are refused. Multiplying an image agrees with curve arithmetic: a genuine image times the group order is the identity, while an image with a small-order component is not.",
  ["inputs"], "all key pairs, all scalars, torsion points added to genuine images, invalid encodings",
  "Fixtures give random vectors; domain violations are not tested.",
  ["crypto/key_image.go"], [("image", "crypto/key_image.go: GenerateKeyImage"), ("domain multiplication", "crypto/key_image.go: KeyImage.ScalarMult")],
  ["GenerateKeyImage", "KeyImage.ScalarMult"])

p("C18", "Checkpoints pin history exactly and always answer",
  "After any sequence of additions, the checkpoint zone is exactly the heights up to the highest checkpoint (none while genesis is the only one), a block at a checkpointed height passes only with the pinned hash, heights without checkpoint always pass, and a second checkpoint for a height is refused without changing the first. An alternative block is refused at height 0, when deeper than the unlock window outside the zone, or at or below the highest checkpoint not above the chain size, and allowed otherwise; every query returns.",
  ["histories", "inputs"], "all sequences of additions in any order (including height 0 and repeats) and all queries of height, hash and chain size",
  "Tests use one small list of points and did not reach the branch that deadlocked.",
  ["config/checkpoints.go"], [("points", "config/checkpoints.go: AddCheckpoint, CheckBlock, IsInCheckpointZone"), ("reorg limit", "config/checkpoints.go: AlternativeBlockAllowed")],
  ["Checkpoints.AddCheckpoint", "IsInCheckpointZone", "CheckBlock", "AlternativeBlockAllowed"])

p("C19", "Block reward follows the emission curve and the size penalty",
  "The reward of a block is the base reward (the remaining supply divided by 2^18, or from the tail on 2% of the issued coins per year of 360 blocks a day) with the quadratic size penalty applied to base reward and fees when the block exceeds the larger of the median and the full-reward zone of its version. A block over twice that size is refused, coins created always equal the reward minus the fees, and a larger block never earns more.",
  ["inputs"], "all issued amounts, medians, block sizes, fees and versions in the range the chain can reach, with sizes around the zone and twice the zone",
  "No test evaluates the reward.",
  ["config/network.go", "config/params.go", "utils/math.go"], [("reward", "config/network.go: GetBlockReward, calculateReward, getPenalizedAmount")],
  ["Network.GetBlockReward"])

p("C20", "Difficulty is the published function of the recent window",
  "For every height, version and full window of timestamps and cumulative difficulties (within the 64-bit range of the algorithm) the next difficulty equals the algorithm of that version (cut-median window for 1, simple window for 2, weighted averages for 3, 4 and 5 with their clamps), is never below the network minimum where one applies, and depends only on the window. If blocks arrive exactly on target at constant difficulty, the next difficulty stays within 2% of it; with uniformly slower blocks it is never higher than with faster ones within each algorithm's range.",
  ["inputs", "histories"], "all windows of timestamps (also unordered) and difficulties, all versions, heights on both sides of algorithm switches, networks with and without minimum difficulty",
  "No test evaluates the difficulty.",
  ["config/network.go"], [("algorithms", "config/network.go: NextDifficulty, nextDifficultyV1..V5")],
  ["Network.NextDifficulty", "Network.DifficultyBlocksCountByBlockVersion"])

p("C21", "Consensus schedule is a fixed function of height",
  "For every height the block version is the highest upgrade whose height lies below it, and the size limits, minimum fees, timestamp windows, future limits and full-reward zones are the documented step functions of height or version; repeated evaluation always gives the same answer. Maximum block size never decreases with height, the fee for extra data never decreases with its size, an amount is a valid decomposed amount exactly when it is a non-zero digit followed by zeros, and an unlock time is a height if below 500 million, reached one block early, and otherwise a time, reached 240 seconds early.",
  ["inputs"], "all 32-bit heights, in particular around every upgrade height, all versions, sizes and amounts",
  "Version selection iterated a map, so one run of a test cannot settle it, and heights are not sampled.",
  ["config/network.go", "config/params.go", "cryptonote/chain.go"], [("upgrades", "config/network.go: GetBlockMajorVersion"), ("limits", "config/network.go: MaxBlockSize, MaxTransactionSize, MinimalFee, MinimalFeeValidator, GetFeePerByte, IsValidDecomposedAmount"), ("unlock times", "cryptonote/chain.go: IsTransactionSpendTimeUnlocked")],
  ["Network methods", "BlockChain.IsTransactionSpendTimeUnlocked"])

p("C22", "Wide arithmetic, medians and amount digits are exact",
  "128-bit products and their division by a 32-bit number equal the exact integers, clamps, minima and maxima match their definitions, and the median of a list is its middle value or the floored mean of the two middle values whatever the order of the list. Splitting an amount with a dust threshold gives one dust part, the value of its longest run of low digits not above the threshold (if non-zero), and one part per remaining non-zero digit, so the parts sum to the amount. Lists of output indexes are recognised as sorted and as free of repetition exactly when they are, and output keys are never looked up for a list that is empty, out of order or repeats.",
  ["inputs"], "all 64-bit operands including all-ones patterns, all lists, all amounts and thresholds",
  "Tests check four medians and nothing else.",
  ["utils/math.go", "utils/slices.go", "cryptonote/utils.go"], [("128-bit", "utils/math.go: Mul128, Div128p32"), ("median", "utils/math.go: MedianSlice"), ("digits", "cryptonote/utils.go: DecomposeAmountIntoDigits")],
  ["utils.Mul128", "utils.Div128p32", "utils.MedianSlice", "DecomposeAmountIntoDigits"])

p("C23", "Block storage behaves like a map of accepted blocks",
  "After any sequence of operations the in-memory storage answers lookups by hash and by index exactly as a map of the successfully pushed blocks would, and its top is the pushed block of the highest index. A push is refused, without any effect, when the hash or the index is already taken or when the accompanying info does not carry the block's own hash and index.",
  ["histories"], "all sequences of push, lookup and top queries, with duplicate, conflicting, gapped and mismatching pushes",
  "No test exercises the storage.",
  ["cryptonote/storage_memory.go", "cryptonote/storage.go"], [("append checks", "cryptonote/storage_memory.go: appendBlock")],
  ["Storage.Init", "PushBlock", "HaveBlock", "GetBlock", "HashAtIndex", "TopBlock", "TopIndex"])

p("C24", "A block is added exactly when it satisfies every consensus rule",
  "A block extending the chain is accepted when its version, parent limits, timestamp (not before the median of the window of preceding blocks, not beyond the future limit), coinbase (one base input with the block's height, unlock height, no signatures, valid outputs, reward exactly as earned), size, transaction list, version-5 signature and checkpoint all satisfy the rules of its height. Changing any one of these so that a rule is violated makes the same block refused with an error and leaves the chain unchanged.",
  ["inputs", "configurations"], "blocks at any height of the schedule in every block version, every single-rule violation including values one beyond each limit",
  "No test adds a block.",
  ["cryptonote/chain.go", "cryptonote/difficulty.go", "config/network.go"], [("checks", "cryptonote/chain.go: AddBlock, validateBlock"), ("difficulty window", "cryptonote/difficulty.go")],
  ["BlockChain.AddBlock"])

p("C25", "The chain only grows by whole, valid, linked blocks",
  "Under any sequence of accepted and refused blocks the chain is the genesis block that its network defines, followed by the accepted ones: each successor links to the previous block's hash at the next height, height is the number of blocks, the top is the last accepted block, and membership is true for exactly those blocks. A refused block (duplicate, orphan, fork, invalid, not taken by the storage) changes nothing that can be observed, and does not influence which later blocks are accepted or the rewards and sizes they are checked against.",
  ["histories"], "all sequences of valid, duplicate, orphaned, side-chain, reordered and corrupted blocks and failures to store them from genesis, on main and test networks",
  "No test adds a block.",
  ["cryptonote/chain.go", "cryptonote/storage_memory.go"], [("AddBlock ordering of checks before push", "cryptonote/chain.go: AddBlock"), ("genesis", "cryptonote/chain.go: GenesisBlock, Init")],
  ["BlockChain.AddBlock", "HaveBlock", "TopBlock", "Height", "BuildSparseChain"])

p("C26", "The sparse chain locates any fork logarithmically",
  "For every chain the sparse chain lists the top block first, then the blocks 1, 2, 4, 8, ... below the top while that distance is less than the top's height, and ends with the genesis block, without repetition. A chain with only genesis gives just the genesis block, and a storage that cannot answer for one of those blocks gives an error, never another list.",
  ["inputs"], "chains of every length",
  "No test builds a sparse chain.",
  ["cryptonote/chain.go", "p2p/notification_request_chain.go"], [("exponential walk", "cryptonote/chain.go: BuildSparseChain")],
  ["BlockChain.BuildSparseChain", "NewRequestChain"])

p("C27", "Transactions in a block obey amount, fee, input and output rules",
  "Within a block a transaction is accepted only if it has inputs, no key image repeats in the transaction or the block, every ring has members and no zero relative offset after the first, outputs are non-zero with valid keys (and pretty amounts from version 5), sums do not overflow, outputs do not exceed inputs, the fee reaches the minimum of the height plus the extra-data fee unless it is a genuine fusion, and mixin and size limits hold; otherwise the block is refused. The block must list the transactions' hashes in order, without duplicates or undecodable or trailing bytes, and outside the checkpoint zone key images must lie in the prime-order subgroup and ring signatures must verify.",
  ["inputs", "histories"], "all transactions and sets of transactions in a block, at all heights of the fee and mixin schedule, each rule violated singly and at its exact limit",
  "No test validates a transaction.",
  ["cryptonote/transaction_validator.go", "cryptonote/chain.go", "config/network.go"], [("validator", "cryptonote/transaction_validator.go: validateInputs, validateOutputs, validateTransactionFee, validateTransactionExtra, validateTransactionMixin, IsFusionTransaction"), ("block transaction list", "cryptonote/chain.go: AddBlock, deserializeTransactions")],
  ["BlockChain.AddBlock", "IsTransactionSpendTimeUnlocked"])

p("C28", "Sync accepts from a peer only what was asked for",
  "Whatever a peer sends, the node requests from it only blocks it announced, from the first one the node lacks onward and at most 128 per request, and adds only blocks it had requested from that peer. An empty or unknown-rooted or over-long chain entry, an empty object list, an unrequested, undecodable or duplicate block, a transaction count mismatch, a height below the peer's last response, missing objects, and a chain request that is empty or does not end in the own genesis block drop the peer with an error and leave the chain unchanged; no message panics the node or writes files. With an honest peer whose blocks are valid, synchronising ends with the peer's whole chain.",
  ["histories", "fault_sequences"], "all sequences of chain entries, object responses and other messages, valid and hostile",
  "No test drives the protocol handlers.",
  ["p2p/node.go", "p2p/peer.go", "p2p/notification_response_get_objects.go"], [("handlers", "p2p/node.go: handleNotification; p2p/notification_response_get_objects.go: HandleResponseGetObjects"), ("request window", "p2p/peer.go: requestMissingBlocks")],
  ["Node.handleNotification", "Node.handleCommand"])

p("C29", "Only compatible peers are admitted, each listed once",
  "A handshake, in either direction, succeeds only with a peer of the same network and at least the minimum protocol version, an incoming peer is admitted once and only from an incoming connection, and otherwise the peer is dropped without being recorded. A peer's sync data leads to synchronising exactly when its top block is unknown; the peer store lists each identified peer exactly once, under the address of its connection with the octets in the protocol's order, white or grey as it was last moved, and never lists a peer without an ID.",
  ["histories", "inputs"], "all network ids, versions, states, sync data and sequences of admissions, promotions and demotions",
  "Tests only decode handshake captures.",
  ["p2p/command_handshake.go", "p2p/peer.go", "p2p/peerstore.go", "p2p/node.go"], [("checks", "p2p/command_handshake.go: HandleHandshake; p2p/peer.go: handshake; p2p/node.go: processSyncData"), ("lists", "p2p/peerstore.go")],
  ["Node.HandleHandshake", "Peer.handshake", "peerStore"])

p("C30", "Shared state stays consistent under concurrent use",
  "Any number of goroutines adding blocks and querying the chain, storage, checkpoints and peer lists at once proceed without data races, deadlocks or panics. The outcome is that of some sequential order: of competing blocks for one height exactly one is accepted, readers only ever see accepted blocks and a height that never goes back.",
  ["schedules", "histories"], "concurrent mixes of operations on one chain, storage, checkpoint set and peer store, under the race detector",
  "All tests are single-threaded.",
  ["cryptonote/chain.go", "cryptonote/storage_memory.go", "config/checkpoints.go", "p2p/peerstore.go"], [("locks", "sync.RWMutex in BlockChain, memoryStorage, checkpoints, peerStore")],
  ["BlockChain", "Storage", "Checkpoints", "peerStore"])

p("C31", "A running node serves every peer on its own and stops when told",
  "While a node runs it takes connections and answers proper handshakes and syncs whatever other connections do: silence, noise, cut or oversized packets, refused handshakes, resets, calls that nobody takes. However many connections come, at once or over time, all are served; connections of dropped peers are closed. When the context given to Run ends, at any moment, Run returns without an error within seconds, every connection in either direction is closed, the port is free again and no goroutine of the node stays, without panics or data races; Run returns neither before that nor while a message from a peer is still being handled.",
  ["histories", "schedules", "fault_sequences"], "all sets of connections, what their other ends do, and the moments at which the node is stopped or connections arrive",
  "No test runs a node.",
  ["p2p/node.go", "p2p/levin.go", "p2p/peer.go"], [("life of a node", "p2p/node.go: Run, runListener, handleIncomingConnection, syncWithAddr, connectionHandler")],
  ["Node.Run", "TCP connections", "goroutines"])

p("C32", "Scalar, field and curve arithmetic is exact",
  "For all 256-bit operands the scalar operations of the edwards25519 package (sum, difference, product plus or minus a third, reduction of 32 and 64 bytes) give the canonical value modulo the group order, and the range and zero tests are exact. Field elements within the documented limb bounds add, subtract, multiply, square, invert, negate, decode and encode exactly modulo 2^255-19. Points in any coordinates encode, add, subtract, double and multiply (by the base, one or two scalars below 2^255) as the Edwards curve defines, and the order test is zero exactly for points of the prime-order subgroup.",
  ["inputs"], "all scalars, field elements and points, limbs at every carry boundary",
  "No test of the repository calls the package directly; fixtures reach it with random-looking values, which never hit the carries that decide.",
  ["crypto/edwards25519/edwards25519.go", "crypto/edwards25519/const.go"], [("scalars", "crypto/edwards25519/edwards25519.go: ScAdd, ScSub, ScMulSub, ScMulAdd, ScReduce32, ScReduce, ScCheck"), ("field", "crypto/edwards25519/edwards25519.go: Fe*"), ("group", "crypto/edwards25519/edwards25519.go: Ge*")],
  ["edwards25519.Sc*", "edwards25519.Fe*", "edwards25519.Ge*"])

p("C33", "The daemon serves the main network and ends cleanly when interrupted",
  "Whatever its configuration file, variables, arguments and working directory are, krbd serves handshakes of the main network with its genesis block on 127.0.0.1:32447, and interrupted at any moment after it says that it started, once or more, whatever its clients do, it ends with exit code 0 within seconds, frees its port and leaves no files; it goes on serving after it ran out of file descriptors. With help or version it prints and ends with code 0, with an unknown flag or a port in use it ends with another code, without serving.",
  ["histories", "schedules", "configurations"], "all configurations, clients and moments of interruption",
  "No test runs the program.",
  ["cmd/root.go", "krbd.go", "p2p/node.go"], [("command", "cmd/root.go: handleCommand, interruptListener, initConfig")],
  ["krbd"])

p("C34", "Keys, signature nonces and ring decoys are fresh randomness",
  "Every generated key and random scalar, the nonce of every signature and ring signature, and every scalar of the other members of a ring is the reduction modulo the group order of 64 bytes of the system's randomness that serve nothing else, whatever those bytes are and in whatever pieces they come. A signature never uses a nonce below 2^224, and when the randomness fails nothing is generated or signed.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences, pieces and failures of the source of randomness, all sequences of draws",
  "Tests see a few signatures and cannot tell a repeated nonce, which gives the secret away.",
  ["crypto/crypto.go", "crypto/key.go", "crypto/signature.go"], [("scalar", "crypto/crypto.go: RandomScalar"), ("nonces", "crypto/signature.go: Sign, GenerateRingSignature")])

p("C40", "Blocks outside the checkpoint zone need sufficient proof of work",
  "Outside the checkpoint zone a block is accepted only if its CryptoNight proof-of-work hash meets the difficulty of its height.",
  ["inputs"], "all blocks", "Not implemented in the tree: the check is a TODO stub.",
  ["cryptonote/chain.go"], [("stub", "cryptonote/chain.go: checkProofOfWork")])

p("C41", "No output is spent twice across the whole chain",
  "A key image recorded by an accepted block is never accepted again in a later block, and a transaction already in the chain is never accepted again.",
  ["histories"], "all chains", "Not implemented in the tree: the global spent-image and transaction indexes are TODO stubs.",
  ["cryptonote/chain.go"], [("stubs", "cryptonote/chain.go: IsSpent, hasTransaction, ExtractKeyOutputKeys")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
