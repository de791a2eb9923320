#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py)
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Base58 encoding is a bijection onto its canonical strings",
  "Every byte string encodes to Base58 text (8-byte blocks, fixed encoded width per block size) that decodes back to exactly those bytes. Every string the decoder accepts is the encoding of what it decoded to; every other string (foreign characters, impossible block lengths, values that overflow their block) is refused with an error, and neither direction ever panics.",
  ["inputs"], "all byte strings and all strings, every block length 0..8/0..11, every character at every position, around every overflow boundary",
  "The tests check a table of a few dozen vectors; the decoder's overflow and length rules interact at boundaries no table samples.",
  ["crypto/base58/base58.go"], [("Encode/encodeBlock", "crypto/base58/base58.go"), ("Decode/decodeBlock", "crypto/base58/base58.go")], observe=["base58.Encode", "base58.Decode"])

p("C02", "Address text round-trips and damaged addresses are refused",
  "An address built from a tag and two keys renders to text that parses back to the same tag and keys, whatever the tag and key bytes. Text whose checksum does not match, whose payload is not exactly a tag and two keys, or that is not valid Base58 is refused with an error, never panics, and leaves the receiving address as it was.",
  ["inputs"], "all tags (every varint width) and key bytes, every single-character change, swap, truncation and extension of an address, every payload length with a valid checksum",
  "Tests use a handful of known addresses; none damages an address or uses other tag widths.",
  ["cryptonote/address.go", "crypto/base58/base58.go"], [("FromString/addressDecode", "cryptonote/address.go"), ("Base58/addressEncode", "cryptonote/address.go")], observe=["Address.FromString", "Address.Base58"])

p("C03", "Key derivation agrees for both parties and rejects invalid keys",
  "For every key pair (r, R) and (v, V), the derivation from R with v equals the derivation from V with r; the public key derived from it for any output index belongs to the secret key derived from it for the same index, different indexes give different keys, and un-deriving a derived public key gives the original back. Non-canonical secret keys and public keys that are not points are refused with an error, not a wrong result.",
  ["inputs"], "all pairs of keys from a boundary alphabet of scalars, all varint widths of output index, all malformed key encodings of the alphabet",
  "Tests replay recorded vectors for each primitive separately, never the agreement between the two parties.",
  ["crypto/key_derivation.go", "crypto/key.go", "crypto/edwards25519/edwards25519.go"], [("GenerateKeyDerivation", "crypto/key_derivation.go"), ("deriveSecretKey/derivePublicKey/underivePublicKey", "crypto/key_derivation.go"), ("PublicFromSecret", "crypto/key.go")], observe=["crypto.GenerateKeyDerivation", "crypto.PublicFromSecret"])

p("C04", "Signatures verify for their key and message and for nothing else",
  "A signature made with a secret key, whatever random numbers the signer draws, verifies for the matching public key and the signed hash. It stops verifying after any change of a bit of the hash, of the public key or of the signature, and non-canonical scalars, zero scalars and invalid public keys are refused without a panic.",
  ["inputs"], "all secret keys, hashes and random streams of a boundary alphabet (including streams that force the signer to retry), every single-bit change, every non-canonical re-encoding",
  "Tests replay recorded signatures with an uncontrolled random source and change nothing in them.",
  ["crypto/signature.go", "crypto/edwards25519/edwards25519.go", "crypto/crypto.go"], [("Sign", "crypto/signature.go"), ("Signature.Check", "crypto/signature.go"), ("RandomScalar", "crypto/crypto.go")], observe=["Hash.Sign", "Signature.Check"])

p("C05", "Ring signatures prove one member and link by key image",
  "A ring signature made for any ring position verifies for its prefix hash, key image and ring, and for no other hash, image, ring order, ring member or signature bits; a number of signatures different from the ring size is refused. The key image depends only on the signer's key, so two signatures of one key carry the same image and different keys carry different images, and signing refuses keys, images or positions that do not belong together.",
  ["inputs"], "all ring sizes up to a bound, all signer positions, all random streams of an alphabet, every single substitution, permutation and bit change of the verified data",
  "Tests replay recorded ring signatures; they do not change a verified input or exercise every position.",
  ["crypto/signature.go", "crypto/key_image.go", "crypto/edwards25519/edwards25519.go"], [("GenerateRingSignature", "crypto/signature.go"), ("CheckRingSignature", "crypto/signature.go"), ("GenerateKeyImage", "crypto/key_image.go")], observe=["crypto.GenerateRingSignature", "crypto.CheckRingSignature", "crypto.GenerateKeyImage"])

p("C06", "Merkle root and branch follow the CryptoNote tree hash",
  "The Merkle root of any non-empty list of hashes equals the CryptoNote tree hash of that list, for every list length, and never modifies the list. For every list the branch of its first element leads from that element to the same root, and changing, swapping or dropping any element changes the root.",
  ["inputs"], "all list lengths up to a bound, every position changed, every adjacent swap, first-leaf branches of every length",
  "Tests use one or two recorded lists; the shape of the tree changes at every power of two.",
  ["crypto/hash.go"], [("MerkleRootHash", "crypto/hash.go"), ("TreeHashFromBranch", "crypto/hash.go")], observe=["HashList.MerkleRootHash", "HashList.TreeHashFromBranch"])

p("C07", "Every protocol message survives encoding and decoding",
  "For every peer-to-peer command and notification and every combination of field values (integer boundaries, empty and multi-element lists, lengths around each size-prefix width), decoding the encoded message returns an equal message, and the bytes are those of the portable key-value storage format: header, field names, type tags, size prefixes and little-endian values. Encoding the same message twice gives the same bytes.",
  ["inputs"], "all message types, all combinations of boundary values of their fields, list and blob lengths around 63/64, 16383/16384 and beyond",
  "Tests decode recorded messages of three types and round-trip one struct.",
  ["encoding/binary/encode.go", "encoding/binary/decode.go", "encoding/binary/metadata.go", "p2p/command.go", "p2p/notification.go"], [("Marshal", "encoding/binary/encode.go"), ("Unmarshal", "encoding/binary/decode.go"), ("message structs", "p2p/notification.go")], observe=["binary.Marshal", "binary.Unmarshal"])

p("C08", "Hostile protocol payloads are refused without harm",
  "Decoding any byte string into any protocol message returns an error or a message and never panics, hangs or allocates memory out of proportion to the bytes received. Every proper prefix of a valid message, every message whose value has another type or another fixed size than the field, every unknown field and every foreign header is refused with an error.",
  ["inputs"], "all truncations of valid messages, all single-byte values at every position, all type tags for all fields, all size prefixes from an alphabet of boundary and lying sizes",
  "Tests only decode well-formed recorded messages.",
  ["encoding/binary/decode.go", "encoding/binary/binary.go", "encoding/binary/header.go"], [("decoder", "encoding/binary/decode.go"), ("Unmarshal", "encoding/binary/binary.go")], observe=["binary.Unmarshal"])

p("C09", "Frames are delivered whole whatever the network does to them",
  "A sequence of request, response and notification frames arrives as exactly the same sequence of command, kind and payload, however the bytes are split into reads. A frame with a wrong signature, an announced size over the 100 MB limit or an early end of stream is reported as an error and yields no message, a failed or cut write is reported, and a call that awaits a response accepts only a response to its own command.",
  ["inputs", "fault_sequences"], "all fragmentations of short frame sequences, all cut points, all corrupted header bytes, all combinations of request and answer commands and flags",
  "No test covers framing; TCP may split or cut a stream anywhere.",
  ["p2p/levin.go"], [("LevinProtocol.read", "p2p/levin.go"), ("LevinProtocol.write", "p2p/levin.go"), ("Invoke/Notify/Reply", "p2p/levin.go")], observe=["LevinProtocol.Invoke", "LevinProtocol.Notify", "LevinProtocol.Reply"])

p("C10", "Blocks and transactions round-trip and their identifiers are stable",
  "Serializing any block (versions 1 to 5, with or without parent block, signature and transactions) or transaction made of coinbase and key inputs and key outputs and deserializing it, whatever the receiving object held before, yields an equal value with the same identifier, size and bytes. Identifiers are the Keccak hashes the CryptoNote format defines, computed by an independent implementation, and distinct contents (any changed field) have distinct identifiers.",
  ["inputs"], "all combinations of header versions, parent block shapes, input and output shapes and integer boundary values up to a bound; every single field changed",
  "Tests round-trip three recorded blocks and one transaction.",
  ["cryptonote/block.go", "cryptonote/block_parent.go", "cryptonote/transaction.go"], [("Block.Serialize/Deserialize/Hash", "cryptonote/block.go"), ("ParentBlock codec", "cryptonote/block_parent.go"), ("Transaction codec", "cryptonote/transaction.go")], observe=["Block.Serialize", "Block.Deserialize", "Block.Hash", "Transaction.Hash"])

p("C11", "Hostile block and transaction bytes are refused without harm",
  "Decoding any byte string as a block or a transaction returns an error or a value and never panics, hangs or allocates memory out of proportion to its size. Every proper prefix of a valid encoding is refused, as are unknown versions, unknown input or output kinds, integers outside their field's range and parent blocks without a usable merge-mining tag; whatever is accepted re-serializes and hashes without a panic.",
  ["inputs"], "all truncations, all single-byte values at all positions, all oversize and overflowing integers at every integer position of valid encodings of every version",
  "Tests only decode well-formed recorded data.",
  ["cryptonote/block.go", "cryptonote/block_parent.go", "cryptonote/transaction.go"], [("decoders", "cryptonote/transaction.go"), ("header decoder", "cryptonote/block.go"), ("parent decoder", "cryptonote/block_parent.go")], observe=["Block.Deserialize", "Transaction.Deserialize"])

p("C12", "Transaction extra is parsed exactly as the format defines",
  "For every byte string in the extra field, parsing agrees with the CryptoNote extra format: padding must be zero to the end, a public key is 32 bytes, a nonce is at most 255 bytes of declared length, a merge-mining tag declares 33 bytes and carries a depth and a root, repeated fields keep the last value, and an unknown tag or a cut field is an error. Parsing never panics and never reads beyond the field.",
  ["inputs"], "all sequences of up to a few fields from an alphabet of well-formed, cut and lying fields, padding and nonces around their limits",
  "No test covers malformed or combined extra fields.",
  ["cryptonote/transaction_extra.go"], [("TxExtraFromBytes", "cryptonote/transaction_extra.go")], observe=["TransactionPrefix.ParseExtra", "TxExtraFromBytes"])

p("C13", "Consensus version and limits are pure functions of the height",
  "For every height the block version is the highest one whose upgrade height lies below it, and it, with every version- or height-dependent limit (maximum block size, maximum transaction size, minimum fee, timestamp window, future limit, difficulty window, reward zone, fusion size), equals the published Karbo schedule. The answer is the same on every call, whatever order internal tables are walked in.",
  ["inputs", "schedules"], "all heights around every upgrade height, all versions, all iteration orders of the upgrade table",
  "No test checks the schedule; a map iteration order is chosen anew on every call.",
  ["config/network.go", "config/params.go"], [("GetBlockMajorVersion", "config/network.go"), ("MaxBlockSize, MaxTransactionSize, MinimalFee, MinimalFeeValidator, GetFeePerByte", "config/network.go")], observe=["Network methods"])

p("C14", "Block reward follows the emission rule exactly",
  "For every version, median size, block size, amount already generated and fee, the reward is the emission rule's: base reward by the emission curve or the 2% tail, the penalty for blocks above the median (median floored at the version's full-reward zone), the penalized fee added, and the emission change equal to reward minus fee. Blocks over twice the effective median are refused, and for every size the protocol allows the arithmetic is exact, without intermediate overflow.",
  ["inputs"], "all combinations of boundary and interior values of the five arguments, compared with arbitrary-precision arithmetic",
  "No test covers the reward.",
  ["config/network.go", "utils/math.go"], [("GetBlockReward", "config/network.go"), ("getPenalizedAmount", "config/network.go"), ("Mul128/Div128p32", "utils/math.go")], observe=["Network.GetBlockReward"])

p("C15", "Difficulty retargeting follows each version's published formula",
  "For every version the next difficulty computed from a window of timestamps and cumulative difficulties equals the formula of that version (windowed cut, average, LWMA and its later variants, and the version 5 epoch reset) evaluated independently, including its clamps, rounding, minimum difficulty and start-up cases. The result is independent of what was computed before.",
  ["inputs"], "all windows built from an alphabet of solve-time and difficulty patterns with up to two deviations at any position, all window lengths the version can see, heights around each change of rules",
  "No test covers difficulty.",
  ["config/network.go", "cryptonote/difficulty.go"], [("NextDifficulty", "config/network.go"), ("difficultyForNextBlock", "cryptonote/difficulty.go")], observe=["Network.NextDifficulty"])

p("C16", "Amounts decompose into canonical digits and conserve the sum",
  "For every amount and dust threshold the decomposition into digits and dust sums to the amount; every digit chunk is one non-zero decimal digit times a power of ten, in ascending order, and the dust collects exactly the low digits that stay within the threshold. The set of valid decomposed amounts is exactly the single-digit multiples of powers of ten up to 10^19.",
  ["inputs"], "all amounts below a bound and all digit patterns with boundary digits over the 64-bit range, all thresholds of an alphabet",
  "No test covers decomposition.",
  ["cryptonote/utils.go", "cryptonote/chain.go", "config/network.go", "config/params.go"], [("DecomposeAmountIntoDigits", "cryptonote/utils.go"), ("IsValidDecomposedAmount", "config/network.go")], observe=["DecomposeAmountIntoDigits", "BlockChain.DecomposeAmount", "Network.IsValidDecomposedAmount"])

p("C17", "Checkpoints answer like a sorted table and never deadlock",
  "After any sequence of additions in any order, a height is in the checkpoint zone exactly when it is at or below the highest checkpoint (a lone checkpoint at 0 makes no zone), a block at a checkpointed height is accepted only with the recorded hash and any block elsewhere passes, an existing checkpoint is never replaced, and alternative blocks are allowed exactly above the last checkpoint at or below the chain size, beyond genesis and, outside the zone, within the unlock window. Every call returns, and concurrent additions and queries are linearizable and free of data races.",
  ["histories", "schedules"], "all operation sequences up to a depth over colliding heights and hashes; all interleavings up to a preemption bound of two to three threads",
  "Tests run a few fixed sequential scenarios; none is concurrent.",
  ["config/checkpoints.go"], [("AddCheckpoint", "config/checkpoints.go"), ("IsInCheckpointZone", "config/checkpoints.go"), ("CheckBlock", "config/checkpoints.go"), ("AlternativeBlockAllowed", "config/checkpoints.go")], state=[("points/pointsSorted", "the checkpoint table and its sorted index", "config/checkpoints.go")], observe=["config.Checkpoints"])

p("C18", "Block storage behaves like an indexed list of blocks",
  "After any sequence of block insertions, accepted or refused, the storage knows a block by its hash and by its height exactly when it was accepted, a refused insertion (known hash, taken height, description that does not match the block) changes nothing, and the top is the accepted block of greatest height. Concurrent readers and a writer see only states of this list, without data races or deadlock.",
  ["histories", "schedules"], "all insertion sequences up to a depth over blocks colliding in hash or height; all interleavings up to a preemption bound of a writer and readers",
  "No test covers the storage directly.",
  ["cryptonote/storage_memory.go", "cryptonote/storage.go"], [("PushBlock", "cryptonote/storage_memory.go"), ("lookups", "cryptonote/storage_memory.go")], state=[("hash and height indexes", "must agree", "cryptonote/storage_memory.go")], observe=["cryptonote.Storage"])

p("C19", "A block is accepted exactly when it obeys the consensus rules",
  "A block offered to the chain is accepted if and only if it obeys every rule of its era: known previous block with matching height, right version, timestamp neither beyond the future limit nor before the median of its window, well-formed coinbase (one coinbase input of the right height, exact unlock height, no signatures, positive outputs with valid keys, no overflow, extra within limits, and from version 5 one key output and no merge-mining tag), size within the limit, reward exactly as emitted, transactions as listed, version 5 miner signature and the checkpoint hash where there is one. A refused block reports an error and leaves the chain unchanged.",
  ["inputs", "histories"], "a valid block of every era with every rule broken alone and in pairs, each rule at its boundary, at every upgrade height",
  "One test builds an empty chain; no test offers a block.",
  ["cryptonote/chain.go", "config/network.go"], [("AddBlock", "cryptonote/chain.go"), ("validateBlock", "cryptonote/chain.go")], observe=["BlockChain.AddBlock"])

p("C20", "The chain grows one block at a time and its totals add up",
  "After any sequence of valid, invalid, duplicate, orphan and competing blocks, the chain holds exactly the accepted ones: the top is the last accepted block, each block's predecessor is the block one below, height is the number of blocks, every accepted block can be found and no refused one can. The recorded totals (coins generated, transactions, cumulative difficulty, size, timestamp) of every block are its predecessor's plus its own contribution.",
  ["histories"], "all sequences up to a depth over an alphabet of valid, invalid, duplicate, orphan and side-branch blocks, starting from several chain lengths",
  "No test adds a block.",
  ["cryptonote/chain.go", "cryptonote/storage_memory.go", "cryptonote/block_info.go"], [("AddBlock", "cryptonote/chain.go"), ("PushBlock", "cryptonote/storage_memory.go")], state=[("best tip and block infos", "the chain and its running totals", "cryptonote/chain.go")], observe=["BlockChain.TopBlock", "BlockChain.Height", "BlockChain.HaveBlock", "BlockChain.BuildSparseChain"])

p("C21", "Transactions in a block are accepted exactly by the money rules",
  "Within a block a transaction is accepted if and only if: inputs and outputs sum without overflow and inputs cover outputs, the fee reaches the era's minimum (including the charge for a large extra) or it is a proper fusion transaction, no key image repeats in the transaction or in the block, ring members are distinct and non-empty, output amounts are positive (and canonical from version 5), output keys are valid, ring size is within the era's limits and size within its limit. The fees of the accepted transactions, and nothing else, are added to the reward the miner may claim.",
  ["inputs"], "a valid transaction of every era with every rule broken alone and in pairs, each at its boundary, and blocks of several transactions sharing key images",
  "No test validates a transaction.",
  ["cryptonote/transaction_validator.go", "cryptonote/chain.go"], [("validate", "cryptonote/transaction_validator.go"), ("AddBlock", "cryptonote/chain.go")], observe=["BlockChain.AddBlock"])

p("C22", "The sparse chain lists the right blocks for synchronization",
  "For every chain length the locator sent to peers starts with the top block, continues with the blocks at distances 1, 2, 4, 8 and so on below it, ends with the genesis block, and contains no duplicates and no block that is not in the chain. It is consistent with a single top even while blocks are being added.",
  ["inputs", "schedules"], "all chain lengths up to a bound; all interleavings of building the list with adding blocks up to a preemption bound",
  "One test checks a chain of one block.",
  ["cryptonote/chain.go", "p2p/notification_request_chain.go"], [("BuildSparseChain", "cryptonote/chain.go")], observe=["BlockChain.BuildSparseChain"])

p("C23", "Concurrent block additions and reads are linearizable",
  "When several connections add blocks while others read the top, the height and the presence of blocks, every outcome equals that of some sequential order of the same calls: of several attempts to add one block exactly one succeeds, of two competing blocks at one height exactly one is kept, and no reader sees a top that is not stored. There is no data race and no deadlock under any schedule.",
  ["schedules"], "all interleavings up to a preemption bound of two or three threads adding colliding blocks and reading",
  "Tests are single-threaded.",
  ["cryptonote/chain.go", "cryptonote/storage_memory.go", "config/checkpoints.go"], [("AddBlock", "cryptonote/chain.go"), ("TopBlock/Height/HaveBlock", "cryptonote/chain.go")], observe=["BlockChain.AddBlock", "BlockChain.TopBlock", "BlockChain.Height", "BlockChain.HaveBlock"])

p("C24", "The inbound handshake admits only proper peers, once",
  "A connecting peer that announces this network, on a connection it opened, gets one handshake answer carrying this node's network, version, height and top block; a wrong network, a repeated handshake after an identity was set, or a message that cannot be parsed gets no handshake answer, and wrong-network and repeated handshakes close the connection. After the handshake a peer whose top block is unknown here is asked for its chain, a peer whose top is known is not, and the announced top and height are always those of the current chain.",
  ["histories", "inputs"], "all sequences up to a depth of handshakes, timed syncs and other messages with right and wrong fields, on chains of several lengths",
  "Tests only check encoding of handshake messages.",
  ["p2p/command_handshake.go", "p2p/node.go", "p2p/command.go"], [("HandleHandshake", "p2p/command_handshake.go"), ("processSyncData", "p2p/node.go"), ("handleCommand", "p2p/node.go")], state=[("peer state", "where the connection is in the protocol", "p2p/peer.go")], observe=["bytes written to the connection", "connection close"])

p("C25", "Synchronization accepts only what was asked for and completes",
  "With an honest peer, whatever batch sizes and chain lengths, synchronization requests each missing block exactly once in order, at most 128 per request, adds them all and ends with the node's chain equal to the peer's. A peer that sends an unrequested, malformed, incomplete or invalid block, an empty chain answer, one that contradicts itself or what is still awaited, or a height that does not cover the blocks it listed is disconnected, and nothing it was not asked for ever enters the chain.",
  ["histories"], "all sequences up to a depth of honest and deviating protocol messages at every point of the exchange; all chain lengths around the batch size",
  "One test decodes a recorded answer; no test runs the exchange.",
  ["p2p/node.go", "p2p/peer.go", "p2p/notification_response_get_objects.go", "p2p/notification_request_chain.go"], [("handleNotification", "p2p/node.go"), ("requestMissingBlocks", "p2p/peer.go"), ("HandleResponseGetObjects", "p2p/notification_response_get_objects.go")], state=[("needed/requested blocks", "what is still to ask for and what is awaited", "p2p/peer.go")], observe=["bytes written to the connection", "BlockChain.TopBlock"])

p("C26", "Each known peer is listed once and the peer list is consistent",
  "After any sequence of peers becoming trusted, untrusted or leaving, each peer with an identity appears exactly once in the list sent to others, in the class it was last moved to; peers without an identity are refused and moving a peer to the class it is already in is reported as an error. Concurrent moves and listings are linearizable, without data races or deadlock.",
  ["histories", "schedules"], "all operation sequences up to a depth over colliding identities; all interleavings up to a preemption bound of two or three threads",
  "No test covers the peer list.",
  ["p2p/peerstore.go"], [("toWhite/toGrey", "p2p/peerstore.go"), ("toPeerEntries", "p2p/peerstore.go")], state=[("white and grey lists", "the classes", "p2p/peerstore.go")], observe=["handshake and timed sync answers"], hook=False)

p("C27", "Connections end cleanly and the node always stops",
  "However a connection ends (peer closes, cut mid-frame, garbage, refused protocol step, node stopping at any moment), its handler returns and the connection is closed, other connections and the listener keep working, and failed accepts never stop the listener. When the node is told to stop, it stops listening and returns in bounded time with no handler left behind, and no remote message ever makes it crash or write files.",
  ["fault_sequences", "schedules"], "all sequences up to a depth of connection events and faults at every point of an exchange, stop requested after every step",
  "No test runs the node.",
  ["p2p/node.go", "p2p/peer.go"], [("connectionHandler", "p2p/node.go"), ("runListener/Run", "p2p/node.go")], observe=["Node.Run", "connection close"])

p("C28", "The outbound handshake accepts only compatible peers",
  "When this node connects to a peer, it sends one handshake with its network, version, height and top block, and goes on only if the answer is a response to it from the same network with at least the minimum protocol version; the peer then becomes trusted under its announced identity. Any other answer, a cut or a malformed one closes the connection and leaves the peer list unchanged.",
  ["inputs", "fault_sequences"], "all combinations of networks, versions around the minimum, heights, tops, identities, answer commands, flags and cut points",
  "No test covers the outgoing side.",
  ["p2p/peer.go", "p2p/node.go"], [("handshake", "p2p/peer.go"), ("syncWithAddr", "p2p/node.go")], observe=["bytes written to the connection", "connection close", "peer list"])

p("C29", "Numeric helpers are exact over the full 64-bit range",
  "The 64x64 to 128-bit product, the 128 by 32-bit quotient, the median, minimum, maximum and clamp helpers return the mathematically exact result for all arguments, including the largest ones. Uniqueness and sortedness tests and reversal agree with their definitions for every slice.",
  ["inputs"], "all pairs of 64-bit boundary patterns, all slices over a small alphabet up to a length",
  "Tests check four medians and one uniqueness case.",
  ["utils/math.go", "utils/slices.go"], [("Mul128/Div128p32", "utils/math.go"), ("MedianSlice", "utils/math.go"), ("slice helpers", "utils/slices.go")], observe=["utils functions"])

p("C30", "Locked outputs become spendable exactly at their unlock time",
  "An unlock time below 500000000 is a block height: an output carrying it counts as unlocked from one block before that height on. Any other unlock time is a moment: the output counts as unlocked from 240 seconds before it on. This holds for every 64-bit unlock time, every height and every moment, and an unlocked output never becomes locked again as the chain and the clock advance.",
  ["inputs", "histories"], "all pairs of small unlock times and heights, boundary values of every bit, a history of moments of a virtual clock",
  "No test covers unlocking.",
  ["cryptonote/chain.go", "config/network.go"], [("IsTransactionSpendTimeUnlocked", "cryptonote/chain.go"), ("Timestamp", "config/network.go")], observe=["IsTransactionSpendTimeUnlocked"])

p("C31", "Hash lists find and remove the first occurrence and keep order",
  "A hash list used as a queue of blocks to ask for behaves as a sequence: looking a hash up gives the position of its first occurrence, or none; removing a hash takes out its first occurrence only, keeps the order of the rest, and changes nothing when the hash is not there. This holds after every sequence of appends, removals and drops from the front, and when the hash to remove is an element of the list itself.",
  ["inputs", "histories"], "all operation sequences up to a depth over hashes that differ in single bytes",
  "No test removes from a hash list.",
  ["crypto/hash.go"], [("HashList.Index/Has/Remove", "crypto/hash.go")], observe=["HashList operations"])

p("C32", "The daemon serves the main network until it is interrupted",
  "Started from the command line, with any or no configuration file, the daemon listens on 127.0.0.1:32447 and speaks for the main network: its network identity, height 1 and the main network's genesis block; it goes on serving new connections for as long as it runs and however many connections came and went. Interrupted at any moment and any number of times, whatever its peers are doing, it stops listening, closes every connection and ends normally in bounded time, and it leaves no files behind.",
  ["fault_sequences", "histories"], "all sequences up to a depth of peer events, interrupted at every moment of a grid, once or repeatedly",
  "No test runs the command.",
  ["cmd/root.go", "krbd.go", "p2p/node.go"], [("handleCommand/interruptListener", "cmd/root.go"), ("main", "krbd.go")], observe=["bytes on connections", "process exit status", "files in the home and working directories"])

p("C33", "Curve and scalar arithmetic is exact",
  "The arithmetic below keys and signatures agrees with its mathematical definition for all arguments: scalar reduction, sums, differences and products give the one result below the group order; field operations are exact modulo 2^255-19 whatever unreduced form their arguments have; point addition, doubling, scalar and double-scalar multiplication, the precomputed tables and the subgroup test agree with the curve's group law for all points, those of small order included; decoding accepts exactly the canonical encodings of curve points, and every 32-byte string maps to a curve point.",
  ["inputs"], "limb and byte boundary patterns of 256 and 512-bit numbers, pairwise; every digit at every position; all small-order components",
  "Tests use vectors; a carry or table entry that matters for one value in 2^20 or 2^128 is not among them.",
  ["crypto/edwards25519/edwards25519.go", "crypto/edwards25519/const.go"], [("ScReduce/ScAdd/ScSub/ScMulAdd/ScMulSub", "crypto/edwards25519/edwards25519.go"), ("FeMul/FeToBytes", "crypto/edwards25519/edwards25519.go"), ("GeScalarMult*, GeDoubleScalarMult*", "crypto/edwards25519/edwards25519.go"), ("tables", "crypto/edwards25519/const.go")], observe=["functions of crypto/edwards25519"])

p("C34", "Any structure survives the key-value storage format",
  "For every structure whose tagged fields are integers, doubles, booleans, strings, byte arrays, slices of fixed-size items, slices marked as arrays, or such structures again, of plain or named types, Marshal gives the bytes of the portable key-value storage format (entries in the order of the fields, empty optional ones left out) and Unmarshal gives back an equal structure, replacing what the fields held before. A value of another type or of a length that does not fit, a name that is not there or is there twice, a name of more than 255 bytes and every proper prefix are refused with an error; a field of a kind outside the format never causes a panic.",
  ["inputs"], "all field kinds in all pairs and triples, nested and in arrays, boundary values, lengths around every size prefix, all kinds written and read as all others",
  "The test encodes one structure with one value of each field.",
  ["encoding/binary/encode.go", "encoding/binary/decode.go", "encoding/binary/metadata.go", "encoding/binary/constants.go"], [("Encoder", "encoding/binary/encode.go"), ("Decoder", "encoding/binary/decode.go"), ("getStructBinaryMetadata", "encoding/binary/metadata.go")], observe=["binary.Marshal", "binary.Unmarshal"])

p("C35", "Keys are what their definitions say",
  "For every 32-byte string: it is accepted as a secret key exactly when it is a number below the group order, and its public key is then that multiple of the base point; it passes the check of a public key exactly when it is the canonical encoding of a curve point; the view key made from it is its Keccak hash reduced modulo the group order. A generated key is the random number drawn, reduced, however the random source delivers its bytes, and no key is generated when the source fails. The product of a key image and a number is exact, and is refused when the image is not a point.",
  ["inputs", "fault_sequences"], "boundary numbers of 256 bits, all cuts and failures of the random source",
  "Tests check a handful of keys and never replace the random source.",
  ["crypto/key.go", "crypto/crypto.go", "crypto/key_image.go"], [("PublicFromSecret/Check/ViewFromSpend/GenerateKey", "crypto/key.go"), ("RandomScalar", "crypto/crypto.go"), ("KeyImage.ScalarMult", "crypto/key_image.go")], observe=["functions of crypto"])

p("C36", "The chain is what its storage holds, whatever fails",
  "For every sequence of offered blocks, storage failures and restarts: a chain started on a storage that holds blocks continues exactly there (same top, height, known blocks, locator, totals and verdicts as a chain that was never stopped). A block whose write fails is refused with an error, leaves the chain unchanged and is accepted when offered again. When the process ends at any storage call the storage holds either all of the block or nothing. A locator is built completely or not at all. A chain does not start on the storage of another network, when the storage fails, or when the network's first block cannot be read, however often it is tried. A synchronizing node whose storage fails or that is restarted at any point is completed by the next honest peer.",
  ["histories", "crash_points", "fault_sequences"], "all placements of failures and ends of the process in bounded histories",
  "Tests use the memory storage, which never fails, and never restart a chain.",
  ["cryptonote/chain.go", "cryptonote/storage.go", "p2p/node.go"], [("Init", "cryptonote/chain.go"), ("AddBlock", "cryptonote/chain.go"), ("BuildSparseChain", "cryptonote/chain.go"), ("Storage", "cryptonote/storage.go"), ("processNewObjects", "p2p/node.go")], observe=["BlockChain methods over a failing Storage", "frames of the node"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
