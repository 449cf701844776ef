# property -> tests: (package, race, [test functions]), technique and what the check trusts
CHECKS = {}


def c(pid, technique, note, *tests, **kw):
    CHECKS[pid] = dict(technique=technique, note=note, tests=[(x[0], kw.get('race', False) or 'race' in x, list(x[1])) for x in tests], **kw)


c('C01', 'property-based testing: differential against a big-integer base58 model, plus corrupted texts',
  'Trusts the 77-line reference codec (validated on fixtures).',
  ('crypto/base58', ['TestVerifC01Encode', 'TestVerifC01Decode']))
c('C02', 'property-based testing: round-trip, differential against the address layout, corrupted texts',
  'Trusts the reference base58 and Keccak.',
  ('cryptonote', ['TestVerifC02RoundTrip', 'TestVerifC02Corrupt']))
c('C03', 'property-based testing: generated message types, byte-exact differential against a storage model and round-trip',
  'Trusts the reference storage writer; message types are limited to the field kinds the protocol uses, nested to depth 3.',
  ('encoding/binary', ['TestVerifC03RoundTrip', 'TestVerifC03Long', 'TestVerifC03Huge']))
c('C04', 'fuzzing: structure-aware mutation of valid messages with refusal, panic, hang and allocation oracles',
  'Allocation is judged against 4 MiB plus a bound proportional to the input; a hang is 90 s without return.',
  ('encoding/binary', ['TestVerifC04Refuse', 'TestVerifC04Survive']))
c('C05', 'property-based testing: packet sequences over fragmented, cut and forged streams against a reference packet writer',
  'Streams are served by an in-memory connection; the reference packet writer is 20 lines.',
  ('p2p', ['TestVerifC05Frames', 'TestVerifC05Together', 'TestVerifC05Refuse', 'TestVerifC05Memory', 'TestVerifC05Limit', 'TestVerifC05Invoke', 'TestVerifC05Send']))
c('C06', 'property-based testing: generated messages against reference encodings, cross-type and damaged payloads',
  'The field names and packings of the protocol are written down in the harness.',
  ('p2p', ['TestVerifC06Content', 'TestVerifC06Damage', 'TestVerifC06Raw', 'TestVerifC06Large']))
c('C07', 'property-based testing: generated transactions against a reference encoder, padded and edited encodings',
  'Trusts the reference encoder (validated on the repository fixtures) and Keccak; multisignature inputs are not supported by the code and not generated.',
  ('cryptonote', ['TestVerifC07RoundTrip', 'TestVerifC07Canonical']))
c('C08', 'property-based testing: generated blocks of all versions against a reference encoder and hash, padded and edited encodings',
  'Trusts the reference encoder and tree hash (validated on the repository fixtures).',
  ('cryptonote', ['TestVerifC08RoundTrip', 'TestVerifC08Canonical']))
c('C09', 'fuzzing: structure-aware mutation of valid encodings with refusal, panic, hang and allocation oracles',
  'Allocation is judged against 4 MiB plus 2000 bytes per input byte; a hang is 90 s without return.',
  ('cryptonote', ['TestVerifC09Prefix', 'TestVerifC09Survive', 'TestVerifC09Claims']))
c('C10', 'property-based testing: generated field sequences against a model, single defects, byte fuzzing',
  'Exactly 255 padding bytes are not judged (the format counts the tag byte differently in different clients); an empty nonce after a non-empty one is not generated.',
  ('cryptonote', ['TestVerifC10Fields', 'TestVerifC10Many', 'TestVerifC10Refuse', 'TestVerifC10Survive']))
c('C11', 'property-based testing: generated hash lists against the recursive tree definition',
  'Trusts the reference tree hash (validated on the repository fixtures).',
  ('crypto', ['TestVerifC11Tree']))
c('C12', 'property-based testing: differential against reference Keccak, big-integer reduction and an affine hash-to-curve map',
  'Trusts the reference Keccak and curve (validated on the repository fixtures).',
  ('crypto', ['TestVerifC12Hash', 'TestVerifC12Scalar', 'TestVerifC12Point']))
c('C13', 'property-based testing: differential against a big-integer Edwards curve, with boundary scalars and hostile point encodings',
  'Trusts the reference curve (validated on the repository fixtures).',
  ('crypto', ['TestVerifC13Public', 'TestVerifC13Check', 'TestVerifC13Arithmetic']))
c('C14', 'property-based testing: sender and recipient sides against each other and a big-integer Edwards curve, hostile points',
  'Trusts the reference curve (validated on the repository fixtures).',
  ('crypto', ['TestVerifC14Owner', 'TestVerifC14Foreign']))
c('C15', 'property-based testing: generated and reference-built signatures, single changes, differential against the Schnorr equation',
  'Trusts the reference curve; crypto/rand is replaced by a seeded stream. Keys of small order are judged by the equation alone.',
  ('crypto', ['TestVerifC15Sign', 'TestVerifC15Forge']))
c('C16', 'property-based testing: generated and reference-built ring signatures, single changes, differential against the ring equation',
  'Trusts the reference curve; crypto/rand is replaced by a seeded stream. Full equation is recomputed for rings of up to 3.',
  ('crypto', ['TestVerifC16Ring', 'TestVerifC16Refuse', 'TestVerifC16Forge']), quick_shards=3)
c('C17', 'property-based testing: differential against a big-integer Edwards curve over images of every order',
  'Trusts the reference curve (validated on the repository fixtures).',
  ('crypto', ['TestVerifC17Image', 'TestVerifC17Domain']))
c('C18', 'stateful property-based testing: operation histories on a checkpoint set against a map model',
  'A set whose only checkpoint is at height 0 is not judged at height 0 of the zone.',
  ('config', ['TestVerifC18Checkpoints']))
c('C19', 'property-based testing: differential against the reward formula on big integers, monotonicity, chains of rewards',
  'Sizes below 2^33, medians below 2^32, fees up to 8e18.',
  ('config', ['TestVerifC19Reward', 'TestVerifC19Supply']))
c('C20', 'property-based testing: differential against independent definitions on big integers and rationals, metamorphic relations',
  'Difficulties up to 2^34, within the 64-bit range of the published algorithms; version 3 is floating point and judged to 1 part in 2^40.',
  ('config', ['TestVerifC20Differential', 'TestVerifC20Response']))
c('C21', 'property-based testing: schedules against step tables around every switch',
  'The step tables are written down in the harness.',
  ('config', ['TestVerifC21Schedule', 'TestVerifC21Amounts']), ('cryptonote', ['TestVerifC21Unlock']))
c('C22', 'property-based testing: differential against big integers, sorting and digit definitions',
  'None beyond math/big and sort.',
  ('utils', ['TestVerifC22Wide', 'TestVerifC22Median', 'TestVerifC22Lists']), ('cryptonote', ['TestVerifC22Digits', 'TestVerifC22Indexes']))
c('C23', 'stateful property-based testing: operation histories on the memory storage against a map model',
  'Transaction details are not readable through the interface and not judged.',
  ('cryptonote', ['TestVerifC23Storage', 'TestVerifC23Many']))
c('C26', 'property-based testing: generated chain heights against the defining list of distances',
  'Heights up to the block number limit of 500 million.',
  ('cryptonote', ['TestVerifC26Tall', 'TestVerifC26Grown', 'TestVerifC26Faults']))
c('C24', 'property-based testing: generated chains at every height range, valid blocks and single-rule changes against a model of the consensus rules',
  'Trusts the model of the rules (its reward, difficulty and hash parts are checked by C08, C19 and C20). Proof of work and spent outputs are not implemented in the code and not judged.',
  ('cryptonote', ['TestVerifC24Rules', 'TestVerifC24Many', 'TestVerifC24Checkpoint']), quick_shards=4, shards=8)
c('C25', 'stateful property-based testing: histories of valid, rival, early, repeated, forked and broken blocks against the list of accepted ones',
  'Trusts the model of the rules; proof of work is not implemented in the code.',
  ('cryptonote', ['TestVerifC25History', 'TestVerifC25Long', 'TestVerifC25Memory', 'TestVerifC25Genesis']), quick_shards=2)
c('C27', 'property-based testing: generated transactions and single-rule changes in blocks at every height range against a model of the transaction rules',
  'Trusts the model of the rules. Outside the checkpoint zone the code has no ring members to verify against and refuses every key input; acceptance there is judged at the last checkpoint only.',
  ('cryptonote', ['TestVerifC27Amounts', 'TestVerifC27Outside', 'TestVerifC27List', 'TestVerifC27Size', 'TestVerifC27Limit']), quick_shards=4, shards=8)
c('C28', 'stateful property-based testing: message histories of several honest and hostile peers against a model of the synchronisation',
  'Messages are handed to the handlers directly, without the waiting of the connection loop; a peer whose delivered block the chain refuses is not required to be dropped.',
  ('p2p', ['TestVerifC28Sync', 'TestVerifC28Honest', 'TestVerifC28Long']), quick_shards=2)
c('C29', 'stateful property-based testing: command histories, handshakes in both directions and store histories against models, sessions with a running node',
  'Sessions run over the loopback network with real waiting, so they are few.',
  ('p2p', ['TestVerifC29Incoming', 'TestVerifC29Outgoing', 'TestVerifC29Store', 'TestVerifC29Address', 'TestVerifC29Many', 'TestVerifC29Session']))
c('C30', 'concurrency fuzzing: generated operations on goroutines of their own, under the race detector, with invariants over what each saw and a sequential explanation of the outcome',
  'Schedules are those the Go scheduler produces on this machine; a replay repeats the operations, not the schedule.',
  ('cryptonote', ['TestVerifC30Chain', 'TestVerifC30Storage']), ('config', ['TestVerifC30Checkpoints']), ('p2p', ['TestVerifC30Store', 'TestVerifC30Node']), race=True)
c('C31', 'stateful property-based testing: generated sessions of proper, hostile and silent peers with running nodes on the loopback network that are stopped at generated moments',
  'Runs over the loopback network with real waiting, so nodes are few; how fast the node stops is bounded only generously.',
  ('p2p', ['TestVerifC31Life', 'TestVerifC31Many', 'TestVerifC31Busy']), ('p2p', ['TestVerifC31Life', 'TestVerifC31Stop'], 'race'), quick_shards=4, shards=4, timeout=700)
c('C32', 'property-based testing: differential against big integers and an affine Edwards curve, with limb patterns that force every carry',
  'Trusts big integers and the reference curve (validated on the repository fixtures); operands within the bounds the functions document.',
  ('crypto/edwards25519', ['TestVerifC32Scalars', 'TestVerifC32Field', 'TestVerifC32Group', 'TestVerifC32Encodings']))
c('C33', 'stateful property-based testing of the built daemon: generated configurations, clients and moments of interruption',
  'Runs the real program on its fixed port, one after another, so cases are few; moments are generated, schedules are not controlled beyond the number of processors.',
  ('cmd', ['TestVerifC33Daemon']), timeout=600)
c('C34', 'property-based testing: a scripted source of randomness, nonces recovered with the secret, against the reduction of its bytes',
  'Trusts big integers; the source stands in for crypto/rand, whose quality is not judged.',
  ('crypto', ['TestVerifC34Fresh', 'TestVerifC34Empty']))
