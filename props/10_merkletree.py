MT = "merkletree/merkletree.go"
NODE = "merkletree/node.go"
UT = "merkletree/utils.go"
PBT = "property-based testing (rapid), "
TRUST = " Trusts the Poseidon hash of go-iden3-crypto and rapid's generators; bounded by the sizes generated (trees of up to some 40 entries, paths shared for up to 45 levels)."

PROPS = [
    dict(id="M01", title="The merkle tree behaves as a write-once map at every root",
         statement="After any history of additions, a lookup by index returns exactly the entry that was accepted under that index, membership of an entry holds exactly for accepted entries, and enumeration yields every accepted entry once, at the current root, at every past root and after reopening the tree from its storage. An entry whose index is already taken, whose elements are outside the field, or whose place would be deeper than the tree's maximum is refused, and a refusal changes nothing.",
         over=["histories", "inputs", "configurations"],
         forall="all sequences of additions (colliding paths, duplicates, invalid entries), lookups, reopenings and reads at past roots, for every depth limit",
         why="The tests add a handful of fixed entries and read a few back; they cannot reach every path collision, depth limit, past root and interleaving of refused additions.",
         files=[MT, NODE, UT],
         mechanism=[("AddEntry/addLeaf/pushLeaf", MT), ("GetDataByIndex / EntryExists", MT), ("Walk", MT), ("NewMerkleTree", MT)],
         technique=PBT + "stateful, against a map model",
         note="Randomised search against an independent map model; in-memory and on-disk storages." + TRUST),
    dict(id="M02", title="The root is a canonical commitment to the set of entries",
         statement="The root depends only on the set of accepted entries: any order of insertion, with refused insertions and reopenings in between, ends in the root that the definition of the sparse tree gives for that set. Sets that differ in any element of any entry have different roots.",
         over=["inputs", "histories"],
         forall="all sets of entries, all orders of inserting them, all refused insertions and reopenings in between",
         why="The tests compare roots for one or two fixed orders; order independence is a statement over all permutations and all path collisions.",
         files=[MT, NODE, UT],
         mechanism=[("addLeaf / pushLeaf / addNode", MT), ("Node.Key / LeafKey", NODE), ("HashElems", UT), ("Entry.HIndex / HValue", MT)],
         technique=PBT + "metamorphic (permutations) and differential against a reference sparse tree",
         note="Reference tree written from the definition, compared after every step." + TRUST),
    dict(id="M03", title="Every presence and absence can be proved at every root",
         statement="For every index and every current or past root, the tree produces a proof of existence if the index is in the set at that root and of absence otherwise, and that proof verifies against that root. The siblings are those of the definition, in the plain and in the padded form, and the proof still verifies after a round trip through bytes and JSON.",
         over=["inputs", "histories"],
         forall="all sets of entries, all queried indexes (present, absent, sharing any prefix), all current and past roots",
         why="The tests check a few proofs in small fixed trees; empty siblings, deep shared prefixes and past roots occur in combinations they never build.",
         files=[MT, UT],
         mechanism=[("GenerateProof", MT), ("Proof.Bytes/NewProofFromBytes", MT), ("Proof.SiblingsCircom", MT), ("VerifyProof", MT)],
         technique=PBT + "differential against proofs by definition, round trips",
         note="Proofs compared field by field with the reference." + TRUST),
    dict(id="M04", title="No proof verifies for a claim that is false at a root",
         statement="A proof that verifies against the root of a set shows the truth about that set: a proof of existence verifies only for an entry in the set, a proof of absence only for an index that is not. Altering, truncating, extending, reordering or transplanting proofs, or presenting nodes as other kinds of nodes, never makes a false statement verify, and never crashes the verification.",
         over=["inputs"],
         forall="all proofs, honest or forged, against roots of honest trees",
         why="The tests try one or two broken proofs; soundness speaks about every byte string an attacker may send.",
         files=[MT, NODE, UT],
         mechanism=[("VerifyProof / RootFromProof", MT), ("NewProofFromBytes", MT), ("LeafKey domain separation", NODE)],
         technique=PBT + "mutation attacks on honest proofs; oracle = membership in the reference set and an independent fold",
         note="Forgeries are generated by structured attacks and byte edits; collisions of the hash are out of scope." + TRUST),
    dict(id="M05", title="Encodings of proofs, nodes, entries and hashes are exact and total",
         statement="Proofs, nodes, entries, entry data and hashes come back equal from their binary, text and JSON encodings, and two different values never share an encoding. Decoding never crashes on any input, refuses what is cut short or malformed, and what it accepts encodes again to a value that decodes the same.",
         over=["inputs"],
         forall="all values and all byte and text strings, well-formed or not",
         why="The tests decode a few well-formed strings; they do not explore malformed input or every depth and bitmap.",
         files=[MT, NODE, UT],
         mechanism=[("Proof.Bytes/NewProofFromBytes/MarshalText", MT), ("NewNodeFromBytes", NODE), ("Data.Bytes / NewDataFromBytes", MT), ("Entry/Hash text codecs", MT), ("ElemBytes codecs", UT)],
         technique=PBT + "round trips and malformed-input fuzzing",
         note="Structured mutation of encodings plus random bytes; the oracle is the round trip and an independent encoder." + TRUST),
    dict(id="M06", title="A dump restores the same tree, or is refused without effect",
         statement="Importing the dump of a tree, as nodes into any storage or as claims into a new one, gives a tree with the same root, entries and proofs, which can be reopened and grown further as the original. A dump that was cut short is refused and changes nothing, and one that was altered is refused or shows nothing that does not belong to its root. A claim list with a malformed or out-of-range claim is refused at that claim.",
         over=["inputs", "histories"],
         forall="all trees, all past roots to dump at, all cuts and alterations of a dump, all malformed claims lists",
         why="The tests dump and import two small fixed trees, never reopen the imported tree and never truncate a dump.",
         files=[MT],
         mechanism=[("DumpTree/DumpTreeIoWriter/ImportTree", MT), ("DumpClaims/DumpClaimsIoWriter/ImportDumpedClaims", MT)],
         technique=PBT + "round trip against the reference tree, truncation at generated points",
         note="A dump with an altered root or without some of its nodes may be accepted; what it then shows is judged." + TRUST),
    dict(id="M07", title="A failing or dying storage never corrupts a merkle tree",
         statement="If a storage operation fails or the process dies at any point of any operation, the tree found in the storage afterwards is the one before the operation or, when the operation had been committed, the one after it, complete and usable. An operation that reports an error has no effect the live tree shows; one that reports success is durable; and a tree whose storage cannot be read is never mistaken for an empty one.",
         over=["fault_sequences", "crash_points", "histories"],
         forall="all storage operations of opening, adding, importing, looking up, proving and dumping, each failing or crashing in turn, over all generated trees",
         why="No test injects a storage fault or a crash.",
         files=[MT, "db/storage.go", "db/leveldb.go", "db/memory.go"],
         mechanism=[("single transaction per addition", MT), ("root key stored in the transaction", MT), ("NewMerkleTree reads the root", MT)],
         technique="fault enumeration over generated histories: every storage operation fails and crashes in turn",
         note="All the fault points of each generated operation are enumerated; faults are those of the storage interface (an operation returns an error, or is the last one to happen)."),
    dict(id="M08", title="Snapshots are frozen and read-only",
         statement="A snapshot taken at any past root goes on showing exactly the entries, proofs and dump of that root, however the tree grows, and the tree does not change with it. Every attempt to write to a snapshot is refused without effect, and a snapshot of a root that is not in the storage is refused.",
         over=["histories", "inputs"],
         forall="all histories of growth, all past roots, all writing operations",
         why="The tests take one snapshot of a small tree and try one write on it.",
         files=[MT],
         mechanism=[("Snapshot", MT), ("writable check in AddEntry / ImportTree / ImportDumpedClaims", MT)],
         technique=PBT + "stateful, against the model of each past root",
         note="In-memory and on-disk storages." + TRUST),
    dict(id="M09", title="The merkle tree is safe to share between goroutines",
         statement="Goroutines that add entries while others look up, prove, take snapshots, enumerate and dump never corrupt the tree or each other: every answer is right for the set of entries at some moment between call and return, every addition reported as accepted stays, and the end result is that of some serial order. There is no data race, deadlock or crash.",
         over=["schedules", "histories"],
         forall="all schedules of concurrent operations on one tree",
         why="No test uses the tree from two goroutines.",
         files=[MT, "db/memory.go"],
         mechanism=[("MerkleTree lock", MT), ("MemoryStorage lock", "db/memory.go")],
         technique=PBT + "generated concurrent histories under the race detector, interval oracle",
         note="Schedules are those of the Go scheduler on generated workloads with the race detector on; not exhaustive over interleavings."),
    dict(id="M10", title="A drawing of a tree shows the tree at the root that was asked for",
         statement="The GraphViz drawing of a tree, written or printed, has each leaf, each inner node with its two children, and each empty place under an inner node, of the tree at the root that was asked for (the present one if none), in a snapshot or not. A root that is not stored is refused, and drawing changes nothing.",
         over=["histories", "inputs"],
         forall="all trees, all roots they had, all levels",
         why="The tests draw one fixed tree at its present root and don't look at the drawing.",
         files=[MT],
         mechanism=[("GraphViz / PrintGraphViz", MT), ("Walk", MT)],
         technique=PBT + "the drawing is read back and compared with the reference tree",
         note="Nodes are named by 4 bytes, as the code does; the order of the lines and the layout are not judged." + TRUST),
]
