CL = "core/claims/claim.go"
CT = "core/claims/claim_types.go"
PBT = "property-based testing (rapid), "
TRUST = " Trusts the hash functions of go-iden3-crypto and rapid's generators; bounded by the sizes generated."

PROPS = [
    dict(id="C01", title="Claims and their entries map to each other one to one",
         statement="A claim of a known type comes back from its entry, bytes and hex with the same content and metadata, metadata lands in the bytes that the layout gives it and nowhere else, every element stays in the field, and different claims have different entries. Two claims share an index exactly if they agree in what belongs to the index, and the hashes of the entry a claim returns are always those of its present content, after any change of its revocation nonce.",
         over=["inputs"],
         forall="all claims of every type, all combinations of header flags, subjects, versions, expirations and nonces, all contents of the slots",
         why="The tests encode one fixed claim per type; no test has a subject in the value, a change of nonce after hashing, or extreme slot contents.",
         files=[CL, CT, "core/claims/claimBasic.go", "core/claims/claimOtherIden.go", "core/claims/claimKeyBabyJub.go", "core/claims/utils.go", "core/claims/revocationrootsleafs.go"],
         mechanism=[("ClaimHeader / Metadata Marshal and Unmarshal", CL), ("NewClaimFromEntry", CT), ("Entry methods of claims", "core/claims/claimBasic.go"), ("ClaimGeneric / HexToClaimGeneric", "core/claims/utils.go"), ("roots and revocations leaves", "core/claims/revocationrootsleafs.go")],
         technique=PBT + "round trips and differential against the documented byte layout",
         note="Entries compared byte by byte with an independent writer of the layout." + TRUST),
    dict(id="C02", title="Decoding claims, metadata and credentials is exact and never crashes",
         statement="Metadata, claim types and credentials come back equal from JSON and text. Decoding arbitrary entries, JSON, text and hex never crashes, neither then nor when the decoded value is used, and refuses input that is malformed, out of the field, or contradicts the fixed header of a known claim type.",
         over=["inputs"],
         forall="all metadata, claim types and credentials, and all entries and texts, well-formed or not",
         why="The tests decode well-formed samples only; totality is a statement about every input a counterparty may send.",
         files=[CL, CT, "core/claims/utils.go", "core/proof/proof.go"],
         mechanism=[("Metadata.MarshalJSON/UnmarshalJSON", CL), ("ClaimType text codec", CT), ("NewClaimFromEntry", CT), ("HexToClaimGeneric", "core/claims/utils.go"), ("CredentialExistence / CredentialValidity", "core/proof/proof.go")],
         technique=PBT + "round trips and malformed-input fuzzing",
         note="Structured mutation of valid encodings plus arbitrary input." + TRUST),
    dict(id="I01", title="Identifiers are self-checking and round trip",
         statement="An identifier comes back equal from bytes, base58, text, JSON and its field element, which lies in the field. Any change of the type or genesis part without its checksum is detected, decoding never crashes, and a string or byte slice is accepted exactly if it decodes to 31 bytes with a matching checksum.",
         over=["inputs"],
         forall="all types and genesis values, all corruptions, all strings and byte strings",
         why="The tests check a few identifiers and one corruption.",
         files=["core/id.go"],
         mechanism=[("NewID / CalculateChecksum / CheckChecksum", "core/id.go"), ("IDFromString / IDFromBytes", "core/id.go"), ("ID.BigInt / text codec", "core/id.go")],
         technique=PBT + "round trips, corruption, differential against the definition of the checksum",
         note="Oracle is an independent checksum computation." + TRUST),
    dict(id="I02", title="The identifier commits to the genesis state, the state to its three trees",
         statement="The genesis identifier is the one the definition derives from the key and the genesis claims, the same for every way of computing it, independent of the order of the claims, and different for different genesis content. The identity state is the hash of the roots of the claims, revocations and roots trees in that order, and proofs that a claim belongs to the genesis hold for every genesis claim.",
         over=["inputs", "configurations"],
         forall="all keys and sets of genesis claims, all triples of roots",
         why="The tests compare against fixed vectors; the order of claims, duplicates and boundary keys are not exercised.",
         files=["core/genesis/genesis.go", "core/id.go", "core/proof/proof.go"],
         mechanism=[("CalculateIdGenesis*", "core/genesis/genesis.go"), ("IdenState", "core/id.go"), ("IdGenesisFromIdenState", "core/id.go")],
         technique=PBT + "differential against the definition, metamorphic (permutations)",
         note="Reference tree and hash calls written from the definition." + TRUST),
]
