IS = "identity/issuer/issuer.go"
HO = "identity/holder/holder.go"
VE = "components/verifier/verifier.go"
PR = "core/proof/proof.go"
ON = "components/idenpubonchain/idenpubonchain.go"
OFF = "components/idenpuboffchain/idenpuboffchain.go"
NG = "identity/issuer/noncegen.go"
SBT = "stateful model-based property testing (rapid), "
TRUST = " Trusts go-iden3-crypto, go-circom-prover-verifier, rapid and the simulated contract; toy circuits with every input public stand in for the ceremony's."

PROPS = [
    dict(id="S01", title="The identity state follows from its history and reaches the chain",
         statement="After any history of issuing, revoking, publishing, synchronizing and reopening, the state of an issuer is the hash of the trees of exactly the claims issued, the nonces revoked and the claims roots published, and so are the states it reports as pending and as on the chain. Every state it sends is one that the contract accepts after the one on the chain, with all its data published off chain; while one is pending no other is sent, and one whose transaction failed is sent again. It is reported on the chain exactly when its transaction has the configured confirmations, and an identity that is only a genesis never changes.",
         over=["histories", "configurations"],
         forall="all histories of issue, revoke, publish, sync, reopen and of the blocks of the chain, all configurations and genesis claims",
         why="The tests of the issuer need downloaded keys and run one scenario with mocks; the state after a history is a statement about every history.",
         files=[IS, NG, "identity/identity.go", ON],
         mechanism=[("Create / Load", IS), ("IssueClaim / RevokeClaim", IS), ("PublishState", IS), ("SyncIdenStatePublic", IS), ("GenZkProofIdenStateUpdate", IS), ("State / IdenStateOnChain / IdenStatePending", IS)],
         technique=SBT + "reference trees and a simulated contract that verifies each proof",
         note="Histories of up to 40 steps, on three storages, with a full comparison after every step." + TRUST),
    dict(id="S02", title="Credentials are given exactly for the claims under the on-chain state",
         statement="The issuer gives a credential of existence exactly for the claims, with this very content, that are in the claims tree of its state on the chain, and the credential holds the claim, its proof, the roots and the block of that state. Every claim issued gets a nonce of its own that never changes; an issue that is refused (repeated or too deep) leaves claim and trees as they were. Revoking concerns that claim alone and happens once.",
         over=["histories", "inputs"],
         forall="all histories, all claims asked for, as issued objects, as entries, or with other values",
         why="The tests ask for one credential after one publication; claims issued later, other values with the same index and reopened identities are not sampled.",
         files=[IS, NG, PR],
         mechanism=[("GenCredentialExistence", IS), ("generateExistenceMTProof", IS), ("IssueClaim", IS), ("RevokeClaim", IS), ("UniqueNonceGen", NG)],
         technique=SBT + "reference trees and proofs",
         note="Up to 40 claims a history." + TRUST),
    dict(id="S03", title="A holder can show exactly the claims that are issued and not revoked",
         statement="The holder of a credential can complete it at any later time with the published data of the issuer's latest state exactly if the claim is not revoked there, whatever was published in between. A verifier accepts the result exactly as long as the claim has not expired and the state is the latest one or fresh enough. All of it survives JSON and each place to publish to.",
         over=["histories", "inputs"],
         forall="all histories of an issuer, all times of obtaining, completing and showing the credential, all places to publish",
         why="The tests check one credential at one time against mocks.",
         files=[HO, VE, PR, OFF, IS],
         mechanism=[("HolderGetCredentialValidity", HO), ("VerifyCredentialValidity", VE), ("CredentialValidity", PR), ("NewPublicDataFromBlobs", OFF)],
         technique=SBT + "end to end with a simulated chain and real off-chain places over loopback HTTP",
         note="Up to 5 published states a history." + TRUST),
    dict(id="S04", title="The verifier accepts exactly the credentials that prove what they say",
         statement="A credential of existence is accepted exactly if its proof leads from its claim to the claims root that, with the other roots, hashes to the state that the issuer had on the chain at that block. A credential of validity needs moreover that the claim has not expired, that the proof of its nonce's absence leads to the revocations root of a second on-chain state, and that this state is the latest one or within the freshness. Credentials with wrong, foreign, missing or malformed parts are refused without a crash.",
         over=["inputs"],
         forall="all credentials put together from parts of any states and identities, tampered with or incomplete, all times and freshness",
         why="The tests verify one genuine credential; soundness is about every credential that is not.",
         files=[VE, PR],
         mechanism=[("VerifyCredentialExistence", VE), ("VerifyCredentialValidity", VE), ("CheckComplete", PR), ("validateFreshness", VE)],
         technique="property-based testing (rapid), differential against the definition on tampered credentials",
         note="2 identities, up to 3 states each, up to 2 faults a credential." + TRUST),
    dict(id="S06", title="Proof inputs show the claim, the holder and the state, as defined",
         statement="The inputs that are generated for the circuits hold, element by element, the claim, the holder's key and its proof in the genesis tree, the proof of the claim under the root it was issued in, of that root in the roots tree, and of the nonce's absence, each padded to the circuit's levels. They are refused when the circuit has too few levels, and for claims that were not issued, that are revoked, or whose data is not available.",
         over=["histories", "configurations"],
         forall="all histories, all credentials out of them, all numbers of levels of the circuits",
         why="The tests compare one input with a vector; depth, padding and the auxiliary node of the absence proof vary with the history.",
         files=[HO, IS],
         mechanism=[("HolderGetCredentialValidityData", HO), ("HolderGetCredentialProofInputs", HO), ("GenIdOwnershipGenesisInputs", IS)],
         technique=SBT + "element by element differential against the definition",
         note="Circuits with 0 to 12 levels." + TRUST),
    dict(id="S07", title="Zero-knowledge credentials are accepted exactly for real on-chain states",
         statement="A holder can prove a credential for every claim that is issued, published and not revoked, and the proof is of the issuer's latest state. The verifier accepts it exactly when the key, the signals and the proof fit together, the signals name the state that the issuer had on the chain at the given block, and that state is the latest one or fresh enough.",
         over=["histories", "inputs"],
         forall="all histories, all proofs out of them, with any signal, issuer, block, proof or key exchanged, all times and freshness",
         why="The tests that make proofs need downloaded keys and use one claim.",
         files=[HO, VE, "utils/zk/zk.go"],
         mechanism=[("HolderGenZkProofCredential", HO), ("VerifyZkProofCredential", VE), ("GenerateZkProof", "utils/zk/zk.go")],
         technique=SBT + "toy Groth16 circuits and a simulated chain",
         note="Proofs of at most 58 signals." + TRUST),
    dict(id="S05", title="Failures and crashes of an issuer lose nothing and it recovers",
         statement="When a storage operation, a call to the chain, a publication or the key fails, or the process crashes, anywhere in an operation of an issuer, what was acknowledged stays, an issue that failed leaves claim and trees unchanged, and nothing is reported on the chain or pending that isn't, nor an issued claim as missing. Once things work again, synchronizing and publishing bring all changes on the chain, and every state on the chain is published off chain and has its claims root in the roots tree. A creation that fails leaves nothing that loads.",
         over=["crash points", "histories"],
         forall="all histories, with failures and crashes at any storage operation and at any call, before or after it took effect",
         why="No test of the issuer injects a failure; recovery depends on where it strikes.",
         files=[IS, NG],
         mechanism=[("PublishState / publishOffChain", IS), ("SyncIdenStatePublic", IS), ("IssueClaim / RevokeClaim", IS), ("Create / Load", IS)],
         technique=SBT + "injected faults and crashes at chosen operations, recovery checked against the model",
         note="Fault points drawn over all storage operations of a step; creation enumerates every one. A crash is a panic at a storage operation; a commit is taken as atomic." + TRUST),
    dict(id="S08", title="An issuer can be shared by goroutines",
         statement="Issuing, revoking, publishing, synchronizing and reading one issuer from several goroutines has no data race and no deadlock, and no effect is lost or duplicated: nonces stay unique and the final trees hold what was acknowledged. States are reported and published with the roots they are made of, and credentials belong to one state on the chain.",
         over=["schedules"],
         forall="all interleavings of the operations of an issuer",
         why="The tests use an issuer from one goroutine.",
         files=[IS, NG],
         mechanism=[("Issuer.rw", IS), ("IssueClaim", IS), ("PublishState", IS), ("GenCredentialExistence", IS)],
         technique="randomized concurrency testing (rapid) under the race detector, with checks of the outcome",
         note="2 to 4 goroutines with up to 8 operations each; schedules are those of the runtime." + TRUST),
    dict(id="S09", title="Identities side by side do not affect each other",
         statement="Identities that share a storage (each under its prefix), a key store, a chain and a place to publish to behave as if each had its own: whatever one of them issues, revokes, publishes, synchronizes or opens again, the states, credentials and publications of the others are those of their own histories, also when they issue the same claims.",
         over=["histories", "configurations"],
         forall="all interleavings of the histories of 2 or 3 identities with shared infrastructure",
         why="The tests have one identity per storage; keys in the storage that are not under the prefix, or state kept per process, only show with two.",
         files=[IS, "db/memory.go", "db/leveldb.go", "components/idenpuboffchain/local/local.go"],
         mechanism=[("Create / Load / WithPrefix of the three trees", IS), ("WithPrefix", "db/leveldb.go")],
         technique=SBT + "a model for each identity, all compared after every step",
         note="2 or 3 identities, up to 36 steps." + TRUST),
    dict(id="S10", title="An identity signs with the key of its genesis",
         statement="What an identity signs (bytes under a prefix, elements, a transition of its state) and what its signer signs verifies with the key in the claim of its genesis for exactly that content, and with no other identity's key, also when identities share a key store and after they are opened again. A locked key or closed key store signs nothing, numbers outside of the field are refused, and signing and the operations that are not available change nothing of the identity.",
         over=["inputs", "histories"],
         forall="all contents, prefixes, elements and states, all histories of signing, locking and opening again",
         why="The tests sign nothing with an identity.",
         files=[IS, "identity/holder/holder.go", "components/idensigner/idensigner.go"],
         mechanism=[("SignBinary / SignState / SignElems", IS), ("Create / Load", "identity/holder/holder.go"), ("SignEthMsg / SignEthMsgDate", "components/idensigner/idensigner.go")],
         technique=SBT + "signatures verified by the library over independently computed contents",
         note="1 to 3 identities, up to 10 steps." + TRUST),
]
