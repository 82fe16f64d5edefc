PBT = "property-based testing (rapid), "
SBT = "stateful model-based property testing (rapid), "
LO = "components/idenpubonchain/local/local.go"
ON = "components/idenpubonchain/idenpubonchain.go"
DE = "components/idenpubonchain/deploy.go"
CL = "eth/client.go"
TRUST = " Trusts go-ethereum, the pairing library and rapid."

PROPS = [
    dict(id="N01", title="The local chain accepts and shows only proved transitions",
         statement="The local stand-in for the chain accepts a first or next state of an identity exactly if the proof given is a valid one for the identifier, its last state on the chain or pending (the declared genesis, for the first) and the new state; it then shows it from the next synchronization on, at the block and time at which it was submitted, by identity, by block and by time, also when the caller has reused its buffers. A transaction is confirmed by as many blocks as have followed its own. Goroutines can share it.",
         over=["histories", "inputs", "schedules"],
         forall="all histories of writes by several identities, also while others are pending, with right, wrong, altered, replayed and non-canonical proofs and states, and all times of synchronizing and reading",
         why="The test of this package checks that it compiles; everything else builds on what it accepts.",
         files=[LO],
         mechanism=[("InitState / SetState / verifyZKP", LO), ("Sync", LO), ("GetState / GetStateByBlock / GetStateByTime", LO), ("TxConfirmBlocks", LO)],
         technique=SBT + "proofs forged with the secrets of a toy circuit; a race-detected variant with goroutines",
         note="Two writes of one identity without a synchronization between them are outside: a contract takes one. Up to 24 steps." + TRUST),
    dict(id="N02", title="The chain is read and written through an Ethereum node as it is",
         statement="Through a node, the state of an identity, the one of a block or time, the closest one to them, and the confirmations of a transaction are those of the contract, or one of the documented errors; and a write reaches the contract once, with the identifier, states and proof given. A failing or talking nonsense node gives an error and never a wrong answer. A deployment creates the contracts that are missing, tells the contract of the states which verifier to use, and succeeds only if all their transactions did.",
         over=["histories", "inputs", "faults"],
         forall="all histories of the contract, all queries, all faults of the node at every call",
         why="There is no test of it: it needs a node with the contract.",
         files=[ON, DE, CL, "utils/zk/zk.go"],
         mechanism=[("GetState / GetStateByBlock / GetStateByTime / GetStateClosestTo...", ON), ("InitState / SetState", ON), ("ProofToBigInts", "utils/zk/zk.go"), ("CallAuth / Deploy / waitReceipt / CurrentBlock", CL), ("DeployState", DE)],
         technique=SBT + "a simulated contract behind a JSON-RPC node that decodes the calls by itself and injects faults",
         note="A null answer to a question for a gas price or a count is taken for zero by go-ethereum and not injected. The client gives an answer one second; late answers of a busy machine are asked for again." + TRUST),
]
