PBT = "property-based testing (rapid), "
SBT = "stateful model-based property testing (rapid), "
OFF = "components/idenpuboffchain/idenpuboffchain.go"
WH = "components/idenpuboffchain/writerhttp/writerhttp.go"
RH = "components/idenpuboffchain/readerhttp/readerhttp.go"
LO = "components/idenpuboffchain/local/local.go"
MT = "merkletree/merkletree.go"
TRUST = " Trusts go-iden3-crypto (Poseidon), net/http and rapid."

PROPS = [
    dict(id="P01", title="Published data is read back exactly, for the states that are kept",
         statement="A state that an identity published, with its roots and both trees as they were then, is read back by that state, directly and by the HTTP reader, for as long as it is among the last publications the cache keeps (always, in the local place), and the last one when no state is named. Any other state is answered as not found, and never with other data. Restarts, failed publications, other identities and the later growth of the trees change none of it.",
         over=["histories", "configurations"],
         forall="all histories of publishing new and old states, of reading, failing and restarting, all cache lengths, storages and trees",
         why="The tests publish one state and read it back; the cache wraps around, and is read after restarts, only in longer histories.",
         files=[WH, RH, LO, OFF],
         mechanism=[("Publish / GetPublicData / nextCacheIdx / prevCacheIdx", WH), ("LoadIdenPubOffChainWriteHttp", WH), ("GetPublicData", RH), ("Publish / GetPublicData", LO)],
         technique=SBT + "against a list of publications, over loopback HTTP",
         note="Caches of 1 to 255 states, up to 24 steps." + TRUST),
    dict(id="P02", title="Accepted published data shows only what its roots stand for",
         statement="Published data from a server is accepted only if the state is the hash of the three roots, and is of the state that was asked for; its trees then have those roots and contain and prove nothing else than the trees that have these roots. Genuine data is always accepted. Damaged data, error answers and malformed text are refused without a crash.",
         over=["inputs"],
         forall="all published data with altered, exchanged or forged parts, all answers of a server",
         why="The tests read genuine data only; whether something forged passes is about every forgery.",
         files=[OFF, RH, MT, "components/httpclient/httpclient.go"],
         mechanism=[("NewPublicDataFromBlobs", OFF), ("ImportTree", MT), ("GetPublicData", RH), ("DoRequest", "components/httpclient/httpclient.go")],
         technique=PBT + "mutation of dumps, roots and answers, judged against the reference trees",
         note="Up to 3 faults; a dump without some of its nodes may be accepted, it must not show anything wrong." + TRUST),
    dict(id="P03", title="The places to publish to can be shared by goroutines",
         statement="Goroutines that publish and read at the same place get whole publications only: the state, the roots and both trees of one of them, never a mix. A state whose publication was finished and is kept is found, the last one is never older than a publication that followed it, and there is no data race, deadlock or crash.",
         over=["schedules", "histories"],
         forall="all interleavings of publications and readings at one place",
         why="The tests use one goroutine.",
         files=[WH, LO],
         mechanism=[("rw lock and transaction in Publish / GetPublicData", WH), ("rw lock", LO)],
         technique="randomized concurrency testing (rapid) under the race detector, answers checked against the history",
         note="2 to 4 goroutines with up to 8 operations; schedules are those of the runtime." + TRUST),
]
