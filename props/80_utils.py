PBT = "property-based testing (rapid), "
SBT = "stateful model-based property testing (rapid), "
ND = "utils/noncedb/nonce_db.go"
CO = "common/common.go"
ZK = "utils/zk/zk.go"
HC = "components/httpclient/httpclient.go"

PROPS = [
    dict(id="U01", title="A nonce can be used once, until it expires",
         statement="A nonce that was added is found, with its data and expiration, until it is used or expires, whatever other nonces are added, used, cleared or expire, and also after being used and added again; a used or expired one is not found and cannot be used. Data is added only to a nonce without data. However many goroutines use a nonce, add it or add data to it at the same time, exactly one succeeds.",
         over=["histories", "schedules"],
         forall="all histories of adding, finding, using and clearing nonces with any expirations, and all schedules of goroutines",
         why="The test follows one history without using a nonce twice, and no goroutines.",
         files=[ND],
         mechanism=[("Add / New / AddAux", ND), ("Search / SearchAndDelete", ND), ("DeleteOld / DeleteOldOportunistic", ND)],
         technique=SBT + "a model of nonces; goroutines under the race detector with a count of successes",
         note="Whether an expired nonce that was not cleared yet can be added again is left open, and so is the second in which a nonce expires. Trusts rapid."),
    dict(id="U02", title="The encodings give back what was put in, and refuse the rest",
         statement="Bytes written as hex (with or without prefix, as text or JSON) or base64 (with or without padding), integers of all widths in both orders, bits, and public signals as JSON are read back as they were. Text that is no such encoding, or not of the length asked for, gives an error, never a crash or other bytes than it says. Inputs and memory next to the outputs are left alone.",
         over=["inputs"],
         forall="all byte strings, integers and bit positions, and all texts",
         why="The tests encode one word each.",
         files=[CO, ZK, "crypto/hash.go"],
         mechanism=[("HexEncode / HexDecode / HexDecodeInto / Hex", CO), ("Base64Decode / Base64ToBytes / BytesToBase64", CO), ("Uint..ToBytes / SetBit / TestBit / SwapEndianness", CO), ("PubSignals / InputsToMapStrings", ZK)],
         technique=PBT + "round trips and a differential oracle for altered texts",
         note="Base64 with a wrong number of padding characters may be refused or read without them. Negative numbers are no public signals. Trusts the standard library and rapid."),
    dict(id="U03", title="Zk files are used only with the expected hash",
         statement="The proving key, verification key and witness calculator are given out exactly if the file in the directory, or else the one from the server, has the hash that was asked for, and then they are the content with that hash; otherwise there is an error. Files that are there are never downloaded or changed, and a download that fails half-way leaves nothing under the name of the file. Users of the same directory at the same time neither download a file twice at once nor disturb each other; failures are reported.",
         over=["inputs", "histories", "faults", "schedules"],
         forall="all contents of the directory and answers of the server, all hashes, all orders of calls, all start times of several users",
         why="The test only writes public signals; the files are on a server that the tests need.",
         files=[ZK],
         mechanism=[("download / downloadCheckFile / checkHash", ZK), ("Load... / ProvingKey / VerificationKey / WitnessCalcWASM", ZK)],
         technique=SBT + "a model of directory and server, with faults; goroutines at different times",
         note="The hash is checked when a user first needs a file, not again if it changes afterwards. The binary format of snarkjs is not covered: there is no writer for it. Trusts the parsers and rapid."),
    dict(id="U04", title="A request gives the answer of the server as it is, or an error",
         statement="A request of the HTTP client reaches the path under the base address with the method and body given; an answer with a good status whose content has all that is required is given as it is. Any other gives an error (that of the server, if it says one), and nothing crashes it.",
         over=["inputs", "faults"],
         forall="all methods, addresses, statuses and contents of answers",
         why="The test asks for a good and an incomplete answer.",
         files=[HC],
         mechanism=[("NewHttpClient / DoRequest", HC)],
         technique=PBT + "a server that answers as generated, and what it was asked compared",
         note="Redirections are not covered. Trusts the HTTP and JSON libraries and rapid."),
]
