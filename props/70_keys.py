PBT = "property-based testing (rapid), "
SBT = "stateful model-based property testing (rapid), "
KS = "keystore/keystore.go"
CR = "crypto/signatures.go"
SU = "components/idensigner/idensigner.go"
TRUST = " Trusts the crypto libraries and rapid."

PROPS = [
    dict(id="K01", title="The key store keeps the keys it was given, under their passwords",
         statement="Every key that was created or imported without an error can be unlocked with its last password, and with no other, now and after closing and reopening the store, whatever other imports failed half-way (an error of the storage, a full disk); a failed import leaves no trace. Only unlocked keys sign and are exported, never those of a closed store, and they are the keys of their public key; nothing readable of them is in the file, which only its owner can read. A file that was altered is refused or its altered keys are, without a crash and without holding on to the file.",
         over=["histories", "inputs", "crash points"],
         forall="all histories of creating, importing, unlocking, exporting, closing and reopening with any passwords, all points at which a write fails, and all alterations of the file",
         why="The tests import and unlock one key, and no write fails in them.",
         files=[KS],
         mechanism=[("EncryptData / DecryptData", KS), ("NewKeyStore / Close / ImportKey / UnlockKey / ExportKey", KS), ("FileStorage.Read / Write, MemStorage", KS)],
         technique=SBT + "a model of keys and passwords, injected write faults and a limit on the file size; altered ciphertexts and files",
         note="Passwords that only differ by zero bytes at the end are the same key for scrypt and not told apart. The cost parameters are kept small." + TRUST),
    dict(id="K02", title="Signatures verify for what was signed, and nothing else",
         statement="A signature made with a key of the key store (of an element, of raw bytes, or of a prefix, date and message) or with an Ethereum account verifies with the public key or address of that key for exactly that content, also after being written and read as text; with any other key, prefix, date, message or altered signature it does not. Numbers that are no element of the field are refused, and junk for a signature or key gives an error or a false, never a crash. Signing changes nothing of the caller's.",
         over=["inputs"],
         forall="all keys, messages, prefixes and dates, and all single alterations of them",
         why="The tests sign a few fixed messages and alter nothing.",
         files=[KS, SU, CR, "utils/utils.go"],
         mechanism=[("Sign / SignRaw / SignElem", KS), ("SignEthMsg / SignEthMsgDate", SU), ("Sign / SignEthMsg / VerifySigEthMsg", CR), ("VerifySignature / VerifySignatureRaw / VerifySignatureElem", KS)],
         technique=PBT + "round trip and metamorphic alteration, against the signature library",
         note="Contents that only differ by zero bytes at the end of the last 31-byte block are the same for the library's hash of bytes, and where the prefix ends is not signed; neither is told apart." + TRUST),
    dict(id="K03", title="A key store file has one owner at a time",
         statement="Of all the storages of a file, in one process or several, at most one holds it, from its lock to its own unlock; unlocking by another or closing twice releases nothing of the holder's, and after the holder's unlock it can be taken again. Goroutines can share a key store: each sees what it did, and all that was imported is in the storage.",
         over=["histories", "schedules"],
         forall="all histories of locking and unlocking by several storages, and all schedules of goroutines",
         why="The test locks the file once with two key stores.",
         files=[KS],
         mechanism=[("FileStorage.TryLock / Unlock", KS), ("NewKeyStore / Close", KS)],
         technique=SBT + "a model of the holder, and goroutines under the race detector",
         note="Two owners of the same storage object are not told apart." + TRUST),
]
