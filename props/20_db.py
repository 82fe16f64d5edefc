PBT = "property-based testing (rapid), "
PROPS = [
    dict(id="D01", title="Storages are ordered maps with atomic transactions and separate prefixes",
         statement="The in-memory and the on-disk storage behave as one ordered map in which each prefix is a view of its own part: what a transaction wrote is seen by that transaction at once, by everybody else when and only when it is committed, all together, and never if it is dropped or the process dies before. Listing and iterating yield exactly the pairs of the view in order, stop when told to, pass errors on and do not block writers; a reopened on-disk storage has what was committed, and a torn log leaves some whole number of commits.",
         over=["histories", "schedules", "crash_points"],
         forall="all histories of interleaved transactions under overlapping prefixes, all listings, all cuts of the on-disk log, all schedules of a writer and listers",
         why="The tests run a few fixed sequences; they neither interleave transactions, nor compare the two implementations, nor crash.",
         files=["db/storage.go", "db/memory.go", "db/leveldb.go", "db/kvmap.go", "db/utils.go"],
         mechanism=[("memory transactions", "db/memory.go"), ("leveldb batches", "db/leveldb.go"), ("KvMap insertion order", "db/kvmap.go")],
         technique=PBT + "stateful model-based (ordered map), crash images, concurrent visibility",
         note="Crashes are images of the on-disk files with the log cut at a generated byte; trusts goleveldb for what it does with them."),
    dict(id="D02", title="Stored lists, counters and JSON values read back what was committed",
         statement="A stored list holds exactly the appended items in order, each retrievable by its position, independent of other lists in the same storage even if their names are prefixes of each other, and positions outside it are refused. Counters and JSON values read back what the same transaction or a committed one wrote last, and dropped transactions leave no trace, also after reopening.",
         over=["histories", "inputs"],
         forall="all histories on several lists, counters and values in one storage, with committed and dropped transactions",
         why="The tests append a few items to one list in a fresh storage.",
         files=["db/storageutils.go", "db/storage.go"],
         mechanism=[("StorageList.Append/Get/GetByIdx/Length", "db/storageutils.go"), ("StorageValue", "db/storageutils.go"), ("StoreJSON/LoadJSON", "db/storageutils.go")],
         technique=PBT + "stateful model-based against plain Go values",
         note="On both storages, with prefixes that alias and prefix each other."),
]
