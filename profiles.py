"""Per property: builds and budgets of its check, and how the evidence describes it."""
# (build, plans in quick, seconds cap in quick, plans in thorough, seconds cap in thorough)
def _p(q, sq=75, t=4000000, st=1500, flavor="fast"): return (flavor, q, sq, t, st)
PROFILES = {
    "C01": [_p(16000, 80)], "C02": [_p(14000, 80)], "C03": [_p(24000, 80)], "C04": [_p(14000)], "C05": [_p(16000)], "C06": [_p(16000)], "C07": [_p(24000, 80)], "C08": [_p(40000, 80)],
    "C09": [_p(16000)], "C10": [_p(30000, 80)], "C11": [_p(9000, 75, 1000000, 900, "asan"), _p(20000, 60)], "C12": [_p(12000, 90)], "C14": [_p(14000)], "C15": [_p(16000)], "C16": [_p(14000)], "C17": [_p(14000, 80)], "C18": [_p(16000)], "C19": [_p(16000)],
}
RULES = {}
_edit = "seeded plans: a generated device (kind, sector size, topology, size), a label, and several processes each performing random table operations and commits; "
RULES["C01"] = _edit + "non-trivial: at least one commit reported success and its post-commit crash states were read back"
RULES["C02"] = _edit + "crash states are built for every commit over a table of the same format: after every prefix of its writes, and 14 random power cuts with lost and torn sectors; non-trivial: at least one such state was read back"
RULES["C03"] = _edit + "non-trivial: at least one commit wrote to the device"
RULES["C05"] = _edit + "with errors, short transfers, end of file and bad ranges injected into reads, writes, syncs, opens and ioctls at chosen points; non-trivial: at least one error reached the code"
RULES["C06"] = _edit + "non-trivial: at least one commit succeeded on a block device"
RULES["C07"] = _edit + "non-trivial: at least one commit succeeded and was read back"
RULES["C08"] = _edit + "non-trivial: at least one commit succeeded"
RULES["C09"] = _edit + "non-trivial: at least one commit succeeded"
RULES["C10"] = _edit + "non-trivial: at least one commit succeeded"
RULES["C11"] = "seeded plans: a device holding a real table of any format that is then damaged (random bytes, bit flips, fields set to extremes with checksums made right, truncation, blocks of other formats, random contents), then library, parted and partprobe processes that probe, read, list, edit, duplicate and commit it, with read errors and every kind of answer; non-trivial: a damaged device was read"
RULES["C12"] = "seeded plans: a generated device and table, then library and parted processes that edit, commit, read, duplicate and make labels while one, three or all further allocations of libparted, the program or the C library on their behalf fail, from an allocation chosen by the seed (half of them within reading, making and committing a label); non-trivial: an allocation failed"
_cli = "seeded plans: a generated device and table, then parted processes (script, interactive with and without a terminal, argv) given generated commands, answers, end of input and interrupts, and I/O errors; "
RULES["C04"] = _edit + _cli + "non-trivial: at least one commit succeeded or a command was run that must not write"
RULES["C14"] = _cli + "non-trivial: a parted process ran to its end"
RULES["C15"] = "seeded plans: a table on a block device, partitions mounted or used as swap by simulated other processes, then parted commands that delete, resize, relabel; non-trivial: something on the device was in use"
RULES["C16"] = _cli + "each ends with a listing (human, machine, JSON; with and without free space) of devices with arbitrary models and partition names, also after killed sessions; non-trivial: a listing was parsed and compared with the table"
RULES["C17"] = "seeded plans: a GPT with generated partitions, then damage to one copy (header bits, fields under a right checksum, entry array, zeroed, random, copied from the other, unreadable) or a larger device, then processes that look, repair or edit, also killed and hit by errors; non-trivial: a damaged table was read or repaired"
RULES["C18"] = _edit + "non-trivial: at least one commit succeeded"
RULES["C19"] = _edit + "non-trivial: at least one commit succeeded"
COMPONENTS = {
    "real": ["libparted (all label types, device layer arch/linux.c, caches, constraints, file system probes)", "libparted-fs-resize", "parted CLI (main, command parser, ui, json)", "partprobe", "gnulib"],
    "simulated": ["kernel block devices, partition tables, BLKPG/BLKSSZGET/HDIO ioctls, procfs, sysfs", "device-mapper (libdevmapper)", "libblkid topology", "clock and sleeping", "libuuid / getrandom", "terminal input (readline, isatty, SIGINT)", "allocator failures", "power cuts and process kills"],
    "not_run": ["dasd.c, fdasd.c, vtoc.c (s390 only, not built here)", "GNU Hurd and BeOS back ends (not built here)"],
}
ASSUMPTIONS = [
    "the simulated kernel behaves as Linux does for the calls parted makes (BLKPG, fsync, page cache, O_EXCL, procfs and sysfs contents)",
    "a write is durable once fsync (or sync) on the device returned success after it, and a sector is written atomically",
    "answers to questions and arguments come from the generator; a seed determines one execution exactly",
]

NOT_APPLICABLE = {
    "C20": "parsing and printing of units are pure functions of their arguments: no schedule, time, I/O or fault can influence them, so there is nothing for a simulator to decide (exact sector requests through the CLI are covered by C18)",
    "C21": "constraint and geometry arithmetic are pure functions: no concurrency, time, I/O or fault is involved (their use in table edits is covered by C08 and C18)",
}
NOTES = {
    "C01": "Every commit that reports success is followed by simulated power cuts (only flushed writes; random and torn subsets of the rest) and a fresh process must read the committed table.",
    "C02": "For every commit over a table of the same format, every prefix of its writes and random power cuts are read back by a fresh process: old or new table, nothing else (the boot flag of the protective MBR, a sector of its own, may be either).",
    "C17": "A copy of a GPT is damaged or made unreadable, or the device grows; every reader must still see the table, accepted repairs must leave two valid copies in their places, and a kill or power cut during them must leave the table readable.",
    "C03": "Every write of every commit is compared with the regions an independent decoder attributes to the label, and with the partitions present before and after.",
    "C05": "Whatever reports success although a device call failed must have done its work: table flushed and readable, raw data read, written and synced.",
    "C06": "After successful commits the partitions the simulated kernel knows must be those of the table.",
    "C07": "After the last commit of a process a fresh process, and an independent decoder of the format, must find the committed table.",
    "C08": "Invariant monitor on the table after every single library call, and on tables read back.",
    "C09": "Every library call that fails must leave the in-memory table as it was.",
    "C10": "Duplicates are compared with the original, mutated and destroyed, and used in place of the original.",
    "C11": "Sanitizers, an event budget and a CPU limit watch every process that meets the damaged device; a table accepted without a question must have distinct positive numbers and partitions inside the device that do not overlap.",
    "C12": "Allocations fail at seeded points; commits interrupted by that are judged like kills (old or new table, formats as in C02), writes are confined as in C03 and C04, and whatever succeeded must read back, survive a power cut and agree with the model of the operation. Stopping on a signal is allowed.",
    "C04": "Any write outside a commit window needs an earlier answer Fix/Yes of the user; sessions without a commit leave the device bytewise alone; relabelling only where asked.",
    "C14": "Whole parted processes: no input is read in script mode, every process ends, exit status and number of committed changes agree with an executable model of the requested commands.",
    "C15": "Other simulated processes mount and use partitions; deletion, resizing and relabelling must be confirmed, and refused commands must change neither device nor kernel.",
    "C16": "Every listing is parsed strictly and compared with the table an independent process reads from the device.",
    "C18": "Frame conditions after every successful library call: only the named thing changed, to the requested value.",
    "C19": "Open counts and descriptors are compared around every library call and at process end.",
}
