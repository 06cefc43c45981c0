#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept here so that statements are reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
D="libparted/disk.c"; L="libparted/arch/linux.c"; G="libparted/labels/gpt.c"; M="libparted/labels/dos.c"
LAB=["libparted/labels/%s.c"%x for x in "gpt dos sun bsd mac pc98 dvh rdb atari loop aix".split()]
def m(name,where): return dict(name=name,where=where)

p("C01","A successful commit survives power loss",
 "Once a change to a partition table has been reported as successful (the library's commit call returned success, or parted exited with status 0), the new table is on stable storage. A power cut at any later moment - which discards, reorders or tears every write the device had not been told to flush - leaves a device from which exactly that table is read. This holds for every label type that can be written, for block devices and image files, and for every sector size.",
 ["crash_points","histories","fault_sequences","configurations"],"all edit histories x all label types x all power-cut outcomes of the un-flushed writes",
 "Tests run on page-cached files and never lose power, so a missing or misplaced flush is invisible to them.",
 [D,L]+LAB,[m("flush before reporting success","*_write / ped_disk_commit_to_dev -> ped_device_sync"),m("fsync on device","linux_sync, linux_close")],
 [dict(name="page cache vs. stable storage",meaning="writes not yet fsynced may be lost",where="kernel (simulated)")],["write/fsync system calls","commit return value","exit status"])
p("C02","An interrupted table edit leaves the old or the new table",
 "If the process is killed or power is lost at any point while an edited GPT table, or a table of a format that fits in its boot sector (MBR without logical partitions, Sun, BSD, PC-98, DVH), is being committed over an existing table of the same format, the next session reads either the complete old or the complete new table. For GPT this may need the backup copy and the user's agreement to use it, but never a mixture, and never an unreadable label.",
 ["crash_points","histories","fault_sequences"],"all edits x all crash points x all subsets/tears of un-flushed writes",
 "No test kills parted in the middle of a commit, and no test loses or tears device writes.",
 [G,M,D,L,"libparted/labels/sun.c","libparted/labels/bsd.c","libparted/labels/pc98.c","libparted/labels/dvh.c"],[m("two checksummed copies written one after the other","gpt_write, gpt_read"),m("single sector update","msdos_write, sun_write, bsd_write, dvh_write, pc98_write")],
 None,["device write log","next session's read"])
p("C03","Editing a table never touches partition contents",
 "Whatever sequence of table edits, answers to questions, I/O errors and crashes occurs, the library and the CLI write only to sectors that the label format reserves for its own metadata. No byte inside any partition that is in the table both before and after the edit is ever modified - also with logical partitions, with large sectors, on re-reading and repairing a damaged label, and when a label is replaced by another only the label areas are overwritten. Telling the kernel about a table writes nothing to the device at all.",
 ["inputs","histories","fault_sequences","crash_points"],"all edit histories x label types x sector sizes x faults",
 "Tests check the printed table after a handful of edits; they do not compare data sectors and do not inject faults.",
 [D,L]+LAB,[m("metadata areas reserved in memory","*_alloc_metadata"),m("sector-granular writes","ptt_write_sector, ped_device_write")],None,["every device write: offset and length"])
p("C04","Inspecting a device never writes to it",
 "Probing, opening, printing, listing and checking devices, and every command the user cancels or that fails before it commits, leave each byte of every device as it was. This holds also for damaged or foreign labels and for devices on which errors occur; in script mode without --fix no repair is ever written, and in any mode a repair is written only after the user chose it.",
 ["inputs","fault_sequences","histories"],"all device contents (valid, damaged, crafted) x read-only commands x answers x I/O errors",
 "Tests inspect a few well formed labels; nothing verifies the absence of writes on damaged ones or under errors.",
 [D,L,"parted/parted.c","parted/ui.c"]+LAB,[m("ask before repairing","*_read exceptions"),m("script mode answers nothing","exception_handler")],None,["write system calls"])
p("C05","Device errors are reported, never swallowed",
 "When reading, writing, seeking in, flushing or opening a device fails and the user does not explicitly choose to ignore it, the operation in progress fails visibly: the library call returns failure and parted exits non-zero. A commit never reports success unless all its data reached the device; short transfers are completed, a retry that succeeds gives the same result as no error, and data returned as successfully read is what the device holds.",
 ["fault_sequences","inputs","histories"],"all operations x all positions and kinds of I/O errors (EIO, ENOSPC, EINTR, short transfer, end of file, read-only) x all answers",
 "Tests never see an I/O error; every error branch of the device layer and the label writers is unexercised.",
 [L,D,"parted/parted.c","libparted/device.c"]+LAB,[m("retry/ignore/cancel loop","linux_read, linux_write, _do_fsync"),m("error propagation","*_write, ped_disk_commit, do_*")],None,["system-call results","return values","exit status"])
p("C06","The kernel's partitions match the committed table",
 "After a commit to a block device (or partprobe) succeeds, the set of partitions the kernel knows, with their numbers, starts and sizes, is that of the table on disk; if it cannot be made so, the user is told and the operation does not succeed. A partition that is in use is never removed or altered in the kernel, a partition the edit does not change is never even momentarily removed, and partitions that stop being busy within the retry period are handled without an error. A dry run of partprobe changes nothing.",
 ["schedules","histories","fault_sequences","configurations"],"all edits x kernel states x busy/released schedules x failing ioctls x device types",
 "The tests work on plain files, for which the kernel synchronisation is skipped altogether.",
 [L,D,"partprobe/partprobe.c"],[m("remove, resize, add with retry","_disk_sync_part_table"),m("BLKPG ioctls","_blkpg_add_partition, _blkpg_remove_partition, _blkpg_resize_partition"),m("device-mapper partitions","_dm_add_partition, _dm_remove_partition, _dm_resize_partition")],
 [dict(name="kernel partition table",meaning="what the running system uses",where="kernel (simulated)")],["BLKPG ioctls and device-mapper calls","sysfs"])
p("C07","What is committed is what is read back",
 "The table a later session reads from the device equals the committed one: partition numbers, types, exact start and end sectors, flags, names, type codes or type and unique identifiers, and disk-level flags. The bytes on disk also follow the published format, so an independent reader of the format finds the same partitions, and all checksums, backup copies, chains and fixed fields are right. This holds for every label type, sector size and device size, after any history of edits.",
 ["histories","inputs","configurations"],"all edit histories x label types x sector sizes x device sizes",
 "Tests check a few scripted tables, mostly GPT and MBR, with parted reading back its own output.",
 [D]+LAB,[m("writers and readers of each label","*_write, *_read")],None,["device bytes","fresh-process read","independent decoders"])
p("C08","The in-memory table is always geometrically valid",
 "After every library call, successful or not, partitions of a disk do not overlap each other or label metadata, lie within the device, logical partitions lie within the extended one, numbers are unique and within the label's limits, and a partition that was added or resized satisfies the constraint it was given. Free and metadata regions together with partitions cover the device without overlap. This also holds for any table accepted from a device.",
 ["histories","inputs","fault_sequences"],"all sequences of library calls, including failing ones, on all labels",
 "Tests exercise a handful of add/resize sequences and look at the printed outcome only.",
 [D,"libparted/cs/constraint.c","libparted/cs/geom.c"]+LAB,[m("overlap check and alignment","ped_disk_add_partition, ped_disk_set_partition_geom, _check_partition"),m("sanity check","_disk_check_sanity")],None,["public iteration API"])
p("C09","A failed or declined operation changes nothing",
 "When a table operation fails or the user declines it, the table in memory is as it was before, a later commit of other changes does not carry it out, and the device is unchanged if it failed before writing. In the CLI this holds across the commands of one interactive session.",
 ["histories","fault_sequences"],"all operation sequences with failing or declined members",
 "Tests check error messages of single failing commands, not that nothing of them leaks into later ones.",
 [D,"parted/parted.c","parted/ui.c"],[m("undo on failure","ped_disk_add_partition, ped_disk_set_partition_geom, ped_disk_maximize_partition"),m("drop the disk on command failure","interactive_mode, command_run")],None,["table before/after each call"])
p("C10","A duplicated disk is equivalent to the original",
 "A duplicate of a disk object compares equal to the original in every observable respect, and is independent: editing or destroying either does not affect the other. Committing the duplicate produces the same bytes on the device as committing the original.",
 ["histories","inputs"],"all tables of all label types, followed by all edits of either copy",
 "One small unit test duplicates a trivial MBR disk.",
 [D]+LAB,[m("deep copy","ped_disk_duplicate, *_duplicate, *_partition_duplicate")],None,["library API","device bytes"])
p("C11","Arbitrary device contents cannot crash or hang",
 "Whatever bytes a device holds - random, bit-flipped, truncated, torn by a crash or maliciously crafted with valid checksums - and whatever reads of it fail, probing, reading, printing and editing it terminates without memory errors, aborts or unbounded loops. The result is an error or a valid table.",
 ["inputs","fault_sequences","crash_points"],"all device contents x read errors",
 "Tests contain a few specific corruptions that once crashed.",
 LAB+[D,"libparted/fs"],[m("validation of on-disk fields","*_read, *_probe")],None,["process exit","sanitizer reports","event budget"])
p("C12","Running out of memory never damages a device",
 "If a memory allocation fails at any point of any operation, the device afterwards holds either the table from before or the complete new table (for formats and edits where an interrupted edit guarantees this), no partition content is altered, and success is not reported for an edit that was not carried out. The process may stop, but nothing half done is committed.",
 ["fault_sequences","histories"],"all operations x the position of the failing allocation",
 "No test injects allocation failures.",
 [D,L,"libparted/libparted.c"]+LAB,[m("NULL checks","ped_malloc callers")],None,["allocator results","device bytes","exit status"])
p("C13","Resizing a FAT or HFS file system preserves its files",
 "When libparted-fs-resize reports success in resizing a FAT file system, every file and directory is present with the same contents and attributes and the file system is structurally sound in its new size; nothing outside the old and new file-system regions is written. If a read or write fails and the error is not ignored, failure is reported.",
 ["inputs","histories","fault_sequences"],"all file-system images x old/new geometries x I/O errors",
 "The file-system resize tests need tools and devices absent here; only happy paths on empty file systems are covered.",
 ["libparted/fs/r/filesys.c","libparted/fs/r/fat/resize.c","libparted/fs/r/fat/clstdup.c","libparted/fs/r/fat/fat.c"],[m("cluster duplication and FAT rewrite","fat_resize, fat_duplicate_clusters, fat_construct_new_fat")],None,["device bytes","independent FAT reader"])
p("C14","Scripted runs end by themselves and tell the truth",
 "In script mode parted never waits for input; with any input - including end of input or an interrupt at any prompt - it terminates in bounded steps. It exits 0 exactly when every requested command was carried out; after a failing command no further command runs, and no change is committed by a run that reports failure before committing.",
 ["inputs","fault_sequences","histories"],"all command lines x inputs x interruption points x faults",
 "Tests use a few scripted dialogues, without interruptions.",
 ["parted/parted.c","parted/ui.c","parted/command.c"],[m("no prompting in script mode","exception_handler, command_line_prompt_words"),m("exit status","main, non_interactive_mode, interactive_mode")],None,["exit status","stdin reads","device bytes"])
p("C15","In-use partitions and devices are protected",
 "While a partition is mounted or used as swap, parted refuses to delete or resize it, and refuses to re-label a device that has any partition in use or is itself in use, unless the user confirms; in script mode it is refused outright. Nothing is written and no kernel partition is changed by a refused command. A use in any kernel-provided naming of the device (SCSI, NVMe, MMC, virtio, loop, MD, device-mapper) counts.",
 ["configurations","schedules","histories"],"all device types x mount/swap states x commands x answers",
 "Tests that mount something need privileges and devices absent here; none covers naming schemes.",
 ["parted/parted.c",L,D],[m("busy checks","_disk_warn_busy, _partition_warn_busy, linux_is_busy, linux_partition_is_busy")],None,["exit status","device bytes","kernel partitions"])
p("C16","Printed tables are truthful and machine output well-formed",
 "The human, machine-readable and JSON listings give, for every partition, the number, start, end, size, name, type, flags and identifiers of the table on the device at that time, also in sessions after crashes, repairs and edits. For any names and model strings stored on the device, JSON output is valid JSON and each machine-readable record is one line with a fixed number of fields.",
 ["histories","inputs"],"all reachable device states x output modes x stored strings",
 "Tests compare few fixed outputs.",
 ["parted/parted.c","parted/jsonwrt.c","parted/ui.c","parted/table.c"],[m("listing code","do_print, _print_disk_info, ul_jsonwrt_*")],None,["standard output"])
p("C17","GPT survives damage to either copy and repairs it",
 "If the primary or the backup copy of a GPT (header or entry array) is damaged in any way or cannot be read while the other is intact, the table is still read completely and correctly from the intact one, and when the user accepts the repair both copies are valid afterwards and hold that table. If the device has grown, reading still works and after the accepted fix the backup is at the new end and the space is usable. Partition contents are not affected.",
 ["fault_sequences","crash_points","histories"],"all tables x damage to one copy (bit flips, lost/torn sectors, read errors) x device growth x answers",
 "Tests damage one fixed location of one table.",
 [G],[m("fallback to the alternate header","gpt_read, gpt_read_headers"),m("repair","gpt_write")],None,["fresh-process read","independent decoder"])
p("C18","A command changes exactly what it names",
 "After a successful mkpart, rm, resizepart, set, name, type, toggle, disk_set or mklabel command (or library edit), the table on the device is the previous one with just the requested attribute, partition or label changed to the requested value: exact sectors when exact sectors were requested, and every other partition and attribute, including identifiers and numbers, identical. The only exceptions are those the format dictates: logical partitions of an MBR renumber when an earlier one is removed, and mutually exclusive flags switch each other off.",
 ["histories","inputs"],"all tables x all commands with all arguments, over multi-session histories",
 "Tests look at one attribute after one command on tiny tables.",
 ["parted/parted.c",D]+LAB,[m("command implementations","do_mkpart, do_rm, do_resizepart, do_set, do_name, do_type"),m("label setters","*_partition_set_flag, *_set_name, *_partition_enumerate")],None,["table before and after, fresh process"])
p("C19","Devices are released on every path",
 "Every library operation, successful or not and whichever of its system calls fails, leaves the device opened exactly as often as before, and after the last close or the end of a command no descriptor on any device remains. Access can be suspended and resumed around external programs without losing the open state.",
 ["fault_sequences","histories"],"all operations x failing system calls",
 "Tests end the process after each command, which hides leaked opens.",
 [L,"libparted/device.c",D],[m("open counting","ped_device_open, ped_device_close, ped_device_begin_external_access")],None,["descriptor table of the (simulated) kernel","open count"])
p("C20","Units and sizes parse and print consistently",
 "Parsing a printed location gives a range containing the original sector, in every unit; explicit sector or byte locations are exact.",
 ["inputs"],"all unit strings","Unit tests sample.",
 ["libparted/unit.c"],[m("parser and formatter","ped_unit_*")])
p("C21","Constraint and geometry algebra is sound",
 "Intersecting and solving alignments and constraints yields exactly the common solutions.",
 ["inputs"],"all alignments, geometries, constraints","Unit tests sample.",
 ["libparted/cs/natmath.c","libparted/cs/constraint.c","libparted/cs/geom.c"],[m("algebra","ped_alignment_intersect, ped_constraint_solve_nearest")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
