From cb6d92bd9d0806865af6e9517f3dd4d3acbd9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 01/84] fix: gpt: keep the old name when a new one cannot be
 stored

A name that could not be converted left a translated name in memory that
differed from what was written, and a too-long one was stored cut off but
reported whole until the table was read again.
---
 libparted/labels/gpt.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..f648559 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1703,24 +1703,31 @@ gpt_partition_set_name (PedPartition *part, const char *name)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
 
-  free(gpt_part_data->translated_name);
-  gpt_part_data->translated_name = xstrdup(name);
   iconv_t conv = iconv_open ("UCS-2LE", nl_langinfo (CODESET));
   if (conv == (iconv_t)-1)
     goto err;
-  char *inbuff = gpt_part_data->translated_name;
-  char *outbuff = (char *)&gpt_part_data->name;
-  size_t inbuffsize = strlen (inbuff) + 1;
-  size_t outbuffsize = 72;
-  if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
-    goto err;
+  efi_char16_t new_name[36] = { 0 };
+  char *inbuff = (char *) name;
+  char *outbuff = (char *) new_name;
+  size_t inbuffsize = strlen (name) + 1;
+  size_t outbuffsize = sizeof (new_name);
+  bool failed = iconv (conv, &inbuff, &inbuffsize,
+                       &outbuff, &outbuffsize) == (size_t) -1;
+  bool too_long = failed && errno == E2BIG;
   iconv_close (conv);
-  return;
+  /* A name that cannot be represented leaves the old one alone; one that is
+     too long is cut off, and reads back as it will be stored.  */
+  if (failed && !too_long)
+    goto err;
+  free (gpt_part_data->translated_name);
+  gpt_part_data->translated_name = too_long && *inbuff ? NULL : xstrdup (name);
+  memcpy (gpt_part_data->name, new_name, sizeof (new_name));
+  if (!too_long || !*inbuff)
+    return;
  err:
   ped_exception_throw (PED_EXCEPTION_WARNING,
                        PED_EXCEPTION_IGNORE,
                        _("failed to translate partition name"));
-  iconv_close (conv);
 }
 
 static const char *
-- 
2.43.0


From 7718f29a4cd678c9d5dcc72305716f1895018493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 02/84] fix: align and bound partitions of a fresh disk label

_partition_align skipped the label's own checks whenever needs_clobber was
set, which is so until the first commit of a new label and not only while
reading: partitions could be put over the label's metadata.
---
 libparted/disk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..0705762 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -66,6 +66,10 @@ static int _disk_raw_add (PedDisk* disk, PedPartition* part);
 
 static PedDiskType*	disk_types = NULL;
 
+/* Value of PedDisk.needs_clobber while the table is being read from the
+   device: partitions are then taken as they are, and not aligned.  */
+#define BEING_READ 2
+
 void
 ped_disk_type_register (PedDiskType* disk_type)
 {
@@ -198,6 +202,7 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
+	disk->needs_clobber = BEING_READ;
 	if (!type->ops->read (disk))
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
@@ -951,7 +956,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->needs_clobber == BEING_READ)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From 627a297595378ac7d4cbdbee63c5e31e44cb0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 03/84] fix: restore the geometry before recomputing free space
 when a resize fails

---
 libparted/disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0705762..96d811b 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2343,6 +2343,8 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	/* before free space and metadata are computed anew */
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From ade129334e575ac44508347e247e8f49d242a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:07 +0000
Subject: [PATCH 04/84] fix: dos: do not offer to hide an extended partition

Its type would become one that is not recognised as extended, and all the
logical partitions be lost when the table is read again.
---
 libparted/labels/dos.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..75e7abc 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1711,7 +1711,10 @@ msdos_partition_is_flag_available (const PedPartition* part,
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-		return dos_type_id_supports_hidden(dos_data->system);
+		/* A hidden one would not be read back as an extended
+		   partition, and all its logical partitions be lost.  */
+		return !(part->type & PED_PARTITION_EXTENDED)
+		       && dos_type_id_supports_hidden(dos_data->system);
 
 	case PED_PARTITION_LBA:
 		return dos_type_id_supports_lba(dos_data->system);
-- 
2.43.0


From 794e1bbdaac0b24023fb1bb0d8d11e67d170655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 05/84] fix: dos: keep the extended partition's metadata within
 it

In an extended partition shorter than a track the metadata region reached
past its end, could not be added, and the first sector belonged to nothing.
---
 libparted/labels/dos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 75e7abc..a4b5374 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2499,7 +2499,8 @@ msdos_alloc_metadata (PedDisk* disk)
 
 		partition_probe_bios_geometry (ext_part, &bios_geom);
 		start = ext_part->geom.start;
-		end = start + bios_geom.sectors - 1;
+		end = PED_MIN (start + bios_geom.sectors - 1,
+			       ext_part->geom.end);
 		if (ext_part->part_list)
 			end = PED_MIN (end,
 				       ext_part->part_list->geom.start - 1);
-- 
2.43.0


From bed782e1ae2c621709b1459e461b5003cb49a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 06/84] fix: dos: an extended partition must start before its
 logical ones

The alignment to sector 2048, or to the second head, ignored that a logical
partition may start there; its first sector was then used for a table.
---
 libparted/labels/dos.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index a4b5374..a87caf9 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1894,6 +1894,8 @@ _primary_start_constraint (const PedDisk* disk,
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (min_geom) {
+		if (min_geom->start < start_pos)
+			return NULL;
 		if (!ped_geometry_init (&start_geom, dev, start_pos, 1))
 			return NULL;
 		if (!ped_geometry_init (&end_geom, dev, min_geom->end,
-- 
2.43.0


From 120993aa6caa0e34056d864b756edac7411ca637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 07/84] fix: do not realign a partition that could not be
 maximized

---
 libparted/disk.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 96d811b..a414394 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2363,13 +2363,11 @@ int
 ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 			     const PedConstraint* constraint)
 {
-	PedGeometry	old_geom;
 	PedSector	global_min_start;
 	PedSector	global_max_end;
 	PedSector	new_start;
 	PedSector	new_end;
 	PedPartition*	ext_part = ped_disk_extended_partition (disk);
-	PedConstraint*	constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (part != NULL);
@@ -2383,8 +2381,6 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 		global_max_end = disk->dev->length - 1;
 	}
 
-	old_geom = part->geom;
-
 	if (!_disk_push_update_mode (disk))
 		return 0;
 
@@ -2407,10 +2403,7 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error:
-	constraint_any = ped_constraint_any (disk->dev);
-	ped_disk_set_partition_geom (disk, part, constraint_any,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_any);
+	/* the partition has kept its geometry */
 	_disk_pop_update_mode (disk);
 	return 0;
 }
-- 
2.43.0


From 6a963b16b6541f93ddcc8172e35aec0b595f48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 08/84] fix: dos: do not assert on logical partitions near the
 start of the disk

Enlarging the minimal extended partition by a track could take its start
below sector 0.
---
 libparted/labels/dos.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index a87caf9..a871efc 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1987,14 +1987,16 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 	 * room for LILO.  See linux/fs/partitions/msdos.c.
 	 */
 	ped_geometry_set_start (min_geom,
-				walk->geom.start - PED_MAX (1 * head_size, 2));
+				PED_MAX (0, walk->geom.start
+					    - PED_MAX (1 * head_size, 2)));
 
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
 		if (walk->geom.start < min_geom->start)
 			ped_geometry_set_start (min_geom,
-					walk->geom.start - 2 * head_size);
+					PED_MAX (0, walk->geom.start
+						    - 2 * head_size));
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
 	}
-- 
2.43.0


From bc2aae6b85aeb87e64b7f0cc596aa9dd01f36730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 09/84] fix: dos: make the lba flag work on hidden FAT
 partitions

It was offered and reported as set, but nothing changed.
---
 libparted/labels/dos.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index a871efc..647cd8a 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -288,10 +288,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16_LBA;
 		break;
 
+	    case PARTITION_FAT16_H:
+		*type_id = PARTITION_FAT16_LBA_H;
+		break;
+
 	    case PARTITION_FAT32:
 		*type_id = PARTITION_FAT32_LBA;
 		break;
 
+	    case PARTITION_FAT32_H:
+		*type_id = PARTITION_FAT32_LBA_H;
+		break;
+
 	    case PARTITION_DOS_EXT:
 		*type_id = PARTITION_EXT_LBA;
 		break;
@@ -305,10 +313,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16;
 		break;
 
+	    case PARTITION_FAT16_LBA_H:
+		*type_id = PARTITION_FAT16_H;
+		break;
+
 	    case PARTITION_FAT32_LBA:
 		*type_id = PARTITION_FAT32;
 		break;
 
+	    case PARTITION_FAT32_LBA_H:
+		*type_id = PARTITION_FAT32_H;
+		break;
+
 	    case PARTITION_EXT_LBA:
 		*type_id = PARTITION_DOS_EXT;
 		break;
-- 
2.43.0


From 2556e46e522579fd3c8338d3a7a7212a012276bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 10/84] fix: dos: leave room for the tables of all leading
 logical partitions

A logical partition other than 5 that starts a sector before it was not
given the two sectors it needs when the extended partition shrinks.
---
 libparted/labels/dos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 647cd8a..41e9c17 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2009,7 +2009,7 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		if (walk->geom.start - 2 * head_size < min_geom->start)
 			ped_geometry_set_start (min_geom,
 					PED_MAX (0, walk->geom.start
 						    - 2 * head_size));
-- 
2.43.0


From b076f98657d32581759b5423fde1c59ae6dc018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 11/84] fix: dos: write a whole sector when clearing an
 extended partition table

write_empty_table copied the sector into a 512-byte structure on the
stack and then wrote a full device sector from it, so that with larger
sectors whatever follows it on the stack ended up on the device.  Read
errors are reported, like in write_ext_table.
---
 libparted/labels/dos.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 41e9c17..4b81340 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1410,19 +1410,19 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
-	void*			table_sector;
-
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	void* s;
+	if (!ptt_read_sector (disk->dev, sector, &s))
+		return 0;
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	DosRawTable *table = s;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+
+	int ok = ped_device_write (disk->dev, table, sector, 1);
+	free (s);
+	return ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
-- 
2.43.0


From 257e74e7bffa35052f46ec1d8f2b0295ede0fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 12/84] fix: linux: size the buffer of a media check by the
 sector size, stop at end of file

---
 libparted/arch/linux.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..4a9cb62 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2134,8 +2134,8 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        if (posix_memalign(&diobuf, dev->sector_size,
+                           count * dev->sector_size) != 0)
                 return 0;
 
         for (done = 0; done < count; done += status / dev->sector_size) {
@@ -2143,7 +2143,8 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
                                (size_t) ((count-done) * dev->sector_size));
                 if (status > 0)
                         memcpy(buffer, diobuf, status);
-                if (status < 0)
+                /* an error, or nothing more to read */
+                if (status < dev->sector_size)
                         break;
         }
         free(diobuf);
-- 
2.43.0


From 2ab2252dd6f2c27a0da60da780ac543fe729486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 13/84] fix: linux: always release the descriptor of a device
 whose sync fails

---
 libparted/arch/linux.c | 45 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 4a9cb62..afd4014 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1650,6 +1650,30 @@ linux_is_busy (PedDevice* dev)
         return 0;
 }
 
+/* Write out what is pending on FD and close it.  The descriptor is released
+ * whatever fails, and close() is never repeated: Linux frees the descriptor
+ * even when it reports an error.
+ */
+static void
+_sync_and_close (int fd, const char* name)
+{
+        PedExceptionOption status = PED_EXCEPTION_RETRY;
+
+        while (status == PED_EXCEPTION_RETRY && fsync (fd) < 0)
+                status = ped_exception_throw (
+                        PED_EXCEPTION_WARNING,
+                        PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
+                        _("Error fsyncing/closing %s: %s"),
+                        name, strerror (errno));
+
+        if (close (fd) < 0)
+                ped_exception_throw (
+                        PED_EXCEPTION_WARNING,
+                        PED_EXCEPTION_IGNORE,
+                        _("Error fsyncing/closing %s: %s"),
+                        name, strerror (errno));
+}
+
 /* we need to flush the master device, and all the partition devices,
  * because there is no coherency between the caches.
  * We should only flush unmounted partition devices, because:
@@ -1681,16 +1705,7 @@ _flush_cache (PedDevice* dev)
                         fd = open (name, WR_MODE, 0);
                         if (fd > -1) {
                                 ioctl (fd, BLKFLSBUF);
-retry:
-                                if (fsync (fd) < 0 || close (fd) < 0)
-					if (ped_exception_throw (
-						PED_EXCEPTION_WARNING,
-						PED_EXCEPTION_RETRY +
-							PED_EXCEPTION_IGNORE,
-						_("Error fsyncing/closing %s: %s"),
-						name, strerror (errno))
-							== PED_EXCEPTION_RETRY)
-						goto retry;
+                                _sync_and_close (fd, name);
                         }
                 }
                 free (name);
@@ -1767,15 +1782,7 @@ linux_close (PedDevice* dev)
 
         if (dev->dirty)
                 _flush_cache (dev);
-retry:
-        if (fsync (arch_specific->fd) < 0 || close (arch_specific->fd) < 0)
-		if (ped_exception_throw (
-			PED_EXCEPTION_WARNING,
-			PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
-			_("Error fsyncing/closing %s: %s"),
-			dev->path, strerror (errno))
-				== PED_EXCEPTION_RETRY)
-			goto retry;
+        _sync_and_close (arch_specific->fd, dev->path);
         return 1;
 }
 
-- 
2.43.0


From b3916a6c865b0729d640a6b3506fe2866f86d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 14/84] fix: linux: name the model of a SCSI device that cannot
 be identified

---
 libparted/arch/linux.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index afd4014..8685ecc 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1173,6 +1173,9 @@ init_scsi (PedDevice* dev)
                         dev->path, strerror (errno))
                                 != PED_EXCEPTION_IGNORE)
                         goto error_close_dev;
+                dev->model = strdup ("Generic SCSI");
+                if (!dev->model)
+                        goto error_close_dev;
                 if (!_device_probe_geometry (dev))
                         goto error_close_dev;
                 _device_close (dev);
-- 
2.43.0


From 72615666bcdc4c5d2e72de96a38564bafb5eeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 15/84] fix: linux: do not use an uninitialised sector size
 when a device cannot be probed

---
 libparted/arch/linux.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 8685ecc..4c077c8 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1459,6 +1459,9 @@ linux_new (const char* path)
         arch_specific->topology = NULL;
 #endif
 
+        dev->length = 0;
+        dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
+        dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
         dev->open_count = 0;
         dev->read_only = 0;
         dev->external_mode = 0;
-- 
2.43.0


From f86a526f2df3fa28a18c8eab1530ef395cb4f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:20 +0000
Subject: [PATCH 16/84] fix: linux: convert the size BLKGETSIZE reports to
 sectors of the device

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 4c077c8..2d3f1ee 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -858,7 +858,8 @@ _device_get_length (PedDevice* dev)
                 return 0;
         }
 
-        return size;
+        /* BLKGETSIZE counts 512-byte sectors, whatever the sector size is */
+        return size / (dev->sector_size / PED_SECTOR_SIZE_DEFAULT);
 }
 
 static int
-- 
2.43.0


From 6c60f8ec1e80ab083c0df49ec85306b7802ef968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 17/84] fix: linux: do not give a block device of unknown
 geometry a length of 0

---
 libparted/arch/linux.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 2d3f1ee..eb0489f 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1368,13 +1368,19 @@ init_generic (PedDevice* dev, const char* model_name)
                                 break;
                 }
 
+                dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
+                dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
                 /* what should we stick in here? */
-                dev->length = dev_stat.st_size / PED_SECTOR_SIZE_DEFAULT;
+                if (S_ISBLK (dev_stat.st_mode))
+                        dev->length = _device_get_length (dev);
+                else
+                        dev->length = dev_stat.st_size
+                                      / PED_SECTOR_SIZE_DEFAULT;
+                if (dev->length <= 0)
+                        goto error_close_dev;
                 dev->bios_geom.cylinders = dev->length / 4 / 32;
                 dev->bios_geom.heads = 4;
                 dev->bios_geom.sectors = 32;
-                dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
-                dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
         }
 
         dev->model = strdup (model_name);
-- 
2.43.0


From bf7361be02599f65950edb110bb7d47f2f48b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 18/84] fix: resizepart must report a failed commit

---
 parted/parted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index fc2aeba..02cfbd9 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1914,7 +1914,8 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                             _("Shrinking a partition can cause data loss, " \
                               "are you sure you want to continue?")) != PED_EXCEPTION_YES)
                         goto error_destroy_constraint;
-        ped_disk_commit (disk);
+        if (!ped_disk_commit (disk))
+                goto error_destroy_constraint;
 
         if ((*dev)->type != PED_DEVICE_FILE)
                 disk_is_modified = 1;
-- 
2.43.0


From 3258844ef46253c70c50966613d9413738db5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 19/84] fix: an unknown command on the command line is a
 failure

---
 parted/ui.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/ui.c b/parted/ui.c
index d6d1da4..d9a580a 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -1682,7 +1682,7 @@ non_interactive_mode (PedDevice** dev, PedDisk **disk, Command* cmd_list[],
                 cmd = command_get (commands, word);
                 free (word);
                 if (!cmd) {
-                        help_msg ();
+                        print_commands_help ();
                         goto error;
                 }
                 if (!(cmd->non_interactive)) {
-- 
2.43.0


From 6f6c3f317ba5fc9a20c27f81f8f5771819d361c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 20/84] fix: do not abort at exit when the device could not be
 reopened

---
 parted/parted.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 02cfbd9..b27be75 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -2667,7 +2667,9 @@ _done (PedDevice* dev, PedDisk* diskp)
                         _("You may need to update /etc/fstab.\n"));
 }
 
-ped_device_close (dev);
+/* a command that failed to reopen the device leaves it closed */
+if (dev->open_count)
+        ped_device_close (dev);
 
 ped_timer_destroy (g_timer);
 _done_commands ();
-- 
2.43.0


From f1106ba9a02d47a2f77c7c05fc1fac20a74ee703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 21/84] fix: look for mounted partitions in the whole range of
 the device

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index eb0489f..41366a4 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1647,7 +1647,8 @@ linux_is_busy (PedDevice* dev)
         if (_partition_is_mounted_by_path (dev->path))
                 return 1;
 
-        for (i = 0; i < 32; i++) {
+        int     range = PED_MAX (_device_get_partition_range (dev), 32);
+        for (i = 0; i <= range; i++) {
                 int status;
 
                 part_name = _device_get_part_path (dev, i);
-- 
2.43.0


From ae69a80f8550076d5f9a9b66211318688d14ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 22/84] fix: mklabel warns about a device in use whatever its
 label

---
 parted/parted.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index b27be75..a44669e 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -261,16 +261,16 @@ _partition_warn_busy (PedPartition* part)
 }
 
 static int
-_disk_warn_busy (PedDisk* disk)
+_device_warn_busy (PedDevice* dev)
 {
-        if (ped_device_is_busy (disk->dev))
+        if (ped_device_is_busy (dev))
                 return ped_exception_throw (
                         (opt_script_mode
                          ? PED_EXCEPTION_ERROR
                          : PED_EXCEPTION_WARNING),
                         PED_EXCEPTION_IGNORE_CANCEL,
                         _("Partition(s) on %s are being used."),
-                        disk->dev->path) == PED_EXCEPTION_IGNORE;
+                        dev->path) == PED_EXCEPTION_IGNORE;
 
         return 1;
 }
@@ -545,9 +545,9 @@ do_mklabel (PedDevice** dev, PedDisk** diskp)
         if (!command_line_get_disk_type (_("New disk label type?"), &type))
                 goto error;
 
+        if (!_device_warn_busy (*dev))
+                goto error;
         if (disk) {
-                if (!_disk_warn_busy (disk))
-                        goto error;
                 if (!opt_script_mode && !_disk_warn_loss (disk))
                         goto error;
         }
-- 
2.43.0


From bcb18f2529d571c5ef355357a3e1a61d1187d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 23/84] fix: use the partition start and length the kernel
 reports

---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 41366a4..ede4792 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2799,7 +2799,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         if (!ok) {
                 struct hd_geometry geom;
                 int dev_fd = open (dev_name, O_RDONLY);
-                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom)) {
+                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom) == 0) {
                         *start = geom.start;
                         close (dev_fd);
                         ok = true;
@@ -2816,7 +2816,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         int fd;
         if (!ok) {
                 fd = open (dev_name, O_RDONLY);
-                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length))
+                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length) == 0)
                         ok = true;
         } else {
                 fd = -1;
-- 
2.43.0


From ebdfcf2e4140f8a59c84c62a5eddc6bec8992688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 24/84] fix: report every partition the kernel kept or did not
 accept

---
 libparted/arch/linux.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ede4792..573d696 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3187,6 +3187,7 @@ _disk_sync_part_table (PedDisk* disk)
                 if (!ok[i - 1] && errnums[i - 1] == ENXIO)
                         ok[i - 1] = 1; /* it already doesn't exist */
         }
+        int max_lpn = lpn;
         lpn = lpn2;
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
@@ -3226,11 +3227,13 @@ _disk_sync_part_table (PedDisk* disk)
 
         char *bad_part_list = NULL;
         /* now warn about any errors */
-        for (i = 1; i <= lpn; i++) {
-                if (ok[i - 1] || errnums[i - 1] == ENXIO)
+        for (i = 1; i <= max_lpn; i++) {
+                /* beyond the numbers of this label, only a partition that
+                   is in use stays behind */
+                if (ok[i - 1] || (i > lpn && errnums[i - 1] != EBUSY))
                         continue;
                 if (bad_part_list == NULL) {
-                        bad_part_list = malloc (lpn * 5);
+                        bad_part_list = malloc (max_lpn * 12);
                         if (!bad_part_list)
                                 goto cleanup;
                         bad_part_list[0] = 0;
-- 
2.43.0


From 4f9df7a340ca49eaab1ad816486541e56f20ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 25/84] fix: device-mapper partitions that are missing or have
 no table

---
 libparted/arch/linux.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 573d696..2b2bc00 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2864,6 +2864,9 @@ _dm_remove_partition(PedDisk* disk, int partno)
         uint32_t        cookie = 0;
         char            *part_name = _device_get_part_path (disk->dev, partno);
 
+        if (!part_name)
+                return 0;
+
         int fd = open (part_name, O_RDONLY | O_EXCL);
         if (fd == -1) {
                 if (errno == ENOENT)
@@ -2897,7 +2900,8 @@ _dm_get_partition_start_and_length(PedPartition const *part,
         if (!(task = dm_task_create(DM_DEVICE_TABLE)))
                 return 0;
         char *path = _device_get_part_path (part->disk->dev, part->num);
-        PED_ASSERT(path);
+        if (!path)
+                goto err;
         /* libdevmapper likes to complain on stderr instead of quietly
            returning ENOENT or ENXIO, so try to stat first */
         struct stat st;
@@ -2911,7 +2915,7 @@ _dm_get_partition_start_and_length(PedPartition const *part,
         char *params;
         char *target_type;
         dm_get_next_target(task, NULL, (uint64_t *)start, (uint64_t *)length, &target_type, &params);
-        if (sscanf (params, "%d:%d %Lu", &major, &minor, start) != 3)
+        if (!params || sscanf (params, "%d:%d %Lu", &major, &minor, start) != 3)
                 goto err;
         rc = 1;
 
-- 
2.43.0


From 535b2f733721ce11c12ac42f6a6471d69aa270be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 26/84] fix: 'print devices' must not free the device in use

---
 parted/parted.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index a44669e..0a04f18 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1321,9 +1321,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         return 0;
 
         if (has_devices_arg) {
-                char*           dev_name;
                 PedDevice*      current_dev = NULL;
-                int             status = 0;
 
                 ped_device_probe_all();
 
@@ -1335,15 +1333,17 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         free (end);
                 }
 
-                dev_name = xstrdup ((*dev)->path);
-                ped_device_free_all ();
-
-                *dev = ped_device_get (dev_name);
-                if (*dev && ped_device_open (*dev))
-                    status = 1;
-                free (dev_name);
+                /* forget the others, so that they are looked for again;
+                   *dev stays: it is open, and *diskp refers to it */
+                PedDevice*      next;
+                for (current_dev = ped_device_get_next (NULL); current_dev;
+                     current_dev = next) {
+                        next = ped_device_get_next (current_dev);
+                        if (current_dev != *dev)
+                                ped_device_destroy (current_dev);
+                }
 
-                return status;
+                return 1;
         }
 
         else if (has_list_arg)
@@ -2667,9 +2667,7 @@ _done (PedDevice* dev, PedDisk* diskp)
                         _("You may need to update /etc/fstab.\n"));
 }
 
-/* a command that failed to reopen the device leaves it closed */
-if (dev->open_count)
-        ped_device_close (dev);
+ped_device_close (dev);
 
 ped_timer_destroy (g_timer);
 _done_commands ();
-- 
2.43.0


From ec7f25572bc3b8a6dc1cd554f52b78a509ce4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 27/84] fix: keep machine readable records on one line

---
 parted/parted.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 0a04f18..9af73d1 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1166,7 +1166,13 @@ _escape_machine_string (const char *str)
                  case ':':
                  case '\\':
                      dest[j++] = '\\';
-                     /* fallthrough */
+                     dest[j] = str[i];
+                     break;
+                 case '\n':
+                     /* a record is one line */
+                     dest[j++] = '\\';
+                     dest[j] = 'n';
+                     break;
                  default:
                      dest[j] = str[i];
                      break;
-- 
2.43.0


From 96fdc644467761e118487e519edfd87b9b67c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 28/84] fix: room for the number of a partition in the listing

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 9af73d1..86666ed 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1420,7 +1420,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         part->type & PED_PARTITION_METADATA)
                             continue;
 
-                    tmp = ped_malloc (4);
+                    tmp = ped_malloc (16);
 
                     if (part->num >= 0)
                             sprintf (tmp, "%2d ", part->num);
-- 
2.43.0


From c5619ead061b04fad6a5192f42d81e52959751e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 29/84] fix: room for combining and unprintable characters in
 the listing

---
 parted/table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parted/table.c b/parted/table.c
index 63c0e6a..5f00160 100644
--- a/parted/table.c
+++ b/parted/table.c
@@ -176,7 +176,9 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
         assert(s != NULL);
 
         for (i = 0; i < ncols; ++i)
-                len += t->widths[i] + wcslen(DELIMITER);
+                /* a cell can have more characters than it takes columns,
+                   and one with unprintable characters has no width (-1) */
+                len += wcslen(row[i]) + t->widths[i] + 1 + wcslen(DELIMITER);
 
         len += wcslen(COLSUFFIX);
 
-- 
2.43.0


From baa9fe573007cec74e4d7e101a6d3b735dcc7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 30/84] fix: complete the primary GPT before overwriting the
 backup

---
 libparted/labels/gpt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index f648559..a60a098 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1304,6 +1304,11 @@ gpt_write (const PedDisk *disk)
   if (!ped_device_write (disk->dev, ptes, 2, ptes_sectors))
     goto error_free_ptes;
 
+  /* The backup is what saves the day if this is interrupted: do not touch
+     it before the primary is complete on the medium.  */
+  if (!ped_device_sync_fast (disk->dev))
+    goto error_free_ptes;
+
   /* Write Alternate PTH & PTEs */
   /* FIXME: Caution: this code is nearly identical to what's just above. */
   if (_generate_header (disk, 1, ptes_crc, &gpt) != 0) {
-- 
2.43.0


From e9ce03f546fab4dbc28f2fbbf6488d56089a01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 31/84] fix: recognise a GPT whose primary header lost its
 signature

---
 libparted/labels/gpt.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index a60a098..b653a92 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -551,14 +551,19 @@ gpt_probe (const PedDevice *dev)
     }
   free (label);
 
-  void *pth_raw = ped_malloc (pth_get_size (dev));
-  if (ped_device_read (dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (dev, pth_raw, dev->length - 1, GPT_HEADER_SECTORS))
+  uint8_t *pth_raw = ped_malloc (pth_get_size (dev));
+  if (!pth_raw)
+    return 0;
+  /* A damaged primary header does not make the backup disappear.  */
+  PedSector const where[] = { 1, dev->length - 1 };
+  for (int i = 0; i < 2 && !gpt_sig_found; i++)
     {
-      GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
-      if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
+      uint64_t signature;
+      if (!ped_device_read (dev, pth_raw, where[i], GPT_HEADER_SECTORS))
+        continue;
+      memcpy (&signature, pth_raw, sizeof signature);
+      if (signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
         gpt_sig_found = 1;
-      pth_free (gpt);
     }
   free (pth_raw);
 
-- 
2.43.0


From f3cc51c6eaa1c28d6754da1048090a869b99c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 32/84] fix: use the other copy of a GPT when one cannot be
 read

---
 libparted/labels/gpt.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index b653a92..87f175f 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -912,20 +912,21 @@ gpt_read_headers (PedDisk const *disk,
     gpt_disk_data->pmbr_boot = 1;
   free (mbr);
 
+  /* One copy that cannot be read is no reason to give up the other.  */
+  GuidPartitionTableHeader_t *pri = NULL;
   void *s1;
-  if (!ptt_read_sector (dev, 1, &s1))
-    return 1;
-
-  GuidPartitionTableHeader_t *t = pth_new_from_raw (dev, s1);
-  free (s1);
-  if (t == NULL)
-    return 1;
-  GuidPartitionTableHeader_t *pri = t;
+  if (ptt_read_sector (dev, 1, &s1))
+    {
+      pri = pth_new_from_raw (dev, s1);
+      free (s1);
+      if (pri == NULL)
+        return 1;
+    }
 
-  bool valid_primary = _header_is_valid (disk, pri, 1);
+  bool valid_primary = pri && _header_is_valid (disk, pri, 1);
   if (valid_primary)
     *primary_gpt = pri;
-  else
+  else if (pri)
     pth_free (pri);
 
   gpt_disk_data->AlternateLBA =
@@ -935,13 +936,12 @@ gpt_read_headers (PedDisk const *disk,
 
   void *s_bak;
   if (!ptt_read_sector (dev, gpt_disk_data->AlternateLBA ,&s_bak))
-    return 1;
-  t = pth_new_from_raw (dev, s_bak);
+    return gpt_disk_data->AlternateLBA >= dev->length;
+  GuidPartitionTableHeader_t *bak = pth_new_from_raw (dev, s_bak);
   free (s_bak);
-  if (t == NULL)
+  if (bak == NULL)
     return 1;
 
-  GuidPartitionTableHeader_t *bak = t;
   if (_header_is_valid (disk, bak, gpt_disk_data->AlternateLBA))
     {
       *backup_gpt = bak;
-- 
2.43.0


From f36a445a059d90e1dcdf0458859fca6efa956729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:58 +0000
Subject: [PATCH 33/84] fix: do not wipe the GPT before repairing it

---
 libparted/labels/gpt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 87f175f..e97cb4d 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1127,7 +1127,11 @@ gpt_read (PedDisk *disk)
 
 #ifndef DISCOVER_ONLY
   if (write_back)
-    ped_disk_commit_to_dev (disk);
+    {
+      /* This is the label that was found: repair it, do not wipe it first.  */
+      disk->needs_clobber = 0;
+      ped_disk_commit_to_dev (disk);
+    }
 #endif
 
   pth_free (gpt);
-- 
2.43.0


From cb4db47438682c82f72d523115bde0e270f16e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:06 +0000
Subject: [PATCH 34/84] fix: do not sum past the end of an amiga block

The length in the block counts 32-bit words, it was limited to the number
of bytes of a sector, so a crafted block made the checksum read beyond it.
---
 libparted/labels/rdb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 499d385..2b9e94d 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -136,12 +136,13 @@ static int
 _amiga_checksum (struct AmigaBlock *blk) {
 	uint32_t *rdb = (uint32_t *) blk;
 	uint32_t sum;
-	int i, end;
+	uint32_t i, end;
 
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end > PED_SECTOR_SIZE_DEFAULT / sizeof *rdb)
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof *rdb;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 72bf77d832cdb2ed7b7e0336530bfd88aadb91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 35/84] fix: reject an amiga disk whose geometry is impossible

Zero heads or sectors caused divisions by zero, huge ones overflowed the
positions of the partitions.
---
 libparted/labels/rdb.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 2b9e94d..61ba929 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -490,11 +490,20 @@ amiga_read (PedDisk* disk)
 
 	/* Let's copy the rdb read geometry to the dev */
 	/* FIXME: should this go into disk->dev->bios_geom instead? */
+	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
+		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
+	if (PED_BE32_TO_CPU (rdb->rdb_Cylinders) > INT_MAX
+	    || PED_BE32_TO_CPU (rdb->rdb_Heads) > INT_MAX
+	    || PED_BE32_TO_CPU (rdb->rdb_Sectors) > INT_MAX
+	    || cylblocks < 1 || cylblocks >= INT_MAX) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("%s : The geometry in the rdb block is invalid."),
+			__func__);
+		return 0;
+	}
 	disk->dev->hw_geom.cylinders = PED_BE32_TO_CPU (rdb->rdb_Cylinders);
 	disk->dev->hw_geom.heads = PED_BE32_TO_CPU (rdb->rdb_Heads);
 	disk->dev->hw_geom.sectors = PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
-		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
 
 	/* Remove all partitions in the former in memory table */
 	ped_disk_delete_all (disk);
-- 
2.43.0


From 47d4ab90c44483ba76628712224ce53955631aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 36/84] fix: duplicate amiga partitions with their number and
 whole block

A duplicate had no partition numbers, and what follows the first 256 bytes
of a block was uninitialised memory, written to the device at commit.
---
 libparted/labels/rdb.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 61ba929..3ece391 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -437,7 +437,7 @@ amiga_duplicate (const PedDisk* disk)
 		return NULL;
 
 	new_rdb = (struct RigidDiskBlock *) new_disk->disk_specific;
-	memcpy (new_rdb, old_rdb, 256);
+	memcpy (new_rdb, old_rdb, disk->dev->sector_size);
 	return new_disk;
 }
 
@@ -546,7 +546,7 @@ amiga_read (PedDisk* disk)
 			return 0;
 		}
 		/* And copy over the partition block */
-		memcpy(part->disk_specific, partition, 256);
+		memcpy(part->disk_specific, partition, disk->dev->sector_size);
 
 		part->num = i;
 		part->type = 0;
@@ -808,7 +808,7 @@ amiga_partition_new (const PedDisk* disk, PedPartitionType part_type,
 			return NULL;
 		}
 		partition = PART(part->disk_specific);
-		memset(partition, 0, sizeof(struct PartitionBlock));
+		memset(partition, 0, disk->dev->sector_size);
 
 		partition->pb_ID = PED_CPU_TO_BE32(IDNAME_PARTITION);
 		partition->pb_SummedLongs = PED_CPU_TO_BE32(64);
@@ -865,7 +865,8 @@ amiga_partition_duplicate (const PedPartition* part)
 		return NULL;
 
 	new_amiga_part = (struct PartitionBlock *) new_part->disk_specific;
-	memcpy (new_amiga_part, old_amiga_part, 256);
+	memcpy (new_amiga_part, old_amiga_part, part->disk->dev->sector_size);
+	new_part->num = part->num;
 
 	return new_part;
 }
-- 
2.43.0


From ed008cc3561d895b051b0580b706baeef7d001c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 37/84] fix: stay within the reserved blocks of an amiga disk

The table of used blocks was indexed by block numbers read from the disk
without a check, and partition blocks could be allocated past its end.
Also follow the list of file system headers past the first one, and do not
format a block number as a string.
---
 libparted/labels/rdb.c | 71 ++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 3ece391..cf9c96c 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -570,7 +570,7 @@ amiga_read (PedDisk* disk)
 }
 
 static int
-_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
+_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table, size_t tab_size,
 	struct LinkedBlock *block, uint32_t first, uint32_t type)
 {
 	PedSector next;
@@ -579,10 +579,17 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	PED_ASSERT(disk->dev != NULL);
 
 	for (next = first; next != LINK_END; next = PED_BE32_TO_CPU(block->lk_Next)) {
+		if (next >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : The %s list seems bad at block %lld."),
+				__func__, _amiga_block_id(type), next);
+			return 0;
+		}
 		if (table[next] != IDNAME_FREE) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_FIX | PED_EXCEPTION_IGNORE | PED_EXCEPTION_CANCEL,
-				_("%s : Loop detected at block %d."), __func__, next))
+				_("%s : Loop detected at block %lld."), __func__, next))
 			{
 				case PED_EXCEPTION_CANCEL :
 					return 0;
@@ -601,7 +608,7 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		if (PED_BE32_TO_CPU(block->lk_ID) != type) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-				_("%s : The %s list seems bad at block %s."),
+				_("%s : The %s list seems bad at block %lld."),
 				__func__, _amiga_block_id(PED_BE32_TO_CPU(block->lk_ID)), next))
 			{
 				/* TODO : to more subtile things here */
@@ -613,18 +620,22 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		}
 		table[next] = type;
 		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
-			if (_amiga_find_free_blocks(disk, table, block,
+			uint32_t following = LNK2(block)->lk2_Next;
+			if (_amiga_find_free_blocks(disk, table, tab_size, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
+			block->lk_Next = following;
 		}
 	}
 	return 1;
 }
 static uint32_t _GL_ATTRIBUTE_PURE
-_amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
-	int i;
+_amiga_next_free_block(uint32_t *table, size_t tab_size, uint32_t start,
+		       uint32_t type) {
+	uint32_t i;
 
-	for (i = start; table[i] != type && table[i] != IDNAME_FREE; i++);
+	for (i = start; i < tab_size && table[i] != type
+			&& table[i] != IDNAME_FREE; i++);
 	return i;
 }
 static PedPartition * _GL_ATTRIBUTE_PURE
@@ -644,7 +655,7 @@ amiga_write (const PedDisk* disk)
 	struct LinkedBlock *block;
 	struct PartitionBlock *partition;
 	PedPartition *part, *next_part;
-	PedSector cylblocks, first_hb, last_hb;
+	PedSector cylblocks, last_hb;
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
@@ -672,14 +683,18 @@ amiga_write (const PedDisk* disk)
 
 	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
 		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	first_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksLo);
 	last_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksHi);
 
-	/* Allocate a free block table and initialize it.
-	   There must be room for at least RDB_NUM + 2 entries, since
-	   the first RDB_NUM+1 entries get IDNAME_RIGIDDISK, and the
-	   following one must have LINK_END to serve as sentinel.  */
-	size_t tab_size = 2 + MAX (last_hb - first_hb, rdb_num);
+	if (last_hb >= disk->dev->length) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("%s : The area reserved for partition blocks is invalid."),
+			__func__);
+		return 0;
+	}
+
+	/* Allocate a free block table, indexed by block number up to the
+	   last reserved block, and initialize it.  */
+	size_t tab_size = 1 + MAX (last_hb, rdb_num);
 	if (!(table = ped_malloc (tab_size * sizeof *table)))
 		return 0;
 
@@ -695,7 +710,7 @@ amiga_write (const PedDisk* disk)
 	}
 
 	/* And fill the free block table */
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -703,7 +718,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list bad blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_PartitionList), IDNAME_PARTITION) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -711,7 +726,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list partition blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_FileSysHeaderList), IDNAME_FILESYSHEADER) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -719,7 +734,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list file system blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BootBlockList), IDNAME_BOOT) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -728,7 +743,22 @@ amiga_write (const PedDisk* disk)
 		goto error_free_table;
 	}
 
-	block_num = part_num = _amiga_next_free_block(table, rdb_num+1,
+	/* Make sure that there is a block for each partition.  */
+	block_num = rdb_num;
+	for (part = _amiga_next_real_partition(disk, NULL); part != NULL;
+	     part = _amiga_next_real_partition(disk, part)) {
+		block_num = _amiga_next_free_block(table, tab_size, block_num+1,
+						   IDNAME_PARTITION);
+		if (block_num >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : Not enough room for the partition blocks."),
+				__func__);
+			goto error_free_table;
+		}
+	}
+
+	block_num = part_num = _amiga_next_free_block(table, tab_size, rdb_num+1,
                                                       IDNAME_PARTITION);
 	part = _amiga_next_real_partition(disk, NULL);
 	rdb->rdb_PartitionList = PED_CPU_TO_BE32(part ? part_num : LINK_END);
@@ -738,7 +768,8 @@ amiga_write (const PedDisk* disk)
 		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
 
 		next_part = _amiga_next_real_partition(disk, part);
-		next_num = _amiga_next_free_block(table, block_num+1, IDNAME_PARTITION);
+		next_num = _amiga_next_free_block(table, tab_size, block_num+1,
+						  IDNAME_PARTITION);
 
 		partition = PART(part->disk_specific);
 		if (next_part == NULL)
-- 
2.43.0


From 66954635f8b73b29f96b6820388435a3fd5d2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:28 +0000
Subject: [PATCH 38/84] fix: amiga file system probes must not overrun their
 buffers

The checksum read beyond the block when its length field was too large, and
blocks were read into 512 bytes whatever the sector size.
---
 libparted/fs/amiga/affs.c  | 2 +-
 libparted/fs/amiga/amiga.c | 7 ++++---
 libparted/fs/amiga/apfs.c  | 2 +-
 libparted/fs/amiga/asfs.c  | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libparted/fs/amiga/affs.c b/libparted/fs/amiga/affs.c
index 750eab2..d5b3bea 100644
--- a/libparted/fs/amiga/affs.c
+++ b/libparted/fs/amiga/affs.c
@@ -59,7 +59,7 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	if (geom->dev->sector_size != 512)
 		return NULL;
 	/* Finds the blocksize and reserved values of the partition block */
-	if (!(part = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
+	if (!(part = ped_malloc (geom->dev->sector_size))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Failed to allocate partition block\n"), __func__);
 		goto error_part;
diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 1a909fc..3f30c82 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -159,12 +159,13 @@ static int
 _amiga_checksum (struct AmigaBlock *blk) {
 	uint32_t *rdb = (uint32_t *) blk;
 	uint32_t sum;
-	int i, end;
+	uint32_t i, end;
 
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end > PED_SECTOR_SIZE_DEFAULT / sizeof *rdb)
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof *rdb;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
@@ -273,7 +274,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 	PED_ASSERT(geom!= NULL);
 	PED_ASSERT(geom->dev!= NULL);
 
-	if (!(rdb = ped_malloc (PED_SECTOR_SIZE_DEFAULT))) {
+	if (!(rdb = ped_malloc (geom->dev->sector_size))) {
 		switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 			PED_EXCEPTION_CANCEL,
 			_("%s : Failed to allocate disk_specific rdb block\n"), __func__))
diff --git a/libparted/fs/amiga/apfs.c b/libparted/fs/amiga/apfs.c
index aeaa1f3..67e407b 100644
--- a/libparted/fs/amiga/apfs.c
+++ b/libparted/fs/amiga/apfs.c
@@ -53,7 +53,7 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 		return NULL;
 
 	/* Finds the blocksize and reserved values of the partition block */
-	if (!(part = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
+	if (!(part = ped_malloc (geom->dev->sector_size))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Failed to allocate partition block\n"), __func__);
 		goto error_part;
diff --git a/libparted/fs/amiga/asfs.c b/libparted/fs/amiga/asfs.c
index c4c65e5..04dccd3 100644
--- a/libparted/fs/amiga/asfs.c
+++ b/libparted/fs/amiga/asfs.c
@@ -67,7 +67,7 @@ _asfs_probe (PedGeometry* geom)
 		return NULL;
 
 	/* Finds the blocksize of the partition block */
-	if (!(part = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
+	if (!(part = ped_malloc (geom->dev->sector_size))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Failed to allocate partition block\n"), __func__);
 		goto error_part;
-- 
2.43.0


From 3d7ba44c48ea779e151ec45063034c2c5921d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:28 +0000
Subject: [PATCH 39/84] fix: report impossible positions in a GPT entry instead
 of aborting

---
 libparted/labels/gpt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index e97cb4d..e0c3888 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -866,6 +866,15 @@ _parse_part_entry (PedDisk *disk, GuidPartitionEntry_t *pte)
   GPTPartitionData *gpt_part_data;
   unsigned int i;
 
+  if (PED_LE64_TO_CPU (pte->StartingLBA) > PED_LE64_TO_CPU (pte->EndingLBA)
+      || PED_LE64_TO_CPU (pte->EndingLBA) >= LLONG_MAX / disk->dev->sector_size)
+    {
+      ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                           _("Invalid partition table on %s."),
+                           disk->dev->path);
+      return NULL;
+    }
+
   part = ped_partition_new (disk, PED_PARTITION_NORMAL, NULL,
                             PED_LE64_TO_CPU (pte->StartingLBA),
                             PED_LE64_TO_CPU (pte->EndingLBA));
-- 
2.43.0


From bb0893ea70b76b61bf1051d263c083bcdded5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 40/84] fix: do not read past the end of a short dvh boot file
 name

---
 libparted/labels/dvh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7d7dae3..c0f9536 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -709,7 +709,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 
 	if (part->type == PED_PARTITION_LOGICAL) {
 		/* Bootfile */
-		memcpy (dvh_part_data->name, name, VDNAMESIZE);
+		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
 	} else {
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From be14d1d64da2b54c0231655dc8bd17ef81b24afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 41/84] fix: duplicate a dvh label with its flags and one
 volume header

The boot, root and swap numbers of the duplicate were uninitialised, and
the volume header of the fresh label stayed beside the duplicated one.
---
 libparted/labels/dvh.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index c0f9536..f49a5ab 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -135,16 +135,16 @@ dvh_duplicate (const PedDisk* disk)
 	if (!new_disk)
 		goto error;
 
-	new_disk->disk_specific = new_dvh_disk_data
-		= ped_malloc (sizeof (DVHDiskData));
-	if (!new_dvh_disk_data)
-		goto error_free_new_disk;
+	/* A fresh label has a volume header, which will be duplicated.  */
+	if (!ped_disk_delete_all (new_disk))
+		goto error_destroy_new_disk;
 
-	new_dvh_disk_data->dev_params = old_dvh_disk_data->dev_params;
+	new_dvh_disk_data = new_disk->disk_specific;
+	*new_dvh_disk_data = *old_dvh_disk_data;
 	return new_disk;
 
-error_free_new_disk:
-	free (new_disk);
+error_destroy_new_disk:
+	ped_disk_destroy (new_disk);
 error:
 	return NULL;
 }
-- 
2.43.0


From 21fdfa2944f8ec64724aaec98f8f646a64126444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 42/84] fix: write a missing dvh volume header only when that
 was asked for

Reading such a label wrote to the device although nobody had answered the
question, and ignored failures to write.
---
 libparted/labels/dvh.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index f49a5ab..6dc6c1e 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -177,11 +177,12 @@ _handle_no_volume_header (PedDisk* disk)
 	PedPartition*		part;
 	PedConstraint*		constraint;
 
-	switch (ped_exception_throw (
+	PedExceptionOption answer = ped_exception_throw (
 		PED_EXCEPTION_WARNING,
 		PED_EXCEPTION_FIX + PED_EXCEPTION_CANCEL,
 		_("%s has no extended partition (volume header partition)."),
-		disk->dev->path)) {
+		disk->dev->path);
+	switch (answer) {
 		case PED_EXCEPTION_UNHANDLED:
 		case PED_EXCEPTION_FIX:
 		default:
@@ -197,7 +198,7 @@ _handle_no_volume_header (PedDisk* disk)
 			if (!ped_disk_add_partition (disk, part, constraint))
 				goto error_destroy_constraint;
 			ped_constraint_destroy (constraint);
-			ret = PED_EXCEPTION_FIX;
+			ret = answer;
 			break;
 
 		case PED_EXCEPTION_CANCEL:
@@ -395,8 +396,8 @@ dvh_read (PedDisk* disk)
 		}
 	}
 #ifndef DISCOVER_ONLY
-	if (write_back)
-		dvh_write (disk);
+	if (write_back && !dvh_write (disk))
+		goto error_delete_all;
 #endif
 	return 1;
 
-- 
2.43.0


From 5fe910cc721a3a77b13afc680387f3766533a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 43/84] fix: too many dvh boot files is an error, not an abort

---
 libparted/labels/dvh.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 6dc6c1e..2f292a3 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -792,7 +792,10 @@ dvh_partition_enumerate (PedPartition* part)
 				return 1;
 			}
 		}
-		PED_ASSERT (0);
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many logical partitions"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
-- 
2.43.0


From bde7fafa2ca3a1ed674b3588248122058c115b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 44/84] fix: do not abort on a sun label after another geometry
 was read

Reading a label that disagrees with the geometry of the device changes the
latter, a fresh label then asserted on the number of cylinders; and the
size of a cylinder could overflow.
---
 libparted/labels/sun.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 853576b..1d92895 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -175,7 +175,7 @@ sun_alloc (const PedDevice* dev)
 	SunRawLabel*	label;
 	SunDiskData*	sun_specific;
 	const PedCHSGeometry*	bios_geom = &dev->bios_geom;
-	PedSector	cyl_size = bios_geom->sectors * bios_geom->heads;
+	PedSector	cyl_size = (PedSector) bios_geom->sectors * bios_geom->heads;
 	PED_ASSERT (cyl_size != 0);
 
         disk = _ped_disk_alloc (dev, &sun_disk_type);
@@ -187,7 +187,6 @@ sun_alloc (const PedDevice* dev)
 		goto error_free_disk;
 	sun_specific = (SunDiskData*) disk->disk_specific;
 
-	PED_ASSERT (bios_geom->cylinders == (PedSector) (dev->length / cyl_size));
 	sun_specific->length = ped_round_down_to (dev->length, cyl_size);
 
 	label = &sun_specific->raw_label;
@@ -196,7 +195,7 @@ sun_alloc (const PedDevice* dev)
 	/* #gentoo-sparc people agree that nacyl = 0 is the best option */
 	label->magic	= PED_CPU_TO_BE16 (SUN_DISK_MAGIC);
 	label->nacyl	= 0;
-	label->pcylcount	= PED_CPU_TO_BE16 (bios_geom->cylinders);
+	label->pcylcount	= PED_CPU_TO_BE16 (dev->length / cyl_size);
 	label->rspeed	= PED_CPU_TO_BE16 (5400);
 	label->ilfact	= PED_CPU_TO_BE16 (1);
 	label->sparecyl	= 0;
@@ -291,7 +290,7 @@ _check_geometry_sanity (PedDisk* disk, SunRawLabel* label)
 		dev->bios_geom.heads = PED_BE16_TO_CPU(label->ntrks);
 		dev->bios_geom.cylinders = PED_BE16_TO_CPU(label->pcylcount);
 
-		if (dev->bios_geom.sectors * dev->bios_geom.heads
+		if ((PedSector) dev->bios_geom.sectors * dev->bios_geom.heads
 			      	* dev->bios_geom.cylinders > dev->length) {
 			if (ped_exception_throw (
 				PED_EXCEPTION_WARNING,
@@ -335,7 +334,8 @@ sun_read (PedDisk* disk)
 	if (!_check_geometry_sanity (disk, label))
 		goto error;
 
-	block = disk->dev->bios_geom.sectors * disk->dev->bios_geom.heads;
+	block = (PedSector) disk->dev->bios_geom.sectors
+		* disk->dev->bios_geom.heads;
 	disk_data->length = block * disk->dev->bios_geom.cylinders;
 
 	for (i = 0; i < SUN_DISK_MAXPARTITIONS; i++) {
@@ -452,7 +452,7 @@ sun_write (const PedDisk* disk)
 		label->infos[i].id = sun_data->type;
 		label->partitions[i].start_cylinder
 			= PED_CPU_TO_BE32 (part->geom.start
-				/ (disk->dev->bios_geom.sectors
+				/ ((PedSector) disk->dev->bios_geom.sectors
 				       	* disk->dev->bios_geom.heads));
 		label->partitions[i].num_sectors
 			= PED_CPU_TO_BE32 (part->geom.end
@@ -723,7 +723,8 @@ _get_strict_constraint (PedDisk* disk)
         PedAlignment    end_align;
         PedGeometry     max_geom;
 	SunDiskData*	disk_data = disk->disk_specific;
-	PedSector	block = dev->bios_geom.sectors * dev->bios_geom.heads;
+	PedSector	block = (PedSector) dev->bios_geom.sectors
+				* dev->bios_geom.heads;
 
         if (!ped_alignment_init (&start_align, 0, block))
                 return NULL;
@@ -743,7 +744,8 @@ _get_lax_constraint (PedDisk* disk)
         PedAlignment    start_align;
         PedGeometry     max_geom;
 	SunDiskData*	disk_data = disk->disk_specific;
-	PedSector	block = dev->bios_geom.sectors * dev->bios_geom.heads;
+	PedSector	block = (PedSector) dev->bios_geom.sectors
+				* dev->bios_geom.heads;
 
         if (!ped_alignment_init (&start_align, 0, block))
                 return NULL;
-- 
2.43.0


From a6299b8a97c979402598714f65ea393d3708f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:00 +0000
Subject: [PATCH 45/84] fix: report overlapping partitions when reading a pc98
 table

---
 libparted/labels/pc98.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index cfa3ba4..60e4be5 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -269,13 +269,10 @@ read_table (PedDisk* disk)
 {
 	int			i;
 	PC98RawTable		table;
-	PedConstraint*		constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
 
-	constraint_any = ped_constraint_any (disk->dev);
-
 	if (!ped_device_read (disk->dev, (void*) &table, 0, 2))
 		goto error;
 
@@ -327,8 +324,14 @@ read_table (PedDisk* disk)
 
 		part->num = i + 1;
 
-		if (!ped_disk_add_partition (disk, part, constraint_any))
+		PedConstraint *constraint_exact
+			= ped_constraint_exact (&part->geom);
+		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
+		ped_constraint_destroy (constraint_exact);
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error;
+		}
 
 		if (part->geom.start != part_start
 		    || part->geom.end != part_end) {
@@ -344,12 +347,10 @@ read_table (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 	}
 
-	ped_constraint_destroy (constraint_any);
 	return 1;
 
 error:
 	ped_disk_delete_all (disk);
-	ped_constraint_destroy (constraint_any);
 	return 0;
 }
 
-- 
2.43.0


From 0709a489be2f1caf56d55168c44ad11587a83651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 46/84] fix: do not add a mac partition map entry over other
 partitions

---
 libparted/labels/mac.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 6711d87..07c360b 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -223,7 +223,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 	PedPartition*		new_part;
 	MacPartitionData*	mac_part_data;
 	PedSector		part_map_size;
-	PedConstraint*		constraint_any = ped_constraint_any (disk->dev);
+	PedConstraint*		constraint_exact;
 
 #ifndef DISCOVER_ONLY
 	if (warn && ped_exception_throw (
@@ -248,19 +248,20 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 	strcpy (mac_part_data->volume_name, "Apple");
 	strcpy (mac_part_data->system_name, "Apple_partition_map");
 
-	if (!ped_disk_add_partition (disk, new_part, constraint_any))
+	constraint_exact = ped_constraint_exact (&new_part->geom);
+	bool ok = ped_disk_add_partition (disk, new_part, constraint_exact);
+	ped_constraint_destroy (constraint_exact);
+	if (!ok)
 		goto error_destroy_new_part;
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
 		= new_part->geom.end - mac_disk_data->ghost_size;
-	ped_constraint_destroy (constraint_any);
 	return 1;
 
 error_destroy_new_part:
 	ped_partition_destroy (new_part);
 error:
-	ped_constraint_destroy (constraint_any);
 	return 0;
 }
 
-- 
2.43.0


From b2ed537f647d45bd6c5630053883cf394b67bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 47/84] fix: do not wipe a mac label before adding the entry of
 its map

---
 libparted/labels/mac.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 07c360b..807b13d 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -818,7 +818,10 @@ mac_read (PedDisk* disk)
 	if (!mac_disk_data->part_map_entry_num) {
 		if (!_disk_add_part_map_entry (disk, 1))
 			goto error_delete_all;
-		ped_disk_commit_to_dev (disk);
+		/* This is the label that was found: do not wipe it first.  */
+		disk->needs_clobber = 0;
+		if (!ped_disk_commit_to_dev (disk))
+			goto error_delete_all;
 	}
 	free (buf);
 	return 1;
-- 
2.43.0


From 446d9213ed91e71175c5b7a22345a24152a0f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 48/84] fix: reject a mac label with a block size of zero

---
 libparted/labels/mac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 807b13d..d0140af 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -628,7 +628,8 @@ _disk_analyse_block_size (PedDisk* disk, MacRawDisk* raw_disk)
 {
 	PedSector	block_size;
 
-	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512) {
+	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512
+	    || raw_disk->block_size == 0) {
 #ifndef DISCOVER_ONLY
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
-- 
2.43.0


From ef7328b5a34ef028a0c47463ffae10d0372e5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 49/84] fix: name the entry in the message on conflicting mac
 map sizes

An argument was missing. Also free a partition that could not be added.
---
 libparted/labels/mac.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index d0140af..348efb4 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -777,7 +777,7 @@ mac_read (PedDisk* disk)
 				_("Conflicting partition map entry sizes!  "
 				  "Entry 1 says it is %d, but entry %d says "
 				  "it is %d!"),
-				last_part_entry_num,
+				last_part_entry_num, num,
 				_rawpart_get_partmap_size (raw_part, disk))
 					!= PED_EXCEPTION_IGNORE)
 				goto error_delete_all;
@@ -797,8 +797,10 @@ mac_read (PedDisk* disk)
 			goto error_delete_all;
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
-		if (!ok)
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error_delete_all;
+		}
 
 		if (_rawpart_is_partition_map (raw_part)) {
 			if (mac_disk_data->part_map_entry_num
-- 
2.43.0


From 9abcef8ccad38b9e13132c60e7763284d063d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 50/84] fix: do not write mac map entries beyond the partition
 map

---
 libparted/labels/mac.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 348efb4..d2ab95a 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1080,6 +1080,22 @@ mac_write (PedDisk* disk)
 	if (!part_map)
 		goto error_free_driverdata;
 
+/* make sure that the map has room for each entry */
+	PedSector entries = mac_disk_data->last_part_entry_num;
+	for (part = ped_disk_next_partition (disk, NULL); part;
+	     part = ped_disk_next_partition (disk, part)) {
+		if (ped_partition_is_active (part))
+			entries = PED_MAX (entries, part->num);
+	}
+	if (entries > mac_disk_data->part_map_entry_count) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The partition map has no room for %d entries."),
+			(int) entries);
+		goto error_free_part_map;
+	}
+
 /* write (to memory) the "real" partitions */
 	for (part = ped_disk_next_partition (disk, NULL); part;
 	     part = ped_disk_next_partition (disk, part)) {
@@ -1095,6 +1111,8 @@ mac_write (PedDisk* disk)
 		if (part->type != PED_PARTITION_FREESPACE)
 			continue;
 		num = _get_first_empty_part_entry (disk, part_map);
+		if (!num)
+			break;	/* no room left to describe free space */
 		if (!_generate_raw_freespace_part (disk, &part->geom, num,
 						   part_map))
 			goto error_free_part_map;
-- 
2.43.0


From 57497c301ba8d06c1bf8d46b6248ca9b64dc845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 51/84] fix: flush a mac label to the device

---
 libparted/labels/mac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index d2ab95a..4ce0248 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1130,7 +1130,7 @@ mac_write (PedDisk* disk)
 	free (part_map);
 	int write_ok = write_block_zero (disk, mac_driverdata);
 	free (mac_driverdata);
-	return write_ok;
+	return write_ok && ped_device_sync (disk->dev);
 
 error_free_part_map:
 	free (part_map);
-- 
2.43.0


From 65fce07a470191bbab0440b9a7ac7fed513d2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 52/84] fix: running out of memory while reading a label is not
 fatal

---
 libparted/labels/pt-tools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pt-tools.c b/libparted/labels/pt-tools.c
index add4c45..5e6f8ea 100644
--- a/libparted/labels/pt-tools.c
+++ b/libparted/labels/pt-tools.c
@@ -65,7 +65,8 @@ ptt_read_sectors (PedDevice const *dev, PedSector start_sector,
 		  PedSector n_sectors, void **buf)
 {
   char *b = ped_malloc (n_sectors * dev->sector_size);
-  PED_ASSERT (b != NULL);
+  if (b == NULL)
+    return 0;
   if (!ped_device_read (dev, b, start_sector, n_sectors)) {
     free (b);
     return 0;
-- 
2.43.0


From c840aa8f40d595779d1acb2796bf1fbf6b9b7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:43 +0000
Subject: [PATCH 53/84] fix: do not abort on logical partitions without a gap
 between them

Such tables can be read, where their extended boot records are kept in
other places. Writing them is refused, it needs the gap.
---
 libparted/labels/dos.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 4b81340..65f7773 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1384,6 +1384,14 @@ write_ext_table (const PedDisk* disk,
 		goto cleanup;
 
 	part = ped_disk_get_partition (disk, logical->num + 1);
+	if (part && (!part->prev
+		     || !(part->prev->type & PED_PARTITION_METADATA))) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("There is no room for the table of partition %d "
+			  "before it."), part->num);
+		goto cleanup;
+	}
 	if (part) {
 		PedGeometry*		geom;
 		PedCHSGeometry		bios_geom;
@@ -2382,7 +2390,9 @@ add_logical_part_metadata (PedDisk* disk, const PedPartition* log_part)
 	if (log_part->num == 5 && metadata_length < bios_geom.sectors)
 		return 1;
 
-	PED_ASSERT (metadata_length > 0);
+	/* no room: found on a disk whose tables are elsewhere */
+	if (metadata_length <= 0)
+		return 1;
 
 	return add_metadata_part (disk, PED_PARTITION_LOGICAL,
 				  metadata_start, metadata_end);
-- 
2.43.0


From 42f9317e763b471c328d717dfc293d1dec230423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 54/84] fix: do not read before a string that starts beyond the
 end of the line

---
 parted/strlist.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parted/strlist.c b/parted/strlist.c
index c4cb351..0a97ffe 100644
--- a/parted/strlist.c
+++ b/parted/strlist.c
@@ -457,6 +457,13 @@ str_list_print_wrap (const StrList* list, int line_length, int offset,
 		while (line_left < str_len || wchar_strchr (str, '\n')) {
 			line_break = 0;
 
+			/* nothing fits on this line any more */
+			if (line_left < 1) {
+				fprintf (fp, "\n%*s", indent, "");
+				line_left = line_length - indent;
+				continue;
+			}
+
 			cut_left = MIN (line_left - 1, str_len - 1);
 
 			/* we can have a space "over", but not a comma */
-- 
2.43.0


From 24e1196a573ea25138b9bc05500393388bb7da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 55/84] fix: ped_calloc must survive running out of memory

---
 libparted/libparted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/libparted.c b/libparted/libparted.c
index 204ce00..f7c4a3b 100644
--- a/libparted/libparted.c
+++ b/libparted/libparted.c
@@ -256,7 +256,8 @@ void* ped_calloc (size_t size)
 {
         void* buf = ped_malloc (size);
 
-        memset (buf, 0, size);
+        if (buf)
+                memset (buf, 0, size);
 
         return buf;
 }
-- 
2.43.0


From eea1560ce9a2933f4edc81a283ea691839d09d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 56/84] fix: accept empty names of mac and pc98 partitions

Stripping trailing spaces went on before the start of the name.
---
 libparted/labels/mac.c  | 2 +-
 libparted/labels/pc98.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 4ce0248..7758a35 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1378,7 +1378,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	strncpy (mac_data->volume_name, name, 32);
 	mac_data->volume_name [32] = 0;
 	for (i = strlen (mac_data->volume_name) - 1;
-			mac_data->volume_name[i] == ' '; i--)
+			i >= 0 && mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
 }
 
diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 60e4be5..830bc00 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -634,7 +634,8 @@ pc98_partition_set_name (PedPartition* part, const char* name)
 
 	strncpy (pc98_data->name, name, 16);
 	pc98_data->name [16] = 0;
-	for (i = strlen (pc98_data->name) - 1; pc98_data->name[i] == ' '; i--)
+	for (i = strlen (pc98_data->name) - 1;
+			i >= 0 && pc98_data->name[i] == ' '; i--)
 		pc98_data->name [i] = 0;
 }
 
-- 
2.43.0


From c407b50036a2f3cc90576c028f56bedcef6d35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 57/84] fix: do not give a dvh volume header a number that is
 taken

---
 libparted/labels/dvh.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 2f292a3..e5a38fa 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -191,6 +191,15 @@ _handle_no_volume_header (PedDisk* disk)
 				0, PTYPE_VOLHDR_DFLTSZ - 1);
 			if (!part)
 				goto error;
+			/* it has a number of its own */
+			if (ped_disk_get_partition (disk, PNUM_VOLHDR + 1)) {
+				ped_exception_throw (
+					PED_EXCEPTION_ERROR,
+					PED_EXCEPTION_CANCEL,
+					_("Invalid partition table on %s."),
+					disk->dev->path);
+				goto error_destroy_part;
+			}
 			part->num = PNUM_VOLHDR + 1;
 			constraint = ped_constraint_any (part->disk->dev);
 			if (!constraint)
-- 
2.43.0


From e1ea36985658ef6d2818e010ff618dd69bef45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 58/84] fix: report an unsupported number of GPT entries
 instead of aborting

---
 libparted/labels/gpt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index e0c3888..b1cbfda 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -851,8 +851,13 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
 
   gpt_disk_data->entry_count
     = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
-  PED_ASSERT (gpt_disk_data->entry_count > 0);
-  PED_ASSERT (gpt_disk_data->entry_count <= 8192);
+  if (gpt_disk_data->entry_count < 1 || gpt_disk_data->entry_count > 8192)
+    {
+      ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                           _("Invalid partition table on %s."),
+                           disk->dev->path);
+      return 0;
+    }
 
   gpt_disk_data->uuid = gpt->DiskGUID;
 
-- 
2.43.0


From 44c38ad177022c6dbc09f1114f993c0983c65d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 59/84] fix: a duplicate of a GPT keeps its backup where it is

---
 libparted/labels/gpt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index b1cbfda..a13e9f2 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -632,6 +632,7 @@ gpt_duplicate (const PedDisk *disk)
                      old_disk_data->data_area.start,
                      old_disk_data->data_area.length);
   new_disk_data->entry_count = old_disk_data->entry_count;
+  new_disk_data->AlternateLBA = old_disk_data->AlternateLBA;
   new_disk_data->uuid = old_disk_data->uuid;
   new_disk_data->pmbr_boot = old_disk_data->pmbr_boot;
   return new_disk;
-- 
2.43.0


From a583d6cd2074977c55506f07572e4b6cf94c13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 60/84] fix: a duplicate of a loop label has one partition

---
 libparted/labels/loop.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 45d169d..0af3c58 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -103,7 +103,15 @@ loop_alloc (const PedDevice* dev)
 static PedDisk*
 loop_duplicate (const PedDisk* disk)
 {
-	return ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	PedDisk*	new_disk;
+
+	new_disk = ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	/* A fresh label has a partition, but the original's is duplicated.  */
+	if (new_disk && !ped_disk_delete_all (new_disk)) {
+		ped_disk_destroy (new_disk);
+		return NULL;
+	}
+	return new_disk;
 }
 
 static void
-- 
2.43.0


From 42368b248ff241b83efec5a43e53722cca49d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 61/84] fix: do not overflow the size of a GPT partition array

---
 libparted/labels/gpt.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index a13e9f2..4a332f5 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -654,12 +654,14 @@ static void *
 gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
                    size_t *ptes_bytes)
 {
-  uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
-  *ptes_bytes = p_ent_size * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
-  size_t ptes_sectors = ped_div_round_up (*ptes_bytes,
-                                          disk->dev->sector_size);
-
-  if (xalloc_oversized (ptes_sectors, disk->dev->sector_size))
+  uint64_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
+  uint64_t n_bytes = p_ent_size * PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  *ptes_bytes = n_bytes;
+  size_t ptes_sectors = n_bytes / disk->dev->sector_size
+                        + (n_bytes % disk->dev->sector_size != 0);
+
+  if (*ptes_bytes != n_bytes || ptes_sectors > disk->dev->length
+      || xalloc_oversized (ptes_sectors, disk->dev->sector_size))
     {
       errno = ENOMEM;
       return NULL;
@@ -762,12 +764,14 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
 static PedSector
 _ptes_sectors(PedDisk const *disk, GuidPartitionTableHeader_t const *gpt)
 {
-  size_t ptes_bytes = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
-                      PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  uint64_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
+  uint64_t ptes_bytes = p_ent_size *
+                        PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
   /* Minimum amount of space reserved is 128 128 byte entries */
   if (ptes_bytes < 128*128)
     ptes_bytes = 128*128;
-  return ped_div_round_up (ptes_bytes, disk->dev->sector_size);
+  return ptes_bytes / disk->dev->sector_size
+         + (ptes_bytes % disk->dev->sector_size != 0);
 }
 
 /* Return the header's idea of the last sector of the disk
@@ -1116,7 +1120,7 @@ gpt_read (PedDisk *disk)
   for (i = 0; i < gpt_disk_data->entry_count; i++)
     {
       GuidPartitionEntry_t *pte
-        = (GuidPartitionEntry_t *) ((char *) ptes + i * p_ent_size);
+        = (GuidPartitionEntry_t *) ((char *) ptes + (size_t) i * p_ent_size);
       PedPartition *part;
 
       if (!guid_cmp (pte->PartitionTypeGuid, UNUSED_ENTRY_GUID))
-- 
2.43.0


From 7e1e8be8bb2850ed7a2a4cd07463d20b6556adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 62/84] fix: report a sun partition that starts far outside the
 device

---
 libparted/labels/sun.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 1d92895..cca72c4 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -346,8 +346,15 @@ sun_read (PedDisk* disk)
 		if (label->infos[i].id == WHOLE_DISK_ID)
 	       		continue;
 
-		start = PED_BE32_TO_CPU(label->partitions[i].start_cylinder)
-				    * block;
+		start = PED_BE32_TO_CPU(label->partitions[i].start_cylinder);
+		if (block > 0 && start > disk->dev->length / block) {
+			/* the product need not even fit in a PedSector */
+			ped_exception_throw (PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("Can't have a partition outside the disk!"));
+			goto error;
+		}
+		start *= block;
 		end = start
 		      + PED_BE32_TO_CPU(label->partitions[i].num_sectors) - 1;
 
-- 
2.43.0


From d7d58cdd1f7ad233dc253c7f9514d0524ef041b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 63/84] fix: do not add a dvh volume header over other
 partitions

---
 libparted/labels/dvh.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index e5a38fa..5565d75 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -175,7 +175,9 @@ _handle_no_volume_header (PedDisk* disk)
 {
 	PedExceptionOption	ret;
 	PedPartition*		part;
+	PedPartition*		walk;
 	PedConstraint*		constraint;
+	PedSector		length = PTYPE_VOLHDR_DFLTSZ;
 
 	PedExceptionOption answer = ped_exception_throw (
 		PED_EXCEPTION_WARNING,
@@ -186,9 +188,18 @@ _handle_no_volume_header (PedDisk* disk)
 		case PED_EXCEPTION_UNHANDLED:
 		case PED_EXCEPTION_FIX:
 		default:
+			/* partitions aren't aligned while a label is read, so
+			 * this one has to fit as it is */
+			length = PED_MIN (length, disk->dev->length);
+			for (walk = ped_disk_next_partition (disk, NULL); walk;
+			     walk = ped_disk_next_partition (disk, walk)) {
+				if (ped_partition_is_active (walk))
+					length = PED_MIN (length,
+							  walk->geom.start);
+			}
 			part = ped_partition_new (
 				disk, PED_PARTITION_EXTENDED, NULL,
-				0, PTYPE_VOLHDR_DFLTSZ - 1);
+				0, length - 1);
 			if (!part)
 				goto error;
 			/* it has a number of its own */
@@ -201,7 +212,7 @@ _handle_no_volume_header (PedDisk* disk)
 				goto error_destroy_part;
 			}
 			part->num = PNUM_VOLHDR + 1;
-			constraint = ped_constraint_any (part->disk->dev);
+			constraint = ped_constraint_exact (&part->geom);
 			if (!constraint)
 				goto error_destroy_part;
 			if (!ped_disk_add_partition (disk, part, constraint))
-- 
2.43.0


From 071ca156d00dec6378b06f62bc2228be81d99a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 64/84] fix: limit the length of the name in a damaged amiga
 block

---
 libparted/labels/rdb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index cf9c96c..dbc8715 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -51,10 +51,12 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-static const char * _amiga_get_bstr (char * bstr) {
+static const char * _amiga_get_bstr (char * bstr, int maxsize) {
 	char * cstr = bstr + 1;
-	int size = bstr[0];
+	int size = (unsigned char) bstr[0];
 
+	/* the length may come from a damaged block */
+	if (size > maxsize - 1) size = maxsize - 1;
 	cstr[size] = '\0';
 	return cstr;
 }
@@ -1049,7 +1051,7 @@ amiga_partition_get_name (const PedPartition* part)
 
 	partition = PART(part->disk_specific);
 
-	return _amiga_get_bstr(partition->pb_DriveName);
+	return _amiga_get_bstr(partition->pb_DriveName, 32);
 }
 
 static PedAlignment*
-- 
2.43.0


From cdc129d8904f269a0133c9c528b79f6d32c830a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 65/84] fix: do not use an uninitialised range for an extended
 partition

---
 libparted/labels/dos.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 65f7773..162512b 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2216,16 +2216,21 @@ _no_geom_extended_constraint (const PedPartition* part)
 	PedGeometry	start_range;
 	PedGeometry	end_range;
 	PedConstraint*	constraint;
+	int		ok;
 
 	if (min) {
-		ped_geometry_init (&start_range, dev, 1, min->start);
-		ped_geometry_init (&end_range, dev, min->end,
-				   dev->length - min->end);
+		/* logical partitions may be outside the device */
+		ok = ped_geometry_init (&start_range, dev, 1, min->start)
+		     && ped_geometry_init (&end_range, dev, min->end,
+					   dev->length - min->end);
 		ped_geometry_destroy (min);
 	} else {
-		ped_geometry_init (&start_range, dev, 1, dev->length - 1);
-		ped_geometry_init (&end_range, dev, 1, dev->length - 1);
+		ok = ped_geometry_init (&start_range, dev, 1, dev->length - 1)
+		     && ped_geometry_init (&end_range, dev, 1,
+					   dev->length - 1);
 	}
+	if (!ok)
+		return NULL;
 	constraint = ped_constraint_new (ped_alignment_any, ped_alignment_any,
 			&start_range, &end_range, 1, dev->length);
 	return constraint;
-- 
2.43.0


From bd0494c3c643fe797ba6ef7a6e03d834477b8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:51 +0000
Subject: [PATCH 66/84] fix: do not use ranges that could not be initialised

---
 libparted/cs/constraint.c | 27 ++++++++++++++++-----------
 libparted/labels/atari.c  | 22 ++++++++++++++--------
 libparted/labels/bsd.c    |  3 ++-
 libparted/labels/dos.c    |  8 +++++---
 libparted/labels/gpt.c    |  5 +++--
 5 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index 146c318..2dc06dc 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -131,10 +131,11 @@ ped_constraint_new_from_min_max (
 	PED_ASSERT (max != NULL);
 	PED_ASSERT (ped_geometry_test_inside (max, min));
 
-	ped_geometry_init (&start_range, min->dev, max->start,
-			   min->start - max->start + 1);
-	ped_geometry_init (&end_range, min->dev, min->end,
-			   max->end - min->end + 1);
+	if (!ped_geometry_init (&start_range, min->dev, max->start,
+				min->start - max->start + 1)
+	    || !ped_geometry_init (&end_range, min->dev, min->end,
+				   max->end - min->end + 1))
+		return NULL;
 
 	return ped_constraint_new (
 			ped_alignment_any, ped_alignment_any,
@@ -154,7 +155,8 @@ ped_constraint_new_from_min (const PedGeometry* min)
 
 	PED_ASSERT (min != NULL);
 
-	ped_geometry_init (&full_dev, min->dev, 0, min->dev->length);
+	if (!ped_geometry_init (&full_dev, min->dev, 0, min->dev->length))
+		return NULL;
 	return ped_constraint_new_from_min_max (min, &full_dev);
 }
 
@@ -320,9 +322,10 @@ _constraint_get_canonical_start_range (const PedConstraint* constraint)
 	if (max_start < 0)
 		return NULL;
 
-	ped_geometry_init (
+	if (!ped_geometry_init (
 		&start_min_max_range, constraint->start_range->dev,
-		min_start, max_start - min_start + 1);
+		min_start, max_start - min_start + 1))
+		return NULL;
 
 	return ped_geometry_intersect (&start_min_max_range,
 				       constraint->start_range);
@@ -369,9 +372,10 @@ _constraint_get_end_range (const PedConstraint* constraint, PedSector start)
 	if (last_min_max_end > dev->length - 1)
 		last_min_max_end = dev->length - 1;
 
-	ped_geometry_init (&end_min_max_range, dev,
-			   first_min_max_end,
-			   last_min_max_end - first_min_max_end + 1);
+	if (!ped_geometry_init (&end_min_max_range, dev,
+				first_min_max_end,
+				last_min_max_end - first_min_max_end + 1))
+		return NULL;
 
 	return ped_geometry_intersect (&end_min_max_range,
 		       		       constraint->end_range);
@@ -450,7 +454,8 @@ ped_constraint_solve_max (const PedConstraint* constraint)
 	if (!constraint)
 		return NULL;
 	dev = constraint->start_range->dev;
-	ped_geometry_init (&full_dev, dev, 0, dev->length);
+	if (!ped_geometry_init (&full_dev, dev, 0, dev->length))
+		return NULL;
 	return ped_constraint_solve_nearest (constraint, &full_dev);
 }
 
diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8ab3720..6306621 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1448,8 +1448,9 @@ atr_log_constraint (const PedPartition* part)
 	if (min_start >= max_end)
 		return NULL;
 
-	ped_geometry_init (&safe_space, dev, min_start,
-			   max_end - min_start + 1);
+	if (!ped_geometry_init (&safe_space, dev, min_start,
+				max_end - min_start + 1))
+		return NULL;
 	return ped_constraint_new_from_max (&safe_space);
 }
 
@@ -1495,6 +1496,7 @@ atr_ext_constraint (const PedPartition* part)
 	PedDevice*	dev;
 	PedDisk*	disk;
 	PedGeometry*	min;
+	int		ok;
 
 	PED_ASSERT (part->disk != NULL);
 	PED_ASSERT (part->disk->dev != NULL);
@@ -1503,14 +1505,17 @@ atr_ext_constraint (const PedPartition* part)
 	min = art_min_extended_geom (part);
 
 	if (min) {
-		ped_geometry_init (&start_range, dev, 1, min->start);
-		ped_geometry_init (&end_range, dev, min->end,
-				   dev->length - min->end);
+		ok = ped_geometry_init (&start_range, dev, 1, min->start)
+		     && ped_geometry_init (&end_range, dev, min->end,
+					   dev->length - min->end);
 		ped_geometry_destroy (min);
 	} else {
-		ped_geometry_init (&start_range, dev, 1, dev->length - 1);
-		ped_geometry_init (&end_range, dev, 1, dev->length - 1);
+		ok = ped_geometry_init (&start_range, dev, 1, dev->length - 1)
+		     && ped_geometry_init (&end_range, dev, 1,
+					   dev->length - 1);
 	}
+	if (!ok)
+		return NULL;
 
 	constraint = ped_constraint_new (ped_alignment_any, ped_alignment_any,
 				&start_range, &end_range, 1, dev->length);
@@ -1528,7 +1533,8 @@ atr_prim_constraint (const PedPartition* part)
 
 	dev = part->disk->dev;
 
-	ped_geometry_init (&max, dev, 1, dev->length - 1);
+	if (!ped_geometry_init (&max, dev, 1, dev->length - 1))
+		return NULL;
 	return ped_constraint_new_from_max (&max);
 }
 
diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 38bc64c..8544329 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -545,7 +545,8 @@ _get_constraint (const PedDevice* dev)
 {
 	PedGeometry	max;
 
-	ped_geometry_init (&max, dev, 1, dev->length - 1);
+	if (!ped_geometry_init (&max, dev, 1, dev->length - 1))
+		return NULL;
 	return ped_constraint_new_from_max (&max);
 }
 
diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 162512b..f3d4bd2 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2132,8 +2132,9 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	if (min_start >= max_end)
 		return NULL;
 
-	ped_geometry_init (&safe_space, part->disk->dev,
-			   min_start, max_end - min_start + 1);
+	if (!ped_geometry_init (&safe_space, part->disk->dev,
+				min_start, max_end - min_start + 1))
+		return NULL;
 	return ped_constraint_new_from_max (&safe_space);
 }
 
@@ -2204,7 +2205,8 @@ _no_geom_constraint (const PedDisk* disk, PedSector start, PedSector end)
 {
 	PedGeometry	 max;
 
-	ped_geometry_init (&max, disk->dev, start, end - start + 1);
+	if (!ped_geometry_init (&max, disk->dev, start, end - start + 1))
+		return NULL;
 	return ped_constraint_new_from_max (&max);
 }
 
diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 4a332f5..a216311 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -851,8 +851,9 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
         }
     }
 
-  ped_geometry_init (&gpt_disk_data->data_area, disk->dev,
-                     first_usable, last_usable - first_usable + 1);
+  if (!ped_geometry_init (&gpt_disk_data->data_area, disk->dev,
+                          first_usable, last_usable - first_usable + 1))
+    return 0;
 
   gpt_disk_data->entry_count
     = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
-- 
2.43.0


From 31ade1bc29948137da153dea9a7ecfed8235601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 67/84] fix: clear sectors that are larger than 16 KiB

---
 libparted/labels/pt-tools.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/pt-tools.c b/libparted/labels/pt-tools.c
index 5e6f8ea..7001973 100644
--- a/libparted/labels/pt-tools.c
+++ b/libparted/labels/pt-tools.c
@@ -89,10 +89,21 @@ ptt_read_sector (PedDevice const *dev, PedSector sector_num, void **buf)
 int
 ptt_clear_sectors (PedDevice *dev, PedSector start, PedSector n)
 {
-  PED_ASSERT (dev->sector_size <= sizeof zero);
+  PedSector i;
+  if (dev->sector_size > sizeof zero)
+    {
+      /* a mac label may claim sectors of up to 65024 bytes */
+      int ok = 1;
+      void *buf = ped_calloc (dev->sector_size);
+      if (buf == NULL)
+        return 0;
+      for (i = 0; ok && i < n; i++)
+        ok = ped_device_write (dev, buf, start + i, 1);
+      free (buf);
+      return ok;
+    }
   PedSector n_z_sectors = sizeof zero / dev->sector_size;
   PedSector n_full = n / n_z_sectors;
-  PedSector i;
   for (i = 0; i < n_full; i++)
     {
       if (!ped_device_write (dev, zero, start + n_z_sectors * i, n_z_sectors))
-- 
2.43.0


From fe2a49663931448f9e37cb6565b8c0229941fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:10 +0000
Subject: [PATCH 68/84] fix: do not abort when a dvh label changed after it was
 probed

---
 libparted/labels/dvh.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 5565d75..0e384d3 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -333,7 +333,13 @@ dvh_read (PedDisk* disk)
 			return 0;
 	}
 
-	PED_ASSERT (PED_BE32_TO_CPU (vh.vh_magic) == VHMAGIC);
+	/* the device may have changed since it was probed */
+	if (PED_BE32_TO_CPU (vh.vh_magic) != VHMAGIC) {
+		ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+				     _("Invalid partition table on %s."),
+				     disk->dev->path);
+		return 0;
+	}
 
 	dvh_disk_data->dev_params = vh.vh_dp;
 	boot_name[BFNAMESIZE] = 0;
-- 
2.43.0


From 686c095197fbe264c7dee802a84d63ba2e1d7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:25 +0000
Subject: [PATCH 69/84] fix: a sun partition without a file system has a type

An entry with type 0 counts as unused: the partition was lost.
---
 libparted/labels/sun.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index cca72c4..945094d 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -518,7 +518,7 @@ sun_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		       	= sun_data = ped_malloc (sizeof (SunPartitionData));
 		if (!sun_data)
 			goto error_free_part;
-		sun_data->type = 0;
+		sun_data->type = 0x83;
 		sun_data->is_boot = 0;
 		sun_data->is_root = 0;
 		sun_data->is_lvm = 0;
-- 
2.43.0


From 44132eb7f0d9111e9e0a8ff87e70cdfcfdf00972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:25 +0000
Subject: [PATCH 70/84] fix: a bsd partition without a file system has a type

An entry with type 0 counts as unused: the partition was lost.
---
 libparted/labels/bsd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 8544329..bee4ecf 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -388,7 +388,7 @@ bsd_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		       	= bsd_data = ped_malloc (sizeof (BSDPartitionData));
 		if (!bsd_data)
 			goto error_free_part;
-		bsd_data->type = 0;
+		bsd_data->type = 0x8;
 		bsd_data->boot = 0;
 		bsd_data->raid = 0;
 		bsd_data->lvm  = 0;
-- 
2.43.0


From 807d472a3ecafab0b9267ccf5a217562ead97895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:25 +0000
Subject: [PATCH 71/84] fix: compute the checksum of a bsd label over all its
 partitions

It covered only part of the label, so BSD systems reject what parted
writes.
---
 libparted/labels/bsd.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index bee4ecf..f824d77 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -105,7 +105,6 @@ struct _BSDRawLabel {
 	uint16_t	d_npartitions;		/* number of partitions in following */
 	uint32_t	d_bbsize;		/* size of boot area at sn0, bytes */
 	uint32_t	d_sbsize;		/* max size of fs superblock, bytes */
-#define D_PARTITIONS_WORDS	59
 	BSDRawPartition d_partitions[BSD_MAXPARTITIONS];	/* actually may be more */
 } __attribute__((packed, aligned(2)));
 
@@ -128,7 +127,8 @@ static PedDiskType bsd_disk_type;
 static unsigned short
 xbsd_dkcksum (BSDRawLabel *lp) {
 	const u_short* word = (u_short*)(lp);
-	const u_short* end = word + D_PARTITIONS_WORDS + PED_LE16_TO_CPU(lp->d_npartitions);
+	const u_short* end = (u_short*)(lp->d_partitions
+					+ PED_LE16_TO_CPU(lp->d_npartitions));
 	u_short sum;
 
 	lp->d_checksum = 0;
@@ -215,7 +215,7 @@ bsd_alloc (const PedDevice* dev)
 	label->d_sbsize = PED_CPU_TO_LE32 (BSD_SBSIZE);
 
 	label->d_npartitions = 0;
-	label->d_checksum = xbsd_dkcksum (label);
+	label->d_checksum = PED_CPU_TO_LE16 (xbsd_dkcksum (label));
 
 	return disk;
 
@@ -356,8 +356,9 @@ bsd_write (const PedDisk* disk)
 		max_part = i;
 	}
 
-	label->d_npartitions = PED_CPU_TO_LE16 (max_part + 1);
-	label->d_checksum = xbsd_dkcksum (label);
+	label->d_npartitions = PED_CPU_TO_LE16 (PED_MIN (max_part + 1,
+							 BSD_MAXPARTITIONS));
+	label->d_checksum = PED_CPU_TO_LE16 (xbsd_dkcksum (label));
 
 	alpha_bootblock_checksum (bsd_specific);
 
-- 
2.43.0


From e8ad180816d78686f8358da6de2d671979a22390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:57 +0000
Subject: [PATCH 72/84] fix: keep pc98 partitions below cylinder 65536

---
 libparted/labels/pc98.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 830bc00..9f35a23 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -668,15 +668,19 @@ _primary_constraint (PedDisk* disk)
 	PedAlignment	end_align;
 	PedGeometry	max_geom;
 	PedSector	cylinder_size;
+	PedSector	length;
 
 	cylinder_size = dev->hw_geom.sectors * dev->hw_geom.heads;
 
+	/* there are 16 bits for a cylinder */
+	length = PED_MIN (dev->length, 65536 * cylinder_size);
+
 	if (!ped_alignment_init (&start_align, 0, cylinder_size))
 		return NULL;
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
 	if (!ped_geometry_init (&max_geom, dev, cylinder_size,
-			       	dev->length - cylinder_size))
+			       	length - cylinder_size))
 		return NULL;
 
 	return ped_constraint_new (&start_align, &end_align, &max_geom,
-- 
2.43.0


From af9bc3dfa52c18f7be42d9b566cb216ca47862c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:57 +0000
Subject: [PATCH 73/84] fix: free the table when a pc98 partition cannot be
 written

---
 libparted/labels/pc98.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 9f35a23..5f9118a 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -453,8 +453,10 @@ pc98_write (const PedDisk* disk)
 		if (!part)
 			continue;
 
-		if (!fill_raw_part (&table->partitions [i - 1], part))
+		if (!fill_raw_part (&table->partitions [i - 1], part)) {
+			free (s0);
 			return 0;
+		}
 	}
 
 	int write_ok = ped_device_write (disk->dev, table, 0, 2);
-- 
2.43.0


From e6c50db552dd2512dd5ea9ec681f327a685d3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:57 +0000
Subject: [PATCH 74/84] fix: a pc98 partition without a file system has a type

---
 libparted/labels/pc98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 5f9118a..d7d1fba 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -485,6 +485,7 @@ pc98_partition_new (
 		if (!pc98_data)
 			goto error_free_part;
 		pc98_data->ipl_sector = 0;
+		pc98_data->system = 0x2062;
 		pc98_data->hidden = 0;
 		pc98_data->boot = 0;
 		strcpy (pc98_data->name, "");
-- 
2.43.0


From 85db186a64b0b0d490069552f0e2a7d5a920d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 75/84] fix: no boot file of a dvh label is the one to boot
 when none is named

---
 libparted/labels/dvh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 0e384d3..624bd2f 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -409,7 +409,8 @@ dvh_read (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 		part->num = NPARTAB + i + 1;
 
-		if (!strcmp (boot_name, ped_partition_get_name (part)))
+		if (boot_name[0]
+		    && !strcmp (boot_name, ped_partition_get_name (part)))
 			ped_partition_set_flag (part, PED_PARTITION_BOOT, 1);
 
 		PedConstraint *constraint_exact
-- 
2.43.0


From 06d73b9cdef5aad5a5d45d8428b40a6b10a33d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 76/84] fix: clearing a flag of a dvh partition leaves the
 other partitions alone

---
 libparted/labels/dvh.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 624bd2f..41e8a26 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -644,7 +644,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->root = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->root = part->num;
+		else if (dvh_disk_data->root == part->num)
+			dvh_disk_data->root = 0;
 		break;
 
 	case PED_PARTITION_SWAP:
@@ -658,7 +661,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 			return 0;
 #endif
 		}
-		dvh_disk_data->swap = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->swap = part->num;
+		else if (dvh_disk_data->swap == part->num)
+			dvh_disk_data->swap = 0;
 		break;
 
 	case PED_PARTITION_BOOT:
@@ -672,7 +678,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->boot = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->boot = part->num;
+		else if (dvh_disk_data->boot == part->num)
+			dvh_disk_data->boot = 0;
 		break;
 
 	case PED_PARTITION_LVM:
-- 
2.43.0


From 373feea73108ac1462993f1b5f1963b28d4ee75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 77/84] fix: store the size of a boot file of a dvh label that
 was resized

---
 libparted/labels/dvh.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 41e8a26..515ee7b 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -256,6 +256,13 @@ _parse_partition (PedDisk* disk, struct partition_table* pt)
 	return part;
 }
 
+/* the number of sectors a boot file of SIZE bytes takes */
+static PedSector
+_file_sectors (int size)
+{
+	return ((PedSector) size + 511) / 512;
+}
+
 static PedPartition*
 _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 {
@@ -265,7 +272,7 @@ _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 	int		length = PED_BE32_TO_CPU (vd->vd_nbytes);
 
 	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL,
-				  start, start + length/512 - 1);
+				  start, start + _file_sectors (length) - 1);
 	if (!part)
 		return NULL;
 
@@ -455,6 +462,10 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	/* Assert it's a bootfile */
 	PED_ASSERT ((part->type & PED_PARTITION_LOGICAL) != 0);
 
+	/* the partition may have been resized since */
+	if (_file_sectors (dvh_part_data->real_file_size) != part->geom.length)
+		dvh_part_data->real_file_size = part->geom.length * 512;
+
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
-- 
2.43.0


From 1876eb3f919a27c589223a125ade75e4ec144715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:15 +0000
Subject: [PATCH 78/84] fix: a mac partition name has at most 31 bytes

---
 libparted/labels/mac.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 7758a35..e511a45 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1375,8 +1375,9 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	}
 #endif
 
-	strncpy (mac_data->volume_name, name, 32);
-	mac_data->volume_name [32] = 0;
+	/* the name on the disk ends in a zero byte */
+	strncpy (mac_data->volume_name, name, 31);
+	mac_data->volume_name [31] = 0;
 	for (i = strlen (mac_data->volume_name) - 1;
 			i >= 0 && mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
-- 
2.43.0


From 6f7e90096119a9d07e9d9cdac4802f35c523599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 79/84] fix: write the amiga partition blocks in the order of
 the partition numbers

---
 libparted/labels/rdb.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index dbc8715..27e1b13 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -640,13 +640,21 @@ _amiga_next_free_block(uint32_t *table, size_t tab_size, uint32_t start,
 			&& table[i] != IDNAME_FREE; i++);
 	return i;
 }
+/* The partitions are numbered by their place in the list, so they are put
+ * there in the order of their numbers.
+ */
 static PedPartition * _GL_ATTRIBUTE_PURE
 _amiga_next_real_partition(const PedDisk *disk, PedPartition *part) {
-	PedPartition *next;
-
-	for (next = ped_disk_next_partition (disk, part);
-		next != NULL && !ped_partition_is_active (next);
-		next = ped_disk_next_partition (disk, next));
+	PedPartition *next, *walk;
+
+	next = NULL;
+	for (walk = ped_disk_next_partition (disk, NULL); walk != NULL;
+	     walk = ped_disk_next_partition (disk, walk)) {
+		if (ped_partition_is_active (walk)
+		    && walk->num > (part ? part->num : 0)
+		    && (!next || walk->num < next->num))
+			next = walk;
+	}
 	return next;
 }
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From e987f375ca2704ef01bb4aba01089319505d56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:13 +0000
Subject: [PATCH 80/84] fix: an atari partition without a file system has a
 type

---
 libparted/labels/atari.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 6306621..b5fb97c 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1258,6 +1258,9 @@ atari_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		if (!atrpart)
 			goto error_free_part;
 		memset (atrpart, 0, sizeof (AtariPart));
+		strcpy (atrpart->part_id,
+			part_type & PED_PARTITION_EXTENDED ? "XGM" : "RAW");
+		strcpy (atrpart->icd_id, atrpart->part_id);
 	} else {
 		part->disk_specific = NULL;
 	}
-- 
2.43.0


From 7bd040264a9fdf1f272c1e5088b2afcbcecedf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:49 +0000
Subject: [PATCH 81/84] fix: amiga names that are too long are cut, not ignored

---
 libparted/labels/rdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 27e1b13..6b9def7 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -47,7 +47,7 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	int size = strlen (cstr);
 	int i;
 
-	if (size >= maxsize) return;
+	if (size > maxsize - 1) size = maxsize - 1;
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-- 
2.43.0


From 6bcaa8003520b492b7097436d4f2c2b34f05fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:22 +0000
Subject: [PATCH 82/84] fix: msdos type ids and the hidden flag don't make or
 unmake extended partitions

---
 libparted/labels/dos.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index f3d4bd2..da0be2b 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1666,6 +1666,9 @@ msdos_partition_set_flag (PedPartition* part,
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
 	{
+		/* What is left would be an extended partition.  */
+		if (!state && dos_data->system == PARTITION_DOS_EXT_H)
+			return 0;
 		return dos_type_id_set_hidden(&dos_data->system, state);
 	}
 
@@ -1756,6 +1759,19 @@ int
 msdos_partition_set_type_id (PedPartition* part, uint8_t id)
 {
         DosPartitionData* dos_data = part->disk_specific;
+        bool is_ext = (id == PARTITION_DOS_EXT || id == PARTITION_EXT_LBA
+                       || id == PARTITION_LINUX_EXT);
+
+        /* The type id is all that tells unused entries and extended
+           partitions from the others.  */
+        if (id == PARTITION_EMPTY
+            || is_ext != !!(part->type & PED_PARTITION_EXTENDED)) {
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                        _("Type id 0x%02x can't be used for this partition."),
+                        id);
+                return 0;
+        }
 
         dos_data->system = id;
 
-- 
2.43.0


From 0883fd7761db563c0c0aae3341304d8fa9b37fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 83/84] fix: check the checksum of a GPT header before reading
 as much as it says

---
 libparted/labels/gpt.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index a216311..8cbf5bf 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -737,6 +737,15 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
   if (alt_lba == my_lba)
     return 0;
 
+  /* Only a header that is not damaged tells how much to read.  */
+  origcrc = gpt->HeaderCRC32;
+  gpt->HeaderCRC32 = 0;
+  if (pth_crc32 (dev, gpt, &crc) != 0)
+    return 0;
+  gpt->HeaderCRC32 = origcrc;
+  if (crc != PED_LE32_TO_CPU (origcrc))
+    return 0;
+
   bool crc_match;
   if (check_PE_array_CRC (disk, gpt, &crc_match) != 0 || !crc_match)
     return 0;
@@ -749,13 +758,7 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
   if (last_usable < first_usable)
     return 0;
 
-  origcrc = gpt->HeaderCRC32;
-  gpt->HeaderCRC32 = 0;
-  if (pth_crc32 (dev, gpt, &crc) != 0)
-    return 0;
-  gpt->HeaderCRC32 = origcrc;
-
-  return crc == PED_LE32_TO_CPU (origcrc);
+  return 1;
 }
 
 /* Return the number of sectors that should be used by the
-- 
2.43.0


From 096841689600bd494ebb842344b5356b0d8fa309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:23 +0000
Subject: [PATCH 84/84] fix: don't take a PC98 label for an msdos one when its
 probe cannot read

msdos_probe relied on the PC98 probe, which returns 0 just the same when
reading fails or there is no memory.  Both signatures are in the sector
that msdos_probe has already read.
---
 libparted/labels/dos.c  |  6 ++++--
 libparted/labels/misc.h |  3 +++
 libparted/labels/pc98.c | 11 +++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index da0be2b..229ebf5 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -546,9 +546,11 @@ msdos_probe (const PedDevice *dev)
 	/* HACK: it's impossible to tell PC98 and msdos disk labels apart.
 	 * Someone made the signatures the same (very clever).  Since
 	 * PC98 has some idiosyncracies with it's boot-loader, it's detection
-	 * is more reliable */
+	 * is more reliable.  Look at the sector at hand: if the probe
+	 * function of that label could not read the device, the label would
+	 * be taken for ours. */
 	disk_type = ped_disk_type_get ("pc98");
-	if (disk_type && disk_type->ops->probe (dev))
+	if (disk_type && dev->sector_size == 512 && pc98_is_boot_sector (label))
 		goto probe_fail;
 #endif /* ENABLE_PC98 */
 
diff --git a/libparted/labels/misc.h b/libparted/labels/misc.h
index 7c11388..4dbd9d7 100644
--- a/libparted/labels/misc.h
+++ b/libparted/labels/misc.h
@@ -37,6 +37,9 @@ generate_random_uint32 (void)
        return uu32.i > 0 ? uu32.i : 0xffffffff;
 }
 
+/* Defined in pc98.c.  */
+int pc98_is_boot_sector (const void *sector);
+
 /* Return nonzero if FS_TYPE_NAME starts with "linux-swap".
    This must match the NUL-terminated "linux-swap" as well
    as "linux-swap(v0)" and "linux-swap(v1)".  */
diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index d7d1fba..4f68190 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -151,6 +151,17 @@ pc98_check_ipl_signature (const PC98RawTable *part_table)
 		return 0;
 }
 
+/* Is SECTOR, the first sector of a device, that of a PC98 disk label?
+   msdos_probe needs to know, since the two share their magic number.  */
+int
+pc98_is_boot_sector (const void *sector)
+{
+	const PC98RawTable *part_table = sector;
+
+	return pc98_check_magic (part_table)
+	       && pc98_check_ipl_signature (part_table);
+}
+
 static int
 pc98_probe (const PedDevice *dev)
 {
-- 
2.43.0

